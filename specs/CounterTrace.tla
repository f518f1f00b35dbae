--------------------------- MODULE CounterTrace ---------------------------
EXTENDS Counter, TraceKit, FiniteSets
VARIABLES lap, c, l
tvars == <<cvars, lap, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Site(s) == Trace[c].par.sites[s]
Sites == DOMAIN Trace[c].par.sites
Gs == 1..Trace[c].par.gs
Xs == 1..Trace[c].par.xs

AggKey == <<97, 103, 103>>
DimKey == <<100, 105, 109>>
CounterName == <<99, 111, 117, 110, 116, 101, 114>>
\* the parts of s between the commas
Parts(s) == LET cuts == <<0>> \o SelectSeq([i \in 1..Len(s) |-> IF s[i] = 44 THEN i ELSE 0], LAMBDA i : i > 0) \o <<Len(s) + 1>>
            IN [i \in 1..(Len(cuts) - 1) |-> SubSeq(s, cuts[i] + 1, cuts[i + 1] - 1)]
WithKey(site, key) == {i \in DOMAIN site.props : site.props[i].key = key}
Min(S) == CHOOSE i \in S : \A j \in S : i <= j
Max(S) == CHOOSE i \in S : \A j \in S : i >= j
Kind(site) == LET a == WithKey(site, AggKey)
                  agg == IF site.agg # <<>> THEN site.agg ELSE IF a = {} THEN <<>> ELSE site.props[Min(a)].val
              IN IF site.agg = <<>> /\ a = {} THEN "none"
                 ELSE IF agg = CounterName /\ Trace[c].par.collector THEN "counter" ELSE "dummy"
Names(site) == LET d == WithKey(site, DimKey) IN IF d = {} THEN <<>> ELSE Parts(site.props[Max(d)].val)
\* the numbers of the properties that are dimensions, in the order of the properties, once per naming
RECURSIVE Indices(_, _)
Indices(site, i) == IF i > Len(site.props) THEN <<>>
                    ELSE [j \in 1..Len(SelectSeq(Names(site), LAMBDA n : n = site.props[i].key)) |-> i] \o Indices(site, i + 1)
RECURSIVE Flat(_, _, _)
Flat(site, vals, is) == IF is = <<>> THEN <<>> ELSE <<site.props[Head(is)].key, vals[Head(is)].s>> \o Flat(site, vals, Tail(is))
Dim(s, vals) == Flat(Site(s), vals, Indices(Site(s), 1))
Countable(s, vals) == \A i \in 1..Len(Indices(Site(s), 1)) : vals[Indices(Site(s), 1)[i]].str

BadCall == <<0>>
EventOf(s) == Site(s).event
\* how often each event was counted with these values, whichever the site, and what was exported
RECURSIVE SumFor(_, _, _, _)
SumFor(keys, ns, k, i) == IF i = 0 THEN 0 ELSE (IF keys[i] = k THEN ns[i] ELSE 0) + SumFor(keys, ns, k, i - 1)
Tallied(counts, outs) ==
  LET ck == TLCEval([i \in 1..Len(counts) |-> <<EventOf(counts[i].s), Dim(counts[i].s, counts[i].vals)>>])
      cn == TLCEval([i \in 1..Len(counts) |-> counts[i].n])
      ok == TLCEval([i \in 1..Len(outs) |-> <<outs[i].ev, outs[i].dim>>])
      on == TLCEval([i \in 1..Len(outs) |-> outs[i].v]) IN
  \A k \in {ck[i] : i \in 1..Len(ck)} \cup {ok[i] : i \in 1..Len(ok)} :
     SumFor(ok, on, k, Len(ok)) = SumFor(ck, cn, k, Len(ck))

Consume ==
  \/ Is("Handler") /\ UNCHANGED <<cvars, lap>> /\ Ev.kind = Kind(Site(Ev.s)) /\ (Ev.kind = "counter" => Ev.execs = 1)
  \/ Is("CCall") /\ UNCHANGED lap /\ IF Countable(Ev.s, Ev.vals) THEN CCall(Ev.g, <<Ev.s, Dim(Ev.s, Ev.vals)>>)
                                     ELSE call[Ev.g] = <<>> /\ call' = [call EXCEPT ![Ev.g] = BadCall] /\ UNCHANGED <<begun, ended, out, ex>>
  \/ Is("CRet") /\ UNCHANGED lap /\ call[Ev.g] # BadCall /\ CRet(Ev.g)
  \/ Is("CPanic") /\ UNCHANGED lap /\ call[Ev.g] = BadCall /\ call' = [call EXCEPT ![Ev.g] = <<>>] /\ UNCHANGED <<begun, ended, out, ex>>
  \/ Is("ECall") /\ ECall(Ev.x, Ev.s)
       /\ lap' = lap \cup (IF \E x \in Xs : ex[x].st = "run" THEN {Ev.x} \cup {x \in Xs : ex[x].st = "run"} ELSE {})
  \/ Is("Point") /\ UNCHANGED lap /\ Ev.x \in Xs /\ ex[Ev.x].st = "run"
       /\ LET s == ex[Ev.x].s IN /\ Ev.ev = EventOf(s)
                                 /\ (<<s, Ev.dim>> \in DOMAIN begun)
                                 /\ Point(Ev.x, s, <<s, Ev.dim>>, Ev.v)
  \/ Is("ERet") /\ UNCHANGED lap /\ ex[Ev.x].st = "run"
       /\ ERet(Ev.x, IF Ev.x \in lap THEN {} ELSE {k \in DOMAIN ended : k[1] = ex[Ev.x].s})
  \/ Is("EFail") /\ UNCHANGED lap /\ Ev.injected /\ EFail(Ev.x)
  \* many goroutines at once; only the sums are recorded, after everything ended and was exported
  \/ Is("Bulk") /\ UNCHANGED <<cvars, lap>> /\ Ev.done
       /\ Tallied(Ev.counts, Ev.out)
  \* the exporter that runs by itself: exports again and again, never early, until its context ends
  \/ Is("Auto") /\ UNCHANGED <<cvars, lap>> /\ Ev.exports >= Ev.wanted /\ ~Ev.early /\ Ev.ended /\ Ev.late = 0
TraceInit == /\ c \in 1..NCases /\ l = 1 /\ lap = {}
             /\ begun = <<>> /\ ended = <<>> /\ out = <<>> /\ call = [g \in 1..Trace[c].par.gs |-> <<>>]
             /\ ex = [x \in 1..Trace[c].par.xs |-> [st |-> "idle", s |-> 0, must |-> <<>>]]
TraceSpec == TraceInit /\ [][Consume]_tvars
Progress == NeverMore /\ Mark(c, l)
=============================================================================
