---------------------------- MODULE SourceTrace ----------------------------
(* Recorded operations on real sources: each event carries the operation,    *)
(* what it returned, and the error of the source after it.                   *)
EXTENDS Source, TraceKit
VARIABLES s, on, c, l
tvars == <<s, on, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ l' = l + 1 /\ c' = c
In == Trace[c].par.inp
End == Trace[c].par.end
Q == Rest(In, s)
SetOf(q) == {q[i] : i \in DOMAIN q}
To(t) == s' = t /\ Ev.err = t.err
Go(n) == To(Advance(In, End, s, n))
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* a source of a reader that has nothing is no source
New == /\ Is("New") /\ ~on
       /\ IF Ev.kind = "reader" /\ In = <<>> THEN ~Ev.src /\ Ev.err = End /\ UNCHANGED <<s, on>>
          ELSE Ev.src /\ on' = TRUE /\ To(Start(In, End))
RuneOp(run) == LET n == RunN(s, run.n) IN
               /\ (Ev.kind = "read" => Ev.out = Ev.space \o (IF n = 0 THEN <<>> ELSE run.runes))
               /\ (Ev.kind = "skip" => Ev.n = n)
               /\ Go(n)
ByteOp(belongs) == LET n == RunN(s, ByteRun(Q, 1, belongs)) IN
                   /\ (Ev.kind = "read" => Ev.out = Ev.space \o Take(Q, n))
                   /\ (Ev.kind = "skip" => Ev.n = n)
                   /\ Go(n)
Op ==
  \* some of what comes next; nothing only if there is nothing
  \/ Is("Peek") /\ Prefix(Ev.out, Q) /\ (Ev.out = <<>> => Q = <<>>) /\ To(s)
  \/ Is("Peek1") /\ Q # <<>> /\ Ev.b = Q[1] /\ To(s)
  \/ Is("PeekN") /\ Ev.out = Take(Q, Ev.n) /\ Ev.perr = (IF Len(Q) >= Ev.n THEN "" ELSE End) /\ To(s)
  \/ Is("PeekRune") /\ <<Ev.r, Ev.n>> = Rune(Q) /\ To(s)
  \/ Is("ConsumeN") /\ Go(Ev.n)
  \* gone is what Peek returned just before
  \/ Is("Consume") /\ Prefix(Ev.gone, Q) /\ (Ev.gone = <<>> => Q = <<>>)
       /\ IF Ev.gone = <<>> THEN To([s EXCEPT !.err = Report(@, End)]) ELSE Go(Len(Ev.gone))
  \/ Is("Consume1") /\ IF Q = <<>> THEN To([s EXCEPT !.err = Report(@, "short")])
                       ELSE IF Q[1] # Ev.b THEN To(Advance(In, End, [s EXCEPT !.err = Report(@, "expect")], 1))
                       ELSE Go(1)
  \/ Is("ReportError") /\ To([s EXCEPT !.err = Report(@, Ev.new)])
  \/ Is("SetBuffer") /\ To(s)
  \/ Is("AnyExcept") /\ ByteOp(Not(SetOf(Ev.stop)))
  \/ Is("Space") /\ ByteOp(AsciiSpace)
  \/ Is("UnicodeSpace") /\ RuneOp(RuneRun(Q, WhiteSpace, {}))
  \/ Is("UnicodeRange") /\ RuneOp(RuneRun(Q, SetOf(Ev.inc), {}))
  \/ Is("UnicodeRanges") /\ RuneOp(RuneRun(Q, IF Ev.inc = <<>> THEN {0} ELSE SetOf(Ev.inc), SetOf(Ev.exc)))
  \/ Is("Number") /\
       IF s.err # "" THEN Ev.out = <<48>> /\ To(s)
       ELSE LET num == Number(Ev.kind, Q) IN
            IF num.over  \* how much of it is consumed is left open
            THEN Ev.out = <<48>> /\ Ev.err \notin {"", "EOF"} /\ Ev.last /\ s' = [s EXCEPT !.err = Ev.err]
            ELSE Ev.out = num.text /\ Go(num.n)
TraceNext == New \/ (on /\ Op /\ UNCHANGED on)
TraceInit == /\ c \in 1..NCases /\ l = 1 /\ on = FALSE /\ s = [pos |-> 0, err |-> ""]
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == Mark(c, l)
=============================================================================
