---------------------------- MODULE ClosingTrace ----------------------------
EXTENDS Closing, TraceKit
VARIABLES given, c, l   \* the properties a caller gave
tvars == <<call, given, c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ l' = l + 1 /\ c' = c
Gs == 1..Trace[c].par.gs
Pairs(p) == {<<p[2 * i - 1], p[2 * i]>> : i \in 1..(Len(p) \div 2)}
ErrKey == "string err"
Odd == Len(given[Ev.g]) % 2 = 1
Step ==
  \/ Is("Begin") /\ Begin(Ev.g, Ev.list) /\ given' = [given EXCEPT ![Ev.g] = Ev.props]
  \/ Is("Closed") /\ CloseNext(Ev.g, Ev.r, Ev.err) /\ UNCHANGED given
  \* properties that do not pair up leave open what is logged
  \/ Is("Logged") /\ Ev.lv >= 50 /\ ~Odd /\ LogOne(Ev.g, Ev.err) /\ Ev.at
       /\ Pairs(given[Ev.g]) \subseteq Pairs(Ev.props) /\ <<ErrKey, Ev.text>> \in Pairs(Ev.props) /\ UNCHANGED given
  \/ Is("Logged") /\ Ev.lv >= 50 /\ Odd /\ UNCHANGED <<call, given>>
  \* a note that everything was closed
  \/ Is("Logged") /\ Ev.lv < 50 /\ call[Ev.g].st = "run" /\ call[Ev.g].todo = <<>> /\ call[Ev.g].errs = <<>>
       /\ (Odd \/ Pairs(given[Ev.g]) = Pairs(Ev.props)) /\ UNCHANGED <<call, given>>
  \/ Is("Ret") /\ (IF Odd THEN call[Ev.g].st = "run" /\ call[Ev.g].todo = <<>> /\ Ev.errs = call[Ev.g].errs /\ call' = [call EXCEPT ![Ev.g] = Idle]
                  ELSE Return(Ev.g, Ev.errs))
     /\ Ev.nil = (Ev.errs = <<>>) /\ Ev.kept /\ UNCHANGED given
  \/ Is("Merged") /\ Ev.out = Failures(Ev.in) /\ Ev.nil = (Ev.out = <<>>) /\ Ev.kept /\ UNCHANGED <<call, given>>
TraceInit == c \in 1..NCases /\ l = 1 /\ call = [g \in 1..Trace[c].par.gs |-> Idle] /\ given = [g \in 1..Trace[c].par.gs |-> <<>>]
TraceSpec == TraceInit /\ [][Step]_tvars
Progress == Mark(c, l)
=============================================================================
