---------------------------- MODULE PrattTrace ----------------------------
(* Expressions parsed by the real parse.Parse / parse.String with a lexer    *)
(* made from the table of operators of the case.                             *)
EXTENDS Pratt, TraceKit
VARIABLES c, l
tvars == <<c, l>>
Ev == Evs(c)[l]
Has == l <= Len(Evs(c))
Is(e) == Has /\ Ev.e = e /\ l' = l + 1 /\ c' = c
P == Trace[c].par
Tok == P.tok
T == [infix |-> [v \in {P.infix[i].v : i \in DOMAIN P.infix} |-> LET x == CHOOSE y \in {P.infix[i] : i \in DOMAIN P.infix} : y.v = v IN x],
      prefix |-> [v \in {P.prefix[i].v : i \in DOMAIN P.prefix} |-> LET x == CHOOSE y \in {P.prefix[i] : i \in DOMAIN P.prefix} : y.v = v IN x.pow]]
\* the bytes from token i on; what precedes it (spaces) is consumed
Left(i) == IF i > Len(Tok) THEN <<>> ELSE SubSeq(P.text, Tok[i].at + 1, Len(P.text))
Result ==
  LET r == Algo(T, Tok, 1, Ev.p) IN
  IF ~r.ok THEN Ev.err = "error"
  ELSE IF Ev.err = "error" THEN FALSE
  ELSE LET n == Len(Yield(Ev.tree)) IN
       /\ n <= Len(Tok) /\ Yield(Ev.tree) = [i \in 1..n |-> Tok[i].v]
       /\ Right(T, Tok, Ev.tree, n + 1, Ev.p)
       /\ Ev.tree = r.t
       /\ IF Ev.how = "String" THEN Ev.err = ""
          ELSE Ev.rest = Left(n + 1) /\ Ev.err = (IF n = Len(Tok) THEN "EOF" ELSE "")
TraceNext == Is("Parsed") /\ Result
TraceInit == c \in 1..NCases /\ l = 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Progress == Mark(c, l)
=============================================================================
