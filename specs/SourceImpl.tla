----------------------------- MODULE SourceImpl -----------------------------
(* parse.Source as it is built: the current chunk, the chunks read ahead,    *)
(* and a reader; readers loop over chunks. All inputs over Alphabet up to    *)
(* MaxLen, all ways of cutting them into chunks (empty ones too), with the   *)
(* end reported together with the last chunk or after it. Checked: it does   *)
(* what Source says, whatever the chunks. Values of numbers are in the trace *)
(* specification; here a number is a run of digits.                          *)
EXTENDS Source
CONSTANTS Alphabet, MaxLen, MaxN, MaxZero
VARIABLES in, end, cuts, with, kind,   \* what is given
          i,                           \* the implementation: [cur, next, got, reads, err]
          s,                           \* the specification
          ok                           \* the last operation returned the same in both
vars == <<in, end, cuts, with, kind, i, s, ok>>

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Inputs == UNION {[1..n -> Alphabet] : n \in 1..MaxLen}
Cuts(n) == {q \in UNION {[1..m -> 0..n] : m \in 1..(n + MaxZero)} :
              Sum(q) = n /\ q[1] > 0 /\ q[Len(q)] > 0 /\ Cardinality({k \in DOMAIN q : q[k] = 0}) <= MaxZero}

\* what the next Read returns: [n, err]
Read(m) == IF kind = "string" \/ m.got = Len(in) THEN [n |-> 0, err |-> end]
           ELSE LET n == cuts[m.reads + 1] IN [n |-> n, err |-> IF with /\ m.got + n = Len(in) THEN end ELSE ""]
After(m, r) == [m EXCEPT !.got = @ + r.n, !.reads = MinN(@ + 1, Len(cuts))]
Chunk(m, r) == SubSeq(in, m.got + 1, m.got + r.n)
Rep(m, e) == [m EXCEPT !.err = Report(@, e)]

RECURSIVE DoConsume(_), DoConsumeN(_, _), Ahead(_, _, _)
DoConsume(m) == IF kind = "string" THEN Rep([m EXCEPT !.cur = <<>>], end)
                ELSE IF m.next # <<>> THEN [m EXCEPT !.cur = Head(m.next), !.next = Tail(m.next)]
                ELSE LET r == Read(m)
                         m2 == [After(m, r) EXCEPT !.cur = Chunk(m, r)]
                     IN IF r.n > 0 THEN m2 ELSE IF r.err # "" THEN Rep(m2, r.err) ELSE DoConsume(m2)
DoConsumeN(m, n) == IF n # 0 /\ n >= Len(m.cur)
                    THEN LET m2 == DoConsume(m) IN IF m2.err # "" /\ m2.cur = <<>> THEN m2 ELSE DoConsumeN(m2, n - Len(m.cur))
                    ELSE [m EXCEPT !.cur = SubSeq(@, n + 1, Len(@))]
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
\* reads on until n bytes are there: <<state, bytes, error>>
Ahead(m, have, n) == LET r == Read(m)
                         m2 == After(m, r)
                         m3 == IF r.n > 0 THEN [m2 EXCEPT !.next = Append(@, Chunk(m, r))] ELSE m2
                         all == have \o Chunk(m, r)
                     IN IF Len(all) >= n THEN <<m3, Take(all, n), "">> ELSE IF r.err # "" THEN <<m3, all, r.err>> ELSE Ahead(m3, all, n)
DoPeekN(m, n) == IF n <= Len(m.cur) THEN <<m, Take(m.cur, n), "">>
                 ELSE IF kind = "string" THEN <<m, m.cur, end>>
                 ELSE LET all == m.cur \o Concat(m.next) IN IF Len(all) >= n THEN <<m, Take(all, n), "">> ELSE Ahead(m, all, n)
\* the table of utf8.go: how many bytes to look at
Want(b) == IF b \in 194..223 THEN 2 ELSE IF b \in 224..239 THEN 3 ELSE IF b \in 240..244 THEN 4 ELSE 1
DoPeekRune(m) == IF m.cur = <<>> THEN <<m, <<Bad, 0>>>>
                 ELSE LET p == DoPeekN(m, Want(m.cur[1])) IN <<p[1], Rune(p[2])>>
RECURSIVE DoRun(_, _, _), DoRunes(_, _, _)
DoRun(m, belongs, out) ==
  IF m.err # "" THEN <<m, out>>
  ELSE LET n == ByteRun(m.cur, 1, belongs) IN
       IF n < Len(m.cur) THEN <<DoConsumeN(m, n), out \o Take(m.cur, n)>> ELSE DoRun(DoConsume(m), belongs, out \o m.cur)
DoRunes(m, set, out) ==
  IF m.err # "" THEN <<m, out>>
  ELSE LET p == DoPeekRune(m) IN
       IF p[2][1] \in set THEN DoRunes(DoConsumeN(p[1], p[2][2]), set, Append(out, p[2][1])) ELSE <<p[1], out>>
DoConsume1(m, b) == IF m.cur = <<>> THEN Rep(m, "short") ELSE DoConsumeN(IF m.cur[1] # b THEN Rep(m, "expect") ELSE m, 1)

Init == /\ in \in {<<>>} \cup Inputs /\ end \in {"EOF", "boom"} /\ kind \in {"string", "reader"} /\ with \in BOOLEAN
        /\ (kind = "string" => end = "EOF" /\ ~with) /\ (kind = "reader" => in # <<>>)
        /\ cuts \in (IF kind = "string" THEN {<<>>} ELSE Cuts(Len(in)))
        /\ i = (IF kind = "string" THEN [cur |-> in, next |-> <<>>, got |-> Len(in), reads |-> 0, err |-> IF in = <<>> THEN end ELSE ""]
                ELSE [cur |-> Take(in, cuts[1]), next |-> <<>>, got |-> cuts[1], reads |-> 1, err |-> ""])
        /\ s = Start(in, end) /\ ok = TRUE
Q == Rest(in, s)
Same == UNCHANGED <<in, end, cuts, with, kind>>
Step == \/ \E n \in 0..MaxN : i' = DoConsumeN(i, n) /\ s' = Advance(in, end, s, n) /\ ok' = TRUE
        \/ i' = DoConsume(i) /\ ok' = (Len(i.cur) <= Len(Q) /\ i.cur = Take(Q, Len(i.cur)) /\ (i.cur = <<>> => Q = <<>>))
             /\ s' = (IF i.cur = <<>> THEN [s EXCEPT !.err = Report(@, end)] ELSE Advance(in, end, s, Len(i.cur)))
        \/ \E n \in 0..MaxN : LET p == DoPeekN(i, n) IN
             i' = p[1] /\ s' = s /\ ok' = (p[2] = Take(Q, n) /\ p[3] = (IF Len(Q) >= n THEN "" ELSE end))
        \/ LET p == DoPeekRune(i) IN i' = p[1] /\ s' = s /\ ok' = (p[2] = Rune(Q))
        \/ \E b \in Alphabet : i' = DoConsume1(i, b) /\ ok' = TRUE
             /\ s' = (IF Q = <<>> THEN [s EXCEPT !.err = Report(@, "short")]
                      ELSE IF Q[1] # b THEN Advance(in, end, [s EXCEPT !.err = Report(@, "expect")], 1) ELSE Advance(in, end, s, 1))
        \/ \E x \in Alphabet : LET p == DoRun(i, {x}, <<>>)
                                   n == RunN(s, ByteRun(Q, 1, {x}))
                               IN i' = p[1] /\ s' = Advance(in, end, s, n) /\ ok' = (p[2] = Take(Q, n))
        \/ \E x \in {Bad, 160, 49} : LET p == DoRunes(i, {x}, <<>>)
                                         run == RuneRun(Q, {x}, {})
                                         n == RunN(s, run.n)
                                     IN i' = p[1] /\ s' = Advance(in, end, s, n) /\ ok' = (p[2] = (IF n = 0 THEN <<>> ELSE run.runes))
Next == Same /\ Step
Spec == Init /\ [][Next]_vars
SameResult == ok
\* what was delivered and not consumed, and what is still to come, is the rest; the errors are the same
SameRest == i.cur \o Concat(i.next) \o SubSeq(in, i.got + 1, Len(in)) = Q /\ i.err = s.err
\* there is something to look at unless everything was consumed, and then it is reported
NeverBlind == (i.cur = <<>> => Q = <<>>) /\ (Q = <<>> => i.err # "")
=============================================================================
