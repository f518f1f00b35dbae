------------------------------- MODULE Source -------------------------------
(* What a parse.Source is, whatever way its input arrives: a byte string, a  *)
(* position in it, and an error. A state is [pos, err]; the input and what   *)
(* comes after its last byte ("EOF", or "boom": the reader fails) are given. *)
(* Every operation has a result and a next state; none of them sees chunks.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Rest(in, s) == SubSeq(in, s.pos + 1, Len(in))
MinN(a, b) == IF a < b THEN a ELSE b
Take(q, n) == SubSeq(q, 1, MinN(n, Len(q)))

\* the first error stays; that everything was consumed is no failure and gives way to one
Report(old, new) == IF old = "" \/ (old = "EOF" /\ new # "EOF") THEN new ELSE old
Start(in, end) == [pos |-> 0, err |-> IF in = <<>> THEN end ELSE ""]
\* n > 0 bytes further, or as far as there is something; the end is reported as soon as nothing is left
Advance(in, end, s, n) ==
  IF n = 0 THEN s
  ELSE LET p == MinN(s.pos + n, Len(in))
       IN [pos |-> p, err |-> IF p = Len(in) THEN Report(s.err, end) ELSE s.err]

(* -------- UTF-8 -------- *)
Cont(b) == b \in 128..191
Bad == 65533
Rune(q) == \* the first character of q and the number of its bytes
  IF q = <<>> THEN <<Bad, 0>>
  ELSE LET b == q[1] IN
       IF b < 128 THEN <<b, 1>>
       ELSE IF b \in 194..223 /\ Len(q) >= 2 /\ Cont(q[2]) THEN <<((b - 192) * 64) + (q[2] - 128), 2>>
       ELSE IF b \in 224..239 /\ Len(q) >= 3 /\ q[2] \in (IF b = 224 THEN 160 ELSE 128)..(IF b = 237 THEN 159 ELSE 191) /\ Cont(q[3])
            THEN <<((b - 224) * 4096) + ((q[2] - 128) * 64) + (q[3] - 128), 3>>
       ELSE IF b \in 240..244 /\ Len(q) >= 4 /\ q[2] \in (IF b = 240 THEN 144 ELSE 128)..(IF b = 244 THEN 143 ELSE 191) /\ Cont(q[3]) /\ Cont(q[4])
            THEN <<((b - 240) * 262144) + ((q[2] - 128) * 4096) + ((q[3] - 128) * 64) + (q[4] - 128), 4>>
       ELSE <<Bad, 1>>
WhiteSpace == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
AsciiSpace == {9, 10, 11, 12, 13, 32}
Digits == 48..57

(* -------- runs -------- *)
RECURSIVE ByteRun(_, _, _)
\* how many bytes of q from place i on belong: in set, or not in set
ByteRun(q, i, belongs) == IF i > Len(q) THEN 0 ELSE IF q[i] \in belongs THEN 1 + ByteRun(q, i + 1, belongs) ELSE 0
RECURSIVE RuneRun(_, _, _)
\* the characters q starts with that are in inc (or inc = {0}, standing for all) and not in exc, with their bytes
RuneRun(q, inc, exc) ==
  IF q = <<>> THEN [runes |-> <<>>, n |-> 0]
  ELSE LET r == Rune(q) IN
       IF r[1] \in exc \/ (inc # {0} /\ r[1] \notin inc) THEN [runes |-> <<>>, n |-> 0]
       ELSE LET more == RuneRun(SubSeq(q, r[2] + 1, Len(q)), inc, exc)
            IN [runes |-> <<r[1]>> \o more.runes, n |-> r[2] + more.n]

(* -------- numbers, as sequences of digits without leading zeros -------- *)
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == i <= Len(a) /\ (a[i] < b[i] \/ (a[i] = b[i] /\ LexLess(a, b, i + 1)))
More(a, b) == Len(a) > Len(b) \/ (Len(a) = Len(b) /\ LexLess(b, a, 1))
Max(kind, neg) == \* 18446744073709551615, 9223372036854775807, 2147483647
  CASE kind = "uint64" -> <<49,56,52,52,54,55,52,52,48,55,51,55,48,57,53,53,49,54,49,53>>
    [] kind = "int64" /\ ~neg -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,55>>
    [] kind = "int64" /\ neg -> <<57,50,50,51,51,55,50,48,51,54,56,53,52,55,55,53,56,48,56>>
    [] kind = "int32" /\ ~neg -> <<50,49,52,55,52,56,51,54,52,55>>
    [] kind = "int32" /\ neg -> <<50,49,52,55,52,56,51,54,52,56>>
\* the number q starts with: [neg, n bytes, digits, over]; no digit at all is zero
Number(kind, q) ==
  LET neg == kind # "uint64" /\ q # <<>> /\ q[1] = 45
      from == IF neg THEN 2 ELSE 1
      n == ByteRun(q, from, Digits)
      d == Strip(SubSeq(q, from, from + n - 1))
  IN [neg |-> neg, n |-> n + from - 1, over |-> More(d, Max(kind, neg)),
      text |-> (IF neg /\ d # <<>> THEN <<45>> ELSE <<>>) \o (IF d = <<>> THEN <<48>> ELSE d)]

(* -------- the operations -------- *)
\* what is read of a run of bytes, only when no error was reported before
RunN(s, n) == IF s.err # "" THEN 0 ELSE n
Not(stop) == (0..255) \ stop
=============================================================================
