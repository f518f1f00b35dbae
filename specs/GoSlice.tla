------------------------------ MODULE GoSlice ------------------------------
(* Slices as Go has them: variables sl that refer to arrays, of which parts  *)
(* may be shared.  What one operation of reflect2 does to them is what the   *)
(* Go expression does.                                                       *)
EXTENDS Naturals, Sequences
VARIABLES arrs,   \* the arrays: sequences of values; value 0 is the zero value
          sl      \* per variable: [nil, arr, off, len, cap]
NilSlice == [nil |-> TRUE, arr |-> 0, off |-> 0, len |-> 0, cap |-> 0]
EmptySlice == [NilSlice EXCEPT !.nil = FALSE]
Zeros(n) == [i \in 1..n |-> 0]
At(s, i) == arrs[s.arr][s.off + i + 1]
Elems(s) == [i \in 1..s.len |-> arrs[s.arr][s.off + i]]
Over(a, n) == IF n = 0 THEN EmptySlice ELSE [nil |-> FALSE, arr |-> a, off |-> 0, len |-> n, cap |-> n]
Write(s, i, t) == [arrs EXCEPT ![s.arr][s.off + i + 1] = t]
Max(a, b) == IF a > b THEN a ELSE b

New(v) == sl' = [sl EXCEPT ![v] = NilSlice] /\ UNCHANGED arrs
SetNil(v) == New(v)
Make(v, n, c) == IF c = 0 THEN sl' = [sl EXCEPT ![v] = EmptySlice] /\ UNCHANGED arrs
                 ELSE /\ arrs' = Append(arrs, Zeros(c))
                      /\ sl' = [sl EXCEPT ![v] = [nil |-> FALSE, arr |-> Len(arrs) + 1, off |-> 0, len |-> n, cap |-> c]]
\* v = w[i:j:k]
Sub(v, w, i, j, k) == /\ sl' = [sl EXCEPT ![v] = IF k = i THEN [EmptySlice EXCEPT !.nil = sl[w].nil]
                                                 ELSE [nil |-> FALSE, arr |-> sl[w].arr, off |-> sl[w].off + i, len |-> j - i, cap |-> k - i]]
                      /\ UNCHANGED arrs
Assign(v, w) == sl' = [sl EXCEPT ![v] = sl[w]] /\ UNCHANGED arrs
SetIndex(v, i, t) == arrs' = Write(sl[v], i, t) /\ UNCHANGED sl
\* v is given room for n elements and more, in a new array of c elements
Moved(v, n, c, add) == LET old == Elems(sl[v]) \o add IN
                       /\ arrs' = Append(arrs, old \o Zeros(c - Len(old)))
                       /\ sl' = [sl EXCEPT ![v] = [nil |-> FALSE, arr |-> Len(arrs) + 1, off |-> 0, len |-> n, cap |-> c]]
\* v = append(v, ts...) one by one; where there is no room, a new array of c elements
AppendAll(v, ts, c) ==
  LET s == sl[v]
      room == s.cap - s.len
      in == IF Len(ts) <= room THEN Len(ts) ELSE room
      inplace == IF in = 0 THEN arrs
                 ELSE [arrs EXCEPT ![s.arr] = [j \in DOMAIN @ |-> IF j > s.off + s.len /\ j <= s.off + s.len + in THEN ts[j - s.off - s.len] ELSE @[j]]]
  IN IF Len(ts) <= room THEN arrs' = inplace /\ sl' = [sl EXCEPT ![v].len = @ + Len(ts)]
     ELSE LET old == Elems(s) \o ts IN
          /\ c >= Len(old)
          /\ arrs' = Append(inplace, old \o Zeros(c - Len(old)))
          /\ sl' = [sl EXCEPT ![v] = [nil |-> FALSE, arr |-> Len(arrs) + 1, off |-> 0, len |-> Len(old), cap |-> c]]
\* n elements: what is there is kept, what comes new with another array is zero
Grow(v, n, c) == IF n <= sl[v].cap THEN sl' = [sl EXCEPT ![v].len = n] /\ UNCHANGED arrs
                 ELSE c >= n /\ Moved(v, n, c, <<>>)
=============================================================================
