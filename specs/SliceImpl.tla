----------------------------- MODULE SliceImpl -----------------------------
(* What the fast implementation does with headers and memory, next to what   *)
(* Go does: the same slices over the same arrays after every operation, and  *)
(* no write outside of an array.                                             *)
EXTENDS GoSlice, Integers, FiniteSets
CONSTANTS MaxArrs, MaxLen, Steps
VARIABLES mem, hdr, n, wild
vars == <<arrs, sl, mem, hdr, n, wild>>
RECURSIVE Doubled(_, _)
Doubled(c, want) == IF c >= want THEN c ELSE Doubled(IF c < 1024 THEN c + c ELSE c + c \div 4, want)
NewCap(c, want) == IF c = 0 THEN want ELSE Doubled(c, want)
Poke(m, s, i, t) == IF s.off + i + 1 \in DOMAIN m[s.arr] THEN [m EXCEPT ![s.arr][s.off + i + 1] = t] ELSE m
IsWild(m, s, i) == s.arr \notin DOMAIN m \/ s.off + i + 1 \notin DOMAIN m[s.arr]
\* unsafe grow: result [mem, h]
GrowImpl(m, s, k) ==
  IF k <= s.cap THEN [mem |-> m, h |-> [s EXCEPT !.len = k]]
  ELSE LET c == NewCap(s.cap, k)
           block == [i \in 1..c |-> IF i <= s.len THEN m[s.arr][s.off + i] ELSE 0]
       IN [mem |-> Append(m, block), h |-> [nil |-> FALSE, arr |-> Len(m) + 1, off |-> 0, len |-> k, cap |-> c]]
Init == /\ arrs = <<<<0, 1, 0, 1, 0, 1>>>> /\ mem = arrs /\ n = 0 /\ wild = FALSE
        /\ \E o \in 0..2, k \in 0..2, x \in 0..2 : o + k + x <= 6
             /\ sl = [v \in {1, 2} |-> IF v = 1 THEN (IF k + x = 0 THEN EmptySlice ELSE [nil |-> FALSE, arr |-> 1, off |-> o, len |-> k, cap |-> k + x]) ELSE NilSlice]
        /\ hdr = sl
Room(v) == Len(arrs) < MaxArrs \/ sl[v].len < sl[v].cap
DoAppend(v, t) == LET g == GrowImpl(mem, hdr[v], hdr[v].len + 1) IN
                  /\ Room(v) /\ sl[v].len < MaxLen
                  /\ hdr' = [hdr EXCEPT ![v] = g.h] /\ mem' = Poke(g.mem, g.h, hdr[v].len, t)
                  /\ wild' = (wild \/ IsWild(g.mem, g.h, hdr[v].len))
                  /\ AppendAll(v, <<t>>, g.h.cap)
DoGrow(v, k) == LET g == GrowImpl(mem, hdr[v], k) IN
                /\ k <= sl[v].cap \/ Len(arrs) < MaxArrs
                /\ hdr' = [hdr EXCEPT ![v] = g.h] /\ mem' = g.mem /\ UNCHANGED wild /\ Grow(v, k, g.h.cap)
DoSetIndex(v, i, t) == /\ hdr' = hdr /\ mem' = Poke(mem, hdr[v], i, t) /\ wild' = (wild \/ IsWild(mem, hdr[v], i)) /\ SetIndex(v, i, t)
DoAssign(v, w) == hdr' = [hdr EXCEPT ![v] = hdr[w]] /\ UNCHANGED <<mem, wild>> /\ Assign(v, w)
DoMake(v, k, c) == /\ Len(arrs) < MaxArrs \/ c = 0
                   /\ IF c = 0 THEN hdr' = [hdr EXCEPT ![v] = EmptySlice] /\ mem' = mem
                      ELSE hdr' = [hdr EXCEPT ![v] = [nil |-> FALSE, arr |-> Len(mem) + 1, off |-> 0, len |-> k, cap |-> c]] /\ mem' = Append(mem, Zeros(c))
                   /\ UNCHANGED wild /\ Make(v, k, c)
DoSetNil(v) == hdr' = [hdr EXCEPT ![v] = NilSlice] /\ UNCHANGED <<mem, wild>> /\ SetNil(v)
Next == n < Steps /\ n' = n + 1 /\ \E v, w \in {1, 2} :
          \/ \E t \in {1, 2} : w = v /\ DoAppend(v, t)
          \/ sl[w].len > 0 /\ DoAppend(v, At(sl[w], 0))
          \/ w = v /\ \E k \in 0..MaxLen : DoGrow(v, k)
          \/ w = v /\ \E i \in 0..(sl[v].len - 1) : sl[v].len > 0 /\ DoSetIndex(v, i, 2)
          \/ v # w /\ DoAssign(v, w)
          \/ w = v /\ \E k \in 0..1, x \in 0..1 : DoMake(v, k, k + x)
          \/ w = v /\ DoSetNil(v)
Spec == Init /\ [][Next]_vars
Same == hdr = sl /\ mem = arrs /\ ~wild
=============================================================================
