------------------------------ MODULE GlsImpl ------------------------------
(* How the storage is implemented: the goroutine id selects a shard; a shard  *)
(* is a table from ids to heap maps, guarded by a lock; boxes and maps live    *)
(* in a heap and are reached by reference.  Wrapping copies the parent's map   *)
(* and its boxes, starting copies them again.  Refines Gls.                    *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS G, K, V, W, Shards, Bug, MaxHeap, MaxBox
VARIABLES heap,   \* sequence of maps [K -> <<0,0>>, <<1,n>>, <<2,box>>]
          box,    \* sequence of contents
          shard,  \* [0..Shards-1 -> partial function id -> heap reference], here a set of <<id, ref>>
          lock,   \* [0..Shards-1 -> holder or 0]
          wr,     \* [W -> heap reference of the snapshot, 0 unused]
          run, pc \* pc[g]: what g is in the middle of
ivars == <<heap, box, shard, lock, wr, run, pc>>
IDLE == <<"idle">>
NIL == <<0, 0>>
S(g) == g % Shards
Ref(g) == IF \E p \in shard[S(g)] : p[1] = g THEN (CHOOSE p \in shard[S(g)] : p[1] = g)[2] ELSE 0
EmptyMap == [k \in K |-> NIL]

\* copy a map and its boxes: new heap, new boxes
BoxKeys(m) == {k \in K : m[k][1] = 2}
RECURSIVE CopyBoxes(_, _, _)
CopyBoxes(m, b, ks) == IF ks = {} THEN <<m, b>>
  ELSE LET k == CHOOSE x \in ks : TRUE
           b2 == IF Bug = "shallow" THEN b ELSE Append(b, b[m[k][2]])
           m2 == IF Bug = "shallow" THEN m ELSE [m EXCEPT ![k] = <<2, Len(b2)>>]
       IN CopyBoxes(m2, b2, ks \ {k})

Init == /\ heap = <<>> /\ box = <<>> /\ shard = [s \in 0..(Shards - 1) |-> {}] /\ lock = [s \in 0..(Shards - 1) |-> 0]
        /\ wr = [w \in W |-> 0] /\ run = [g \in G |-> "new"] /\ pc = [g \in G |-> IDLE]
Plain(g) == run[g] = "new" /\ pc[g] = IDLE /\ run' = [run EXCEPT ![g] = "run"] /\ UNCHANGED <<heap, box, shard, lock, wr, pc>>
\* WithGls: look up the parent's map under the lock, copy it
Wrap(g, w, empty) == /\ run[g] = "run" /\ pc[g] = IDLE /\ wr[w] = 0 /\ lock[S(g)] = 0
  /\ LET src == IF empty \/ Ref(g) = 0 THEN EmptyMap ELSE heap[Ref(g)]
         r == CopyBoxes(src, box, BoxKeys(src))
     IN heap' = Append(heap, r[1]) /\ box' = r[2] /\ wr' = [wr EXCEPT ![w] = Len(heap) + 1]
  /\ UNCHANGED <<shard, lock, run, pc>>
\* start: copy the snapshot, then put it in the table under the lock (two steps)
Start1(g, w) ==
  /\ run[g] = "new" /\ wr[w] # 0 /\ pc[g] = IDLE
  /\ LET r == CopyBoxes(heap[wr[w]], box, BoxKeys(heap[wr[w]])) IN
       IF Bug = "shared" THEN pc' = [pc EXCEPT ![g] = <<"put", wr[w]>>] /\ UNCHANGED <<heap, box>>
       ELSE heap' = Append(heap, r[1]) /\ box' = r[2] /\ pc' = [pc EXCEPT ![g] = <<"put", Len(heap) + 1>>]
  /\ UNCHANGED <<shard, lock, wr, run>>
Put(g) == /\ pc[g][1] = "put" /\ lock[S(g)] = 0
          /\ shard' = [shard EXCEPT ![S(g)] = {p \in @ : p[1] # g} \cup {<<g, pc[g][2]>>}]
          /\ pc' = [pc EXCEPT ![g] = IDLE] /\ run' = [run EXCEPT ![g] = "run"]
          /\ UNCHANGED <<heap, box, lock, wr>>
\* Set: look up (one step), store into the map (another step)
Set1(g, k, v) == /\ run[g] = "run" /\ pc[g] = IDLE /\ lock[S(g)] = 0 /\ Ref(g) # 0
                 /\ pc' = [pc EXCEPT ![g] = <<"set", Ref(g), k, v>>] /\ UNCHANGED <<heap, box, shard, lock, wr, run>>
Set2(g) == /\ pc[g][1] = "set"
           /\ LET k == pc[g][3] v == pc[g][4] IN
                IF v[1] = 1 THEN heap' = [heap EXCEPT ![pc[g][2]][k] = v] /\ box' = box
                ELSE heap' = [heap EXCEPT ![pc[g][2]][k] = <<2, Len(box) + 1>>] /\ box' = Append(box, v[2])
           /\ pc' = [pc EXCEPT ![g] = IDLE] /\ UNCHANGED <<shard, lock, wr, run>>
Mutate(g, k, n) == /\ run[g] = "run" /\ pc[g] = IDLE /\ Ref(g) # 0 /\ heap[Ref(g)][k][1] = 2
                   /\ box' = [box EXCEPT ![heap[Ref(g)][k][2]] = n] /\ UNCHANGED <<heap, shard, lock, wr, run, pc>>
End(g) == /\ run[g] = "run" /\ pc[g] = IDLE /\ lock[S(g)] = 0
          /\ shard' = IF Bug = "leak" THEN shard ELSE [shard EXCEPT ![S(g)] = {p \in @ : p[1] # g}]
          /\ run' = [run EXCEPT ![g] = "done"] /\ UNCHANGED <<heap, box, lock, wr, pc>>
Values == {<<1, v>> : v \in V} \cup {<<2, v>> : v \in V}
Next == \E g \in G :
  \/ Plain(g) \/ Put(g) \/ Set2(g) \/ End(g)
  \/ \E w \in W : Start1(g, w) \/ \E e \in BOOLEAN : Wrap(g, w, e)
  \/ \E k \in K : \E v \in Values : Set1(g, k, v)
  \/ \E k \in K : \E n \in V : Mutate(g, k, n)
Spec == Init /\ [][Next]_ivars

Deref(m) == [k \in K |-> IF m[k][1] = 2 THEN <<2, box[m[k][2]]>> ELSE m[k]]
absSt == [g \in G |-> IF Ref(g) = 0 \/ run[g] = "new" THEN <<>> ELSE Deref(heap[Ref(g)])]
absSnap == [w \in W |-> IF wr[w] = 0 THEN <<>> ELSE Deref(heap[wr[w]])]
A == INSTANCE Gls WITH st <- absSt, snap <- absSnap, run <- run, ghost <- absSt
Refines == A!Spec
Bound == Len(heap) <= MaxHeap /\ Len(box) <= MaxBox
=============================================================================
