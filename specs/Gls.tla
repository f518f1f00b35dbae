------------------------------- MODULE Gls -------------------------------
(* Goroutine local storage.  st[g] is what goroutine g sees: OFF or a         *)
(* function from keys to values.  A value is <<kind, n>>: 1 plain, 2 a        *)
(* copiable box with content n (private to the storage holding it).  A        *)
(* wrapped function w carries the snapshot taken when it was wrapped.         *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS G, K, V, W
VARIABLES st,    \* [G -> OFF or [K -> value or NIL]]
          snap,  \* [W -> UNUSED or a map]
          run,   \* [G -> "new", "run", "done"]
          ghost  \* [G -> the map g must see, from its own history only]
gvars == <<st, snap, run, ghost>>
OFF == <<>>   \* K is not empty, so no map equals it
UNUSED == <<>>
NIL == <<0, 0>>
Empty == [k \in K |-> NIL]
View(m) == IF m = OFF THEN Empty ELSE m

Init == /\ st = [g \in G |-> OFF] /\ snap = [w \in W |-> UNUSED]
        /\ run = [g \in G |-> "new"] /\ ghost = [g \in G |-> OFF]
Plain(g) == run[g] = "new" /\ run' = [run EXCEPT ![g] = "run"] /\ UNCHANGED <<st, snap, ghost>>
Start(g, w) == /\ run[g] = "new" /\ snap[w] # UNUSED
               /\ run' = [run EXCEPT ![g] = "run"]
               /\ st' = [st EXCEPT ![g] = snap[w]] /\ ghost' = [ghost EXCEPT ![g] = snap[w]]
               /\ UNCHANGED snap
Wrap(g, w, empty) == /\ run[g] = "run" /\ snap[w] = UNUSED
                     /\ snap' = [snap EXCEPT ![w] = IF empty THEN Empty ELSE View(st[g])]
                     /\ UNCHANGED <<st, run, ghost>>
Set(g, k, v) == /\ run[g] = "run" /\ st[g] # OFF
                /\ st' = [st EXCEPT ![g][k] = v] /\ ghost' = [ghost EXCEPT ![g][k] = v] /\ UNCHANGED <<snap, run>>
Mutate(g, k, n) == /\ run[g] = "run" /\ st[g] # OFF /\ st[g][k][1] = 2
                   /\ st' = [st EXCEPT ![g][k] = <<2, n>>] /\ ghost' = [ghost EXCEPT ![g][k] = <<2, n>>] /\ UNCHANGED <<snap, run>>
Reset(g, m) == /\ run[g] = "run"
               /\ st' = [st EXCEPT ![g] = m] /\ ghost' = [ghost EXCEPT ![g] = m] /\ UNCHANGED <<snap, run>>
Delete(g) == run[g] = "run" /\ st' = [st EXCEPT ![g] = OFF] /\ ghost' = [ghost EXCEPT ![g] = OFF] /\ UNCHANGED <<snap, run>>
End(g) == /\ run[g] = "run" /\ run' = [run EXCEPT ![g] = "done"]
          /\ st' = [st EXCEPT ![g] = OFF] /\ ghost' = [ghost EXCEPT ![g] = OFF] /\ UNCHANGED snap
GetR(g, k) == View(st[g])[k]

Values == {<<1, v>> : v \in V} \cup {<<2, v>> : v \in V}
Next == \E g \in G :
  \/ Plain(g) \/ Delete(g) \/ End(g) \/ Reset(g, Empty)
  \/ \E w \in W : Start(g, w) \/ \E e \in BOOLEAN : Wrap(g, w, e)
  \/ \E k \in K : \E v \in Values : Set(g, k, v)
  \/ \E k \in K : \E n \in V : Mutate(g, k, n)
Spec == Init /\ [][Next]_gvars
Private == st = ghost
Gone == \A g \in G : run[g] = "done" => st[g] = OFF
SnapFixed == [][\A w \in W : snap[w] # UNUSED => snap'[w] = snap[w]]_gvars
=============================================================================
