------------------------------ MODULE Rolling ------------------------------
(* A rolling log file.  Contents are sequences of writes.  A rotation is two  *)
(* steps (the file is renamed, a new one is created), compression is three    *)
(* (the gzip file is begun, completed, the original is removed); a crash can  *)
(* come between any two steps, and the next logger continues from there.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

\* ---------------------------------------------------------------- rules shared by the model and the traces
\* must a file of this size be rotated before a write of this length?
NeedsRotation(size, len, max, opening) == IF opening THEN size + len >= max ELSE size + len > max
\* retention: baks is a set of records with a total order "newer first" given by (t, i);
\* maxAge is in the unit of t, 0 = no limit
Newer(a, b) == a.t > b.t \/ (a.t = b.t /\ a.i > b.i)
NewestN(baks, n) == {b \in baks : Cardinality({a \in baks : Newer(a, b)}) < n}
YoungerThan(baks, maxAge, now) == {b \in baks : b.t >= now - maxAge}
Retained(baks, maxBackups, maxAge, now) ==
  LET byCount == IF maxBackups > 0 THEN NewestN(baks, maxBackups) ELSE baks
  IN IF maxAge > 0 THEN YoungerThan(byCount, maxAge, now) ELSE byCount

\* ---------------------------------------------------------------- the design
CONSTANTS Lens, MaxSize, MaxBackups, MaxAge, Compress, MaxWrites, MaxCrashes, Gran
NONE == <<-1>>
PARTIAL == <<-2>>
VARIABLES now,      \* the clock
          cur,      \* content of the current file, NONE if there is none
          open,     \* a logger has it open
          todo,     \* the operation in progress: <<>> or <<"rotate", len>> or <<"create", len>> or <<"write", len>>
          baks,     \* set of [t, i, plain, gz, seq] ; seq is the order of rotation (ghost)
          acc,      \* lengths accepted so far, in order (ghost); NONE-free
          mill,     \* "idle", or the sets still to be removed and compressed
          kick,     \* a run of the mill is requested
          nrot, crashes
vars == <<now, cur, open, todo, baks, acc, mill, kick, nrot, crashes>>
IdleMill == [on |-> FALSE, rm |-> {}, zip |-> {}]

Size(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Content(b) == IF b.plain # NONE THEN b.plain ELSE b.gz
Init == /\ now = 10 /\ cur = NONE /\ open = FALSE /\ todo = <<>> /\ baks = {} /\ acc = <<>>
        /\ mill = IdleMill /\ kick = FALSE /\ nrot = 0 /\ crashes = 0

Write(n) == /\ todo = <<>> /\ Len(acc) < MaxWrites /\ n <= MaxSize
            /\ IF ~open /\ cur = NONE THEN todo' = <<"create", n>> /\ open' = TRUE
               ELSE IF NeedsRotation(Size(cur), n, MaxSize, ~open) THEN todo' = <<"rotate", n>> /\ open' = TRUE
               ELSE todo' = <<"write", n>> /\ open' = TRUE
            /\ kick' = (kick \/ ~open)
            /\ UNCHANGED <<now, cur, baks, acc, mill, nrot, crashes>>
Rotate == /\ todo = <<>> /\ nrot < MaxWrites
          /\ todo' = (IF cur = NONE THEN <<"create", 0>> ELSE <<"rotate", 0>>) /\ open' = TRUE
          /\ UNCHANGED <<now, cur, baks, acc, mill, kick, nrot, crashes>>
Rename == /\ todo # <<>> /\ todo[1] = "rotate"
          /\ LET t == now \div Gran
                 same == {b \in baks : b.t = t}
                 i == IF same = {} THEN 0 ELSE 1 + CHOOSE x \in {b.i : b \in same} : \A y \in {b.i : b \in same} : x >= y
             IN baks' = baks \cup {[t |-> t, i |-> i, plain |-> cur, gz |-> NONE, seq |-> nrot + 1]}
          /\ nrot' = nrot + 1 /\ cur' = NONE /\ todo' = <<"create", todo[2]>>
          /\ UNCHANGED <<now, open, acc, mill, kick, crashes>>
Create == /\ todo # <<>> /\ todo[1] = "create"
          /\ cur' = <<>> /\ todo' = (IF todo[2] = 0 THEN <<>> ELSE <<"write", todo[2]>>) /\ kick' = TRUE
          /\ UNCHANGED <<now, open, baks, acc, mill, nrot, crashes>>
Append1 == /\ todo # <<>> /\ todo[1] = "write"
           /\ cur' = Append(cur, todo[2]) /\ acc' = Append(acc, todo[2]) /\ todo' = <<>>
           /\ UNCHANGED <<now, open, baks, mill, kick, nrot, crashes>>
CloseOp == /\ todo = <<>> /\ open /\ open' = FALSE
           /\ UNCHANGED <<now, cur, todo, baks, acc, mill, kick, nrot, crashes>>
Tick == now < 12 /\ now' = now + 1 /\ UNCHANGED <<cur, open, todo, baks, acc, mill, kick, nrot, crashes>>

\* the mill
Keep == Retained(baks, MaxBackups, MaxAge, now \div Gran)
MillStart == /\ kick /\ ~mill.on /\ kick' = FALSE
             /\ mill' = [on |-> TRUE, rm |-> {b.seq : b \in baks \ Keep},
                         zip |-> IF Compress THEN {b.seq : b \in {x \in Keep : x.plain # NONE}} ELSE {}]
             /\ UNCHANGED <<now, cur, open, todo, baks, acc, nrot, crashes>>
MillRemove(b) == /\ mill.on /\ b.seq \in mill.rm
                 /\ baks' = baks \ {b} /\ mill' = [mill EXCEPT !.rm = @ \ {b.seq}]
                 /\ UNCHANGED <<now, cur, open, todo, acc, kick, nrot, crashes>>
ZipBegin(b) == /\ mill.on /\ mill.rm = {} /\ b.seq \in mill.zip /\ b.plain # NONE /\ b.gz = NONE
               /\ baks' = (baks \ {b}) \cup {[b EXCEPT !.gz = PARTIAL]}
               /\ UNCHANGED <<now, cur, open, todo, acc, mill, kick, nrot, crashes>>
ZipEnd(b) == /\ mill.on /\ mill.rm = {} /\ b.seq \in mill.zip /\ b.gz = PARTIAL
             /\ baks' = (baks \ {b}) \cup {[b EXCEPT !.gz = b.plain]}
             /\ UNCHANGED <<now, cur, open, todo, acc, mill, kick, nrot, crashes>>
ZipDone(b) == /\ mill.on /\ mill.rm = {} /\ b.seq \in mill.zip /\ b.gz \notin {NONE, PARTIAL}
              /\ baks' = (baks \ {b}) \cup {[b EXCEPT !.plain = NONE]} /\ mill' = [mill EXCEPT !.zip = @ \ {b.seq}]
              /\ UNCHANGED <<now, cur, open, todo, acc, kick, nrot, crashes>>
MillEnd == /\ mill.on /\ mill.rm = {} /\ mill.zip = {} /\ mill' = IdleMill
           /\ UNCHANGED <<now, cur, open, todo, baks, acc, kick, nrot, crashes>>
Redo(b) == /\ mill.on /\ mill.rm = {} /\ b.seq \in mill.zip /\ b.plain # NONE /\ b.gz \notin {NONE, PARTIAL}
           /\ baks' = (baks \ {b}) \cup {[b EXCEPT !.gz = PARTIAL]}
           /\ UNCHANGED <<now, cur, open, todo, acc, mill, kick, nrot, crashes>>
\* a crash: the process is gone, the files are as they are (a completed gzip whose original is still there is
\* redone like a partial one)
Crash == /\ crashes < MaxCrashes /\ crashes' = crashes + 1
         /\ open' = FALSE /\ todo' = <<>> /\ mill' = IdleMill /\ kick' = FALSE
         /\ UNCHANGED <<now, cur, baks, acc, nrot>>
Logger == Rename \/ Create \/ Append1
Mill == MillStart \/ MillEnd \/ \E b \in baks : MillRemove(b) \/ ZipBegin(b) \/ ZipEnd(b) \/ ZipDone(b) \/ Redo(b)
Next == \/ \E n \in Lens : Write(n)
        \/ Rotate \/ CloseOp \/ Tick \/ Crash \/ Logger \/ Mill
Spec == Init /\ [][Next]_vars /\ WF_vars(Logger) /\ WF_vars(Mill)

Ordered(S) == SetToSortSeq(S, LAMBDA a, b : a.seq < b.seq)
All == FoldLeft(LAMBDA a, b : a \o Content(b), <<>>, Ordered(baks)) \o (IF cur = NONE THEN <<>> ELSE cur)
Unlimited == MaxBackups = 0 /\ MaxAge = 0
NoLoss == Unlimited => All = acc
\* with limits, what is there is a suffix of what was accepted, and every file is intact
Suffix == (~mill.on /\ crashes = 0) => \E k \in 0..Len(acc) : All = SubSeq(acc, k + 1, Len(acc))
Intact == \A b \in baks : b.plain # NONE \/ b.gz \notin {NONE, PARTIAL}
NoFileTooBig == (cur = NONE \/ Size(cur) <= MaxSize) /\ \A b \in baks : Size(Content(b)) <= MaxSize
\* rotation order, time stamps and names agree
NamesOrdered == \A a, b \in baks : a.seq > b.seq => Newer(a, b)
\* the mill never removes what the rule keeps
RemoveRight == [][\A b \in baks : (\A x \in baks' : x.seq # b.seq) => b \notin Retained(baks, MaxBackups, MaxAge, now \div Gran)]_vars
\* when the mill has nothing to do, the rule holds (as of the last request)
Settled == (~mill.on /\ ~kick /\ nrot > 0 /\ crashes = 0 /\ todo = <<>> /\ MaxBackups > 0) => Cardinality(baks) <= MaxBackups
Zipped == (Compress => \A s \in 1..MaxWrites : (\E b \in baks : b.seq = s /\ b.plain # NONE) ~> ((\A b \in baks : b.seq = s => b.plain = NONE) \/ (crashes > 0)))
=============================================================================
