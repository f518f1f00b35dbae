--------------------------- MODULE RollingTrace ---------------------------
(* Recorded operations on a real rolling log file; every event carries the    *)
(* directory as it is after the operation.                                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TraceKit
R == INSTANCE Rolling WITH Lens <- {}, MaxSize <- 0, MaxBackups <- 0, MaxAge <- 0, Compress <- FALSE, MaxWrites <- 0, MaxCrashes <- 0, Gran <- 1,
       now <- 0, cur <- <<>>, open <- FALSE, todo <- <<>>, baks <- {}, acc <- <<>>, mill <- <<>>, kick <- FALSE, nrot <- 0, crashes <- 0
VARIABLES c, l, cur, isOpen, baks
tvars == <<c, l, cur, isOpen, baks>>
P == Trace[c].par
Ev == Evs(c)[l]
Is(e) == l <= Len(Evs(c)) /\ Ev.e = e /\ l' = l + 1 /\ c' = c
NOFILE == <<-1>>
max == P.max

\* the directory shows exactly these backups and this current file
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Seen(d) == [i \in 1..Len(d) |-> <<SubSeq(d[i].ts, 1, P.tslen), d[i].m>>]
Shows(d, cu, bs) ==
  /\ d.cur = cu
  /\ Len(d.baks) = Len(bs)
  /\ LET s == Seen(d.baks) IN \A i \in 1..Len(bs) : Count(s, bs[i]) = Count(bs, bs[i])
  /\ d.other = P.other
Next(cu, op, bs) == cur' = cu /\ isOpen' = op /\ baks' = bs /\ Shows(Ev.dir, cu, bs)
Rotated == IF cur = NOFILE THEN baks ELSE Append(baks, <<Ev.ts, cur>>)
Body == IF cur = NOFILE THEN <<>> ELSE cur

Write == /\ Is("Write")
         /\ IF Len(Ev.m) > max
            THEN Ev.n = 0 /\ Ev.err /\ Next(cur, isOpen, baks)
            ELSE /\ Ev.n = Len(Ev.m) /\ ~Ev.err
                 /\ IF cur # NOFILE /\ R!NeedsRotation(Len(cur), Len(Ev.m), max, ~isOpen)
                    THEN Next(Ev.m, TRUE, Rotated)
                    ELSE Next(Body \o Ev.m, TRUE, baks)
Rotate == Is("Rotate") /\ ~Ev.err /\ Next(<<>>, TRUE, Rotated)
Close == Is("Close") /\ ~Ev.err /\ Next(cur, FALSE, baks)
\* the process died (nothing in progress) and a new logger was made
Restart == Is("Restart") /\ Next(cur, FALSE, baks)
\* it died in the middle of a rotation: after the rename, or after the new file was created
Died == Is("Died") /\ cur # NOFILE /\ Next(IF Ev.how = "renamed" THEN NOFILE ELSE <<>>, FALSE, Rotated)

\* several goroutines wrote at the same time into an empty directory; files are given in the order of their times
RECURSIVE Decode(_, _)
Decode(s, msgs) == \* the numbers of the messages s consists of, or <<0>> if it does not consist of whole messages
  IF s = <<>> THEN <<>>
  ELSE LET m == IF s[1] \in 1..Len(msgs) THEN msgs[s[1]] ELSE <<>> IN
       IF m = <<>> \/ Len(s) < Len(m) \/ SubSeq(s, 1, Len(m)) # m THEN <<0>>
       ELSE <<s[1]>> \o Decode(SubSeq(s, Len(m) + 1, Len(s)), msgs)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Conc == /\ Is("Conc") /\ UNCHANGED <<cur, isOpen, baks>>
        /\ LET files == Append([i \in 1..Len(Ev.dir.baks) |-> Ev.dir.baks[i].m], Ev.dir.cur)
               dec == [i \in 1..Len(files) |-> Decode(files[i], Ev.msgs)]
               all == Flat(dec)
           IN /\ \A i \in 1..Len(files) : Len(files[i]) <= max /\ dec[i] # <<>>
              /\ Len(all) = Len(Ev.msgs) /\ \A k \in 1..Len(Ev.msgs) : Count(all, k) = 1
              \* rotated only when the next write would not fit
              /\ \A i \in 1..(Len(files) - 1) : Len(files[i]) + Len(Ev.msgs[dec[i + 1][1]]) > max
              \* messages of one goroutine (consecutive numbers of one group) are in order
              /\ \A i, j \in 1..Len(all) : (i < j /\ Ev.grp[all[i]] = Ev.grp[all[j]]) => all[i] < all[j]
              /\ ~Ev.err
TraceInit == c \in 1..NCases /\ l = 1 /\ cur = Trace[c].par.init /\ isOpen = FALSE /\ baks = <<>>
TraceSpec == TraceInit /\ [][Write \/ Rotate \/ Close \/ Restart \/ Died \/ Conc]_tvars
Progress == Mark(c, l)
=============================================================================
