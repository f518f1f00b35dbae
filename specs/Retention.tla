----------------------------- MODULE Retention -----------------------------
(* What a directory looks like after the mill of a rolling log file ran.      *)
(* A backup is [id, t, i, form, m]: t its time in minutes, i its rank among   *)
(* those of the same time, form how it is stored (plain, gz, both, bothpart,  *)
(* badgz, gzdir, big, fifo: the compressed file is a pipe the driver reads,   *)
(* new: made by a rotation of the logger under test), m its content.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
LOCAL R == INSTANCE Rolling WITH Lens <- {}, MaxSize <- 0, MaxBackups <- 0, MaxAge <- 0, Compress <- FALSE, MaxWrites <- 0, MaxCrashes <- 0, Gran <- 1,
       now <- 0, cur <- <<>>, open <- FALSE, todo <- <<>>, baks <- {}, acc <- <<>>, mill <- <<>>, kick <- FALSE, nrot <- 0, crashes <- 0
\* p: [backups (sequence), maxBackups, maxAge (days), compress, now, fault]
Kept(p) == R!Retained({p.backups[i] : i \in 1..Len(p.backups)}, p.maxBackups, p.maxAge * 1440, p.now)
\* the files a backup consists of
Stored(b) == IF b.form \in {"plain", "gzdir", "big", "new"} THEN {<<"plain", b.m>>}
             ELSE IF b.form = "fifo" THEN {<<"plain", b.m>>, <<"fifo", b.m>>}
             ELSE IF b.form = "gz" THEN {<<"gz", b.m>>}
             ELSE IF b.form = "both" THEN {<<"plain", b.m>>, <<"gz", b.m>>}
             ELSE IF b.form = "bothpart" THEN {<<"plain", b.m>>, <<"bad", b.m>>}
             ELSE {<<"bad", b.m>>}
Zipped(b, fault) == IF b.form \in {"plain", "both", "bothpart", "fifo", "new"} THEN {<<"gz", b.m>>}
                    ELSE IF b.form = "big" THEN (IF fault THEN {<<"plain", b.m>>} ELSE {<<"gz", b.m>>})
                    ELSE Stored(b)
After(p) == UNION {IF p.compress THEN Zipped(b, p.fault) ELSE Stored(b) : b \in Kept(p)}
=============================================================================
