------------------------------- MODULE GlsGen -------------------------------
(* Scripts for three goroutines: every order of wrapping, setting, mutating,  *)
(* starting and ending of a given length.  Goroutine 1 runs plain.            *)
EXTENDS Naturals, Sequences, Json, IOUtils, TLC
CONSTANTS MaxOps
VARIABLES hist, run, wr, st
Gs == 1..3
gv == <<hist, run, wr, st>>
Op(r) == hist' = Append(hist, r)
\* st: "off", or "nil", "plain", "box" for the one key
Init == hist = <<>> /\ run = [g \in Gs |-> IF g = 1 THEN "run" ELSE "new"] /\ wr = <<>> /\ st = [g \in Gs |-> "off"]
Next == /\ Len(hist) < MaxOps
        /\ \E g \in Gs :
           \/ run[g] = "run" /\ Len(wr) < 2 /\ \E e \in BOOLEAN :
                /\ Op([op |-> "wrap", g |-> g, w |-> Len(wr) + 1, empty |-> e])
                /\ wr' = Append(wr, IF e \/ st[g] = "off" THEN "nil" ELSE st[g]) /\ UNCHANGED <<run, st>>
           \/ run[g] = "run" /\ st[g] # "off" /\ \E k \in {"plain", "box"} :
                Op([op |-> "set", g |-> g, kind |-> k]) /\ st' = [st EXCEPT ![g] = k] /\ UNCHANGED <<run, wr>>
           \/ run[g] = "run" /\ st[g] = "box" /\ Op([op |-> "mutate", g |-> g]) /\ UNCHANGED <<run, wr, st>>
           \/ run[g] = "run" /\ st[g] = "off" /\ Op([op |-> "reset", g |-> g]) /\ st' = [st EXCEPT ![g] = "plain"] /\ UNCHANGED <<run, wr>>
           \/ run[g] = "new" /\ (g = 3 => run[2] # "new") /\ \E w \in 1..Len(wr) :
                Op([op |-> "start", g |-> g, w |-> w]) /\ run' = [run EXCEPT ![g] = "run"] /\ st' = [st EXCEPT ![g] = wr[w]] /\ UNCHANGED wr
           \/ run[g] = "run" /\ g # 1 /\ \E h \in {"return", "panic", "goexit"} :
                Op([op |-> "end", g |-> g, how |-> h]) /\ run' = [run EXCEPT ![g] = "done"] /\ st' = [st EXCEPT ![g] = "off"] /\ UNCHANGED wr
Spec == Init /\ [][Next]_gv
Complete == Len(hist) = MaxOps /\ (\E g \in 2..3 : run[g] # "new")
Emit == ~Complete \/ Serialize(ToJson(hist) \o "\n", IOEnv.GEN,
          [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
=============================================================================
