----------------------------- MODULE MCDispatch -----------------------------
(* The rules, for all levels, minima and functions.                           *)
EXTENDS Dispatch, TLC
CONSTANTS Levels
VARIABLES fn, lv, agg, failed
mvars == <<dvars, fn, lv, agg, failed>>
Fns == (DOMAIN Plain) \cup (DOMAIN Calls) \cup {"Log"}
Init == /\ fn \in Fns /\ agg \in BOOLEAN /\ failed \in (IF IsCall(fn) THEN BOOLEAN ELSE {FALSE}) /\ lv \in (IF fn = "Log" THEN Levels ELSE {0})
        /\ min \in Levels /\ props = [x \in 1..3 |-> <<>>] /\ sup \in [1..3 -> {0, 30}] /\ coll \in BOOLEAN
Next == /\ UNCHANGED <<fn, lv, agg, failed>>
        /\ \/ \E m \in Levels : SetMin(m)
           \/ \E x \in 1..3 : \E m \in {0, 30} : Suppress(x, m)
Spec == Init /\ [][Next]_mvars
Out(x) == Output(fn, lv, failed, agg, x)
ErrorsAlways == (failed \/ fn \in {"Warn", "Error", "Fatal"}) => \A x \in 0..3 : Out(x)
Threshold == (~failed /\ ~IsCall(fn) /\ ~agg /\ fn \notin {"Warn", "Error", "Fatal"}) => (Out(0) <=> LevelOf(fn, lv, failed) >= min)
CallThreshold == (IsCall(fn) /\ ~failed) => (Out(0) <=> LevelOf(fn, lv, failed) >= min + 5)
ContextSame == \A x \in 1..3 : sup[x] = 0 => (Out(x) <=> Out(0))
LogSame == fn = "Log" => \A f \in {"Trace", "Debug", "Info"} : lv = Plain[f] => (Out(0) <=> Output(f, 0, FALSE, agg, 0))
Never == LevelOf(fn, lv, failed) < min => (Out(0) => LevelOf(fn, lv, failed) >= WarnLv)
\* whatever is output and can be counted is counted
CountsAll == \A x \in 0..3 : (Out(x) /\ (agg \/ IsCall(fn))) => Counted(fn, lv, failed, agg, x)
\* raising the minimum never makes more events appear
Monotone == [][min' > min => (Out(0)' => Out(0))]_mvars
=============================================================================
