----------------------------- MODULE Counter -----------------------------
(* Counters as their users see them: events are counted, exports deliver   *)
(* points.  A key is a counter together with one combination of the values *)
(* of its dimensions.                                                      *)
EXTENDS Naturals, Sequences, TLC
VARIABLES begun,  \* per key: events whose counting was called
          ended,  \* per key: events whose counting has returned
          out,    \* per key: sum of the values exported
          call,   \* per goroutine: the key it is counting, or <<>>
          ex      \* per export: [st |-> "idle"/"run"/"done"/"broken", s |-> counter, must |-> ended when it was called]
cvars == <<begun, ended, out, call, ex>>

At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Plus(f, k, n) == (k :> (At(f, k) + n)) @@ f

CCall(g, k) == /\ call[g] = <<>> /\ call' = [call EXCEPT ![g] = k]
               /\ begun' = Plus(begun, k, 1) /\ UNCHANGED <<ended, out, ex>>
CRet(g) == /\ call[g] # <<>> /\ call' = [call EXCEPT ![g] = <<>>]
           /\ ended' = Plus(ended, call[g], 1) /\ UNCHANGED <<begun, out, ex>>
ECall(x, s) == /\ ex[x].st = "idle" /\ ex' = [ex EXCEPT ![x] = [st |-> "run", s |-> s, must |-> ended]]
               /\ UNCHANGED <<begun, ended, out, call>>
\* a point never tells of more events than there were, and belongs to the counter that is exported
Point(x, s, k, v) == /\ ex[x].st = "run" /\ ex[x].s = s
                     /\ v \in Nat /\ At(out, k) + v <= At(begun, k)
                     /\ out' = Plus(out, k, v) /\ UNCHANGED <<begun, ended, call, ex>>
\* whatever was counted before the export was called has been exported when it returns
Delivered(x, ks) == \A k \in ks : At(ex[x].must, k) <= At(out, k)
ERet(x, ks) == /\ ex[x].st = "run" /\ Delivered(x, ks)
               /\ ex' = [ex EXCEPT ![x].st = "done"] /\ UNCHANGED <<begun, ended, out, call>>
\* the collector failed; what was not delivered remains for the next export
EFail(x) == /\ ex[x].st = "run"
            /\ ex' = [ex EXCEPT ![x].st = "broken"] /\ UNCHANGED <<begun, ended, out, call>>

NeverMore == \A k \in DOMAIN out : out[k] <= At(begun, k)
=============================================================================
