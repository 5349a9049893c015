------------------------------ MODULE LoopTrace ------------------------------
(* Validates traces recorded from the implementation with LoopMonitor.       *)
EXTENDS LoopMonitor, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, i, M
vars == <<tr, i, M>>
Init == tr \in 1..Len(Traces) /\ i = 1 /\ M = MonInit
Next == /\ i <= Len(Traces[tr].h)
        /\ M.bad = ""
        /\ M' = MonStep(M, Traces[tr].h[i])
        /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
\* accepted traces, and the reasons why others are not
Emit == \/ i' <= Len(Traces[tr].h) /\ M'.bad = ""
        \/ M'.bad # "" /\ PrintT("N" \o ToJson([t |-> tr, i |-> i, w |-> M'.bad]))
        \/ M'.bad = "" /\ PrintT("A" \o ToJson([t |-> tr]))
=============================================================================
