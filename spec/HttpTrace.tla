------------------------------ MODULE HttpTrace ------------------------------
(* Validates what clients of the HTTP interface of the debugger saw while the *)
(* program went on: every answer is that of one of the states that the       *)
(* debugger had between the request and the answer, and no client goes back   *)
(* in time.                                                                  *)
(* A trace has the states s of the debugger, in order ([h |-> the actions,    *)
(* c |-> cursor, p |-> paused]; s[1] is the first one), and events:           *)
(*  sb, se   the program starts and ends a step of its loop                  *)
(*  pub k    it sees the state s[k]                                          *)
(*  gb t     client t sends a request                                        *)
(*  ga t     it gets the answer of /api, n steps, cursor c, paused p         *)
(*  gs t     it gets the answer of /api/step/n: r |-> an error, or the model v *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)
VARIABLES tr, i, M
vars == <<tr, i, M>>
MonInit == [done |-> 1, pub |-> 1, in |-> FALSE, bad |-> "",
            b |-> [t \in 1..4 |-> 1], last |-> [t \in 1..4 |-> 1]]
Init == tr \in 1..Len(Traces) /\ i = 1 /\ M = MonInit
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

H == Traces[tr].h
States == Traces[tr].s
\* the last state of the step that is being made
Latest == IF ~M.in THEN M.pub
          ELSE LET ends == {j \in i..Len(H) : H[j].e = "se"}
                   end == IF ends = {} THEN Len(H) ELSE Min(ends)
               IN Max({M.pub} \cup {H[j].k : j \in {j \in i..end : H[j].e = "pub"}})
Answers(s, e) ==
  IF e.e = "ga" THEN Len(s.h) = e.n /\ s.c = e.c /\ s.p = e.p
  ELSE IF e.n > Len(s.h) THEN e.r ELSE ~e.r /\ e.v = SubSeq(s.h, 1, e.n)
MonStep(e) ==
  CASE e.e = "sb" -> [M EXCEPT !.in = TRUE]
    [] e.e = "se" -> [M EXCEPT !.in = FALSE, !.done = M.pub]
    [] e.e = "pub" -> IF e.k = M.pub + 1 THEN [M EXCEPT !.pub = e.k]
                      ELSE [M EXCEPT !.bad = "harness: pub"]
    [] e.e = "gb" -> [M EXCEPT !.b[e.t] = M.done]
    [] e.e \in {"ga", "gs"} ->
         LET from == Max({M.b[e.t], M.last[e.t]})
             ok == {j \in from..Latest : Answers(States[j], e)}
         IN IF ok # {} THEN [M EXCEPT !.last[e.t] = Min(ok)]
            ELSE IF \E j \in 1..Len(States) : Answers(States[j], e)
            THEN [M EXCEPT !.bad = "the answer is not that of a state of that time"]
            ELSE [M EXCEPT !.bad = "the answer is not that of any state"]
Next == /\ i <= Len(H)
        /\ M.bad = ""
        /\ M' = MonStep(H[i])
        /\ i' = i + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Emit == \/ i' <= Len(H) /\ M'.bad = ""
        \/ M'.bad # "" /\ PrintT("N" \o ToJson([t |-> tr, i |-> i, w |-> M'.bad]))
        \/ M'.bad = "" /\ PrintT("A" \o ToJson([t |-> tr]))
=============================================================================
