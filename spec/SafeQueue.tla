------------------------------ MODULE SafeQueue ------------------------------
(* The algorithm of the thread-safe queue at the granularity of its lock: a  *)
(* local queue of the owner and a shared one.  Every interleaving of the     *)
(* threads is explored, and what is observable is given to the monitor that  *)
(* also judges the traces of the implementation.                            *)
EXTENDS LoopMonitor
CONSTANTS Threads,  \* number of other threads
          Posts,    \* posts of each
          Steps,    \* steps of the owner
          Body      \* what functions do: "none", "post", "throw", "mix"
VARIABLES M, local, shared, pc, n, owner, uid
vars == <<M, local, shared, pc, n, owner, uid>>

Ts == 1..Threads
See(e) == M' = MonStep(M, e)
Init == /\ M = MonInit /\ local = <<>> /\ shared = <<>>
        /\ pc = [t \in Ts |-> 0] /\ n = [t \in Ts |-> 0]
        /\ owner = [at |-> "out", steps |-> 0, second |-> FALSE, k |-> 0]
        /\ uid = 0
\* the numbers of the posts of a thread, chosen when they start
PB(t) == /\ pc[t] = 0 /\ n[t] < Posts
         /\ uid' = uid + 1
         /\ See([e |-> "pb", t |-> t, k |-> uid + 1])
         /\ pc' = [pc EXCEPT ![t] = uid + 1]
         /\ n' = [n EXCEPT ![t] = @ + 1]
         /\ UNCHANGED <<local, shared, owner>>
K(t) == pc[t]
Lock(t) == /\ pc[t] # 0
           /\ shared' = Append(shared, K(t))
           /\ See([e |-> "pe", t |-> t, k |-> K(t)])
           /\ pc' = [pc EXCEPT ![t] = 0]
           /\ UNCHANGED <<local, n, owner, uid>>
\* the owner
Begin == /\ owner.at = "out" /\ owner.steps < Steps
         /\ See([e |-> "sb", k |-> 0])
         /\ owner' = [owner EXCEPT !.at = "in", !.second = FALSE, !.steps = @ + 1]
         /\ UNCHANGED <<local, shared, pc, n, uid>>
What(k) == IF Body = "mix" THEN IF k % 3 = 0 THEN "throw" ELSE IF k % 3 = 1 THEN "post" ELSE "none"
           ELSE Body
RunOne == /\ owner.at = "in" /\ local # <<>>
          /\ See([e |-> "r", t |-> 0, k |-> Head(local)])
          /\ owner' = [owner EXCEPT !.at = What(Head(local)), !.k = Head(local)]
          /\ local' = Tail(local)
          /\ UNCHANGED <<shared, pc, n, uid>>
OverOne == /\ owner.at = "none"
           /\ See([e |-> "re", k |-> owner.k])
           /\ owner' = [owner EXCEPT !.at = "in"]
           /\ UNCHANGED <<local, shared, pc, n, uid>>
\* a function posts (functions posted by functions do nothing)
PostOne == /\ owner.at = "post"
           /\ \/ /\ uid >= Threads * Posts + 2
                 /\ UNCHANGED <<M, local, uid>>
              \/ /\ uid < Threads * Posts + 2
                 /\ uid' = uid + 1 /\ local' = Append(local, uid + 1)
                 /\ M' = MonStep(MonStep(M, [e |-> "pb", t |-> 0, k |-> uid + 1]),
                                 [e |-> "pe", t |-> 0, k |-> uid + 1])
           /\ owner' = [owner EXCEPT !.at = "none"]
           /\ UNCHANGED <<shared, pc, n>>
ThrowOne == /\ owner.at = "throw"
            /\ See([e |-> "se", x |-> owner.k])
            /\ owner' = [owner EXCEPT !.at = "out"]
            /\ UNCHANGED <<local, shared, pc, n, uid>>
Swap == /\ owner.at = "in" /\ local = <<>> /\ ~owner.second
        /\ local' = shared /\ shared' = <<>>
        /\ owner' = [owner EXCEPT !.second = TRUE]
        /\ UNCHANGED <<M, pc, n, uid>>
End == /\ owner.at = "in" /\ local = <<>> /\ owner.second
       /\ See([e |-> "se", x |-> 0])
       /\ owner' = [owner EXCEPT !.at = "out"]
       /\ UNCHANGED <<local, shared, pc, n, uid>>
Next == \/ \E t \in Ts : PB(t) \/ Lock(t)
        \/ Begin \/ RunOne \/ OverOne \/ PostOne \/ ThrowOne \/ Swap \/ End
Spec == Init /\ [][Next]_vars
InvGood == M.bad = ""
\* what is posted is run or queued
InvKept == M.done = (M.ran \cap M.done) \cup Range(local) \cup Range(shared)
=============================================================================
