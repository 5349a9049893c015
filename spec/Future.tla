-------------------------------- MODULE Future --------------------------------
(* lager::promise and lager::future used from several threads.               *)
(*                                                                           *)
(* prog[t] is the list of the operations of thread t, on promises that exist  *)
(* from the start (1..NP):                                                   *)
(*   <<"ful", p>>               fulfils promise p                            *)
(*   <<"then", f, c>>           future f, then(callback c)                   *)
(*   <<"thn", f, c1, c2>>       then(callback c1).then(callback c2)          *)
(*   <<"also", f, g, c>>        f also g, then(callback c)                   *)
(*   <<"thf", f, c, g, c2>>     then(callback c that returns g), then(c2)    *)
(* Every promise is fulfilled once and every future used at most once.       *)
(* Meanwhile thread 0 runs the event loop.                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Progs, Size
VARIABLES pr,   \* promises: [done, cb, p]
          q,    \* the queue of the event loop
          ran,  \* callbacks run by the loop, in order
          pc,   \* position of each thread
          mid,  \* future made by the first half of a chain
          prog
vars == <<pr, q, ran, pc, mid, prog>>

NP == 3
Free == [done |-> FALSE, cb |-> <<>>, p |-> 0]

\* --- the programs: operations on three promises, distributed over threads
Uses == << \* how the futures are used
  <<<<"then", 1, 1>>, <<"then", 2, 2>>, <<"then", 3, 3>>>>,
  <<<<"thn", 1, 1, 2>>, <<"then", 2, 3>>>>,
  <<<<"also", 1, 2, 1>>, <<"then", 3, 2>>>>,
  <<<<"thf", 1, 1, 2, 2>>, <<"then", 3, 3>>>>,
  <<<<"thf", 1, 1, 2, 2>>, <<"thn", 3, 3, 4>>>>,
  <<<<"also", 1, 2, 1>>, <<"thn", 3, 2, 3>>>>,
  <<<<"thn", 1, 1, 2>>, <<"thn", 2, 3, 4>>>>
>>
Fulfils == << \* in which threads the promises are fulfilled (0: the first)
  <<<<1, 2, 3>>, <<>>>>, <<<<1>>, <<2, 3>>>>, <<<<3, 2, 1>>, <<>>>>, <<<<2>>, <<3, 1>>>>
>>
F(s) == [i \in 1..Len(s) |-> <<"ful", s[i]>>]
\* a program: threads 1, 2 fulfil; the uses are in thread 3, or shared with 1
ProgOf(u, f, m) ==
  CASE m = 1 -> <<F(Fulfils[f][1]), F(Fulfils[f][2]), Uses[u]>>
    [] m = 2 -> <<F(Fulfils[f][1]) , F(Fulfils[f][2]), <<Uses[u][1]>>, Tail(Uses[u])>>
    [] m = 3 -> <<<<Uses[u][1]>> \o F(Fulfils[f][1]), F(Fulfils[f][2]) \o Tail(Uses[u])>>

Init == /\ \E u \in Progs : \E f \in 1..Len(Fulfils) : \E m \in 1..Size :
             prog = TLCEval(ProgOf(u, f, m))
        /\ pr = [i \in 1..NP |-> Free]
        /\ q = <<>> /\ ran = <<>>
        /\ pc = [t \in 1..Len(prog) |-> 1]
        /\ mid = [t \in 1..Len(prog) |-> 0]

\* then(): returns [pr, q, f]
ThenS(s, f, cb) ==
  LET n == Len(s.pr) + 1
      s1 == [s EXCEPT !.pr = Append(@, Free), !.f = n]
  IN IF s.pr[f].done THEN [s1 EXCEPT !.q = Append(@, <<cb, n>>)]
     ELSE [s1 EXCEPT !.pr[f].cb = cb, !.pr[f].p = n]
FulS(s, p) ==
  LET s1 == [s EXCEPT !.pr[p] = [done |-> TRUE, cb |-> <<>>, p |-> 0]] IN
  IF s.pr[p].cb # <<>> THEN [s1 EXCEPT !.q = Append(@, <<s.pr[p].cb, s.pr[p].p>>)] ELSE s1
Now == [pr |-> pr, q |-> q, f |-> 0]
Set(s) == pr' = s.pr /\ q' = s.q

Cb1(o) == IF o[1] = "then" THEN <<"c", o[3], 0>>
          ELSE IF o[1] = "thn" THEN <<"c", o[3], 0>>
          ELSE IF o[1] = "also" THEN <<"f", 0, o[3]>>
          ELSE <<"c", o[3], o[4]>>
Two(o) == o[1] \in {"thn", "also", "thf"}
Cb2(o) == IF o[1] = "thf" THEN <<"c", o[5], 0>> ELSE <<"c", o[4], 0>>

Thread(t) ==
  /\ pc[t] <= Len(prog[t])
  /\ LET o == prog[t][pc[t]] IN
     IF o[1] = "ful"
     THEN Set(FulS(Now, o[2])) /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED mid
     ELSE IF mid[t] = 0
     THEN LET s == ThenS(Now, o[2], Cb1(o)) IN
          /\ Set(s)
          /\ IF Two(o) THEN mid' = [mid EXCEPT ![t] = s.f] /\ UNCHANGED pc
             ELSE pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED mid
     ELSE /\ Set(ThenS(Now, mid[t], Cb2(o)))
          /\ mid' = [mid EXCEPT ![t] = 0]
          /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<ran, prog>>

\* the loop runs a callback: <<"c", id, future to return>>, <<"f", 0, future>>
\* or <<"p", promise>>, which fulfils the promise
Loop ==
  /\ q # <<>>
  /\ LET cb == Head(q)[1]
         p == Head(q)[2]
         s == [Now EXCEPT !.q = Tail(q)]
     IN /\ ran' = IF cb[1] = "c" THEN Append(ran, cb[2]) ELSE ran
        /\ Set(IF cb[1] = "p" THEN FulS(FulS(s, cb[2]), p)
               ELSE IF cb[3] = 0 THEN FulS(s, p)
               ELSE ThenS(s, cb[3], <<"p", p>>))
  /\ UNCHANGED <<pc, mid, prog>>

Threads == \E t \in 1..Len(prog) : Thread(t)
Next == Threads \/ Loop
Fair == /\ \A t \in 1..4 : WF_vars(t \in 1..Len(prog) /\ Thread(t))
        /\ WF_vars(Loop)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

AllPc == \A t \in 1..Len(prog) : pc[t] > Len(prog[t])
Over == AllPc /\ q = <<>>
Callbacks == UNION {UNION {LET o == prog[t][i] IN
    CASE o[1] = "ful" -> {} [] o[1] = "then" -> {o[3]} [] o[1] = "thn" -> {o[3], o[4]}
      [] o[1] = "also" -> {o[4]} [] o[1] = "thf" -> {o[3], o[5]}
    : i \in 1..Len(prog[t])} : t \in 1..Len(prog)}
ToSet(s) == {s[i] : i \in 1..Len(s)}
\* every callback runs once
InvOnce == Len(ran) = Cardinality(ToSet(ran))
InvAll == Over => ToSet(ran) = Callbacks
\* and after what it waits for
Ran(c) == c \in ToSet(ran)
InvAfter == \A t \in 1..Len(prog) : \A i \in 1..Len(prog[t]) : LET o == prog[t][i] IN
  CASE o[1] = "ful" -> TRUE
    [] o[1] = "then" -> Ran(o[3]) => pr[o[2]].done
    [] o[1] = "thn" -> (Ran(o[3]) => pr[o[2]].done) /\ (Ran(o[4]) => Ran(o[3]))
    [] o[1] = "also" -> Ran(o[4]) => pr[o[2]].done /\ pr[o[3]].done
    [] o[1] = "thf" -> (Ran(o[3]) => pr[o[2]].done) /\ (Ran(o[5]) => Ran(o[3]) /\ pr[o[4]].done)
\* a callback is only ever held by a future that is not complete
InvHeld == \A i \in 1..Len(pr) : pr[i].done => pr[i].cb = <<>>
\* whatever the schedule, everything completes
Live == <>(Over /\ ToSet(ran) = Callbacks)

\* the outcomes that are possible: what conformance is checked against
Emit == (AllPc /\ q' = <<>> /\ Len(q) = 1 /\ ~ENABLED Threads)
        => PrintT("B" \o ToJson([p |-> prog, r |-> ran']))
=============================================================================
