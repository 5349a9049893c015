-------------------------------- MODULE Loops --------------------------------
(* The event loops of the library: manual, queue and thread-safe queue.      *)
(*                                                                           *)
(* A program F gives the body of each function that can be posted: a         *)
(* sequence of <<"p", j>> (posts function j), <<"t", j>> (another thread     *)
(* posts function j and is waited for), <<"x">> (throws).                    *)
(* Every post has a number of its own, i; functions in queues are [k, i, t]. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Kinds, Progs, Ops
VARIABLES S, h, P
vars == <<S, h, P>>
view == <<[S EXCEPT !.log = <<>>, !.ran = Len(@)], P, Len(h)>>

p(j) == <<"p", j>>
t(j) == <<"t", j>>
x == <<"x">>
Programs == <<
  <<<<>>, <<p(1)>>, <<x>>>>,
  <<<<>>, <<p(1), p(1)>>, <<p(1), x>>, <<x, p(1)>>>>,
  <<<<>>, <<p(1), p(4)>>, <<p(2), x>>, <<p(1)>>>>,
  <<<<x>>, <<p(1), p(3)>>, <<>>, <<p(2)>>>>,
  <<<<>>, <<x>>, <<p(2), p(1)>>, <<p(3), p(2), x>>>>,
  <<<<>>, <<p(1)>>, <<p(2)>>, <<p(3), p(1), p(2)>>>>,
  \* 7: other threads
  <<<<>>, <<t(1)>>, <<t(1), x>>, <<p(1), t(2), p(1)>>>>,
  <<<<x>>, <<t(1), p(3)>>, <<t(4)>>, <<>>>>
>>

EmptyS == [q |-> <<>>, sh |-> <<>>, run |-> FALSE, n |-> 0, ran |-> <<>>,
           ks |-> <<>>, own |-> <<>>, exc |-> 0, log |-> <<>>]

RECURSIVE Run(_, _), Body(_, _, _)
\* th: 0 the owner of the loop, 1 another thread
Post(s, pr, k, th) ==
  LET f == [k |-> k, i |-> s.n + 1, t |-> th]
      s1 == [s EXCEPT !.n = @ + 1, !.own = Append(@, th), !.ks = Append(@, k)]
  IN IF pr.kind = "safe" /\ th # 0 THEN [s1 EXCEPT !.sh = Append(@, f)]
     ELSE LET s2 == [s1 EXCEPT !.q = Append(@, f)] IN
          IF pr.kind = "manual" /\ ~s.run
          THEN [Run(pr, [s2 EXCEPT !.run = TRUE]) EXCEPT !.run = FALSE]
          ELSE s2
Body(s, pr, ops) ==
  IF ops = <<>> THEN s
  ELSE LET o == Head(ops) IN
       CASE o[1] = "x" -> [s EXCEPT !.exc = 99]
         [] o[1] = "p" -> Body(Post(s, pr, o[2], 0), pr, Tail(ops))
         [] o[1] = "t" -> Body(Post(s, pr, o[2], 1), pr, Tail(ops))
\* runs the queue until it is empty, or until a function throws
Run(pr, s) ==
  IF s.q = <<>> \/ s.exc # 0 THEN s
  ELSE LET f == Head(s.q)
           s1 == [s EXCEPT !.q = Tail(@), !.ran = Append(@, f.i), !.log = Append(@, f.k)]
           s2 == Body(s1, pr, pr.f[f.k])
       IN Run(pr, IF s2.exc = 99 THEN [s2 EXCEPT !.exc = f.k] ELSE s2)
Step(s, pr) ==
  LET s1 == Run(pr, [s EXCEPT !.run = TRUE])
      s2 == IF pr.kind # "safe" \/ s1.exc # 0 THEN s1
            ELSE Run(pr, [s1 EXCEPT !.q = s1.sh, !.sh = <<>>])
  IN [s2 EXCEPT !.run = FALSE]

Obs(s) == [c |-> s.log, x |-> s.exc]
Act(a, s) == /\ h' = Append(h, [a |-> a, o |-> Obs(s)])
             /\ S' = [s EXCEPT !.exc = 0]
             /\ P' = P
S0 == [S EXCEPT !.log = <<>>]
PostA(k) == Act([op |-> "post", k |-> k], Post(S0, P, k, 0))
TPostA(k) == P.kind = "safe" /\ Act([op |-> "tpost", k |-> k], Post(S0, P, k, 1))
StepA == P.kind # "manual" /\ Act([op |-> "step"], Step(S0, P))
HasT(f) == \E k \in 1..Len(f) : \E i \in 1..Len(f[k]) : f[k][i][1] = "t"

Init == /\ \E i \in Progs : \E k \in Kinds :
              /\ (HasT(Programs[i]) => k = "safe")
              /\ P = [kind |-> k, f |-> Programs[i]]
        /\ S = EmptyS /\ h = <<>>
Next == /\ Len(h) < MaxLen
        /\ \/ \E k \in 1..Len(P.f) : PostA(k)
           \/ "tpost" \in Ops /\ \E k \in 1..Len(P.f) : TPostA(k)
           \/ StepA
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------ random programs
R(z) == {RandomElement(z)}
RndOp(i, n, th) == LET y == RandomElement(1..9) j == RandomElement((i + 1)..n) IN
  IF y <= 2 THEN x ELSE IF th /\ y <= 4 THEN t(j) ELSE p(j)
RndBody(i, n, th) ==
  IF i = n THEN IF RandomElement(1..3) = 1 THEN <<x>> ELSE <<>>
  ELSE LET m == RandomElement(0..3) IN
       IF m = 0 THEN <<>> ELSE IF m = 1 THEN <<RndOp(i, n, th)>>
       ELSE IF m = 2 THEN <<RndOp(i, n, th), RndOp(i, n, th)>>
       ELSE <<RndOp(i, n, th), RndOp(i, n, th), RndOp(i, n, th)>>
RndProg(th) == <<RndBody(1, 6, th), RndBody(2, 6, th), RndBody(3, 6, th), RndBody(4, 6, th),
                 RndBody(5, 6, th), RndBody(6, 6, th)>>
SimGen == /\ h = <<>> /\ S = EmptyS
          /\ \E k \in R(Kinds) : \E f \in R(TLCEval({TLCEval(RndProg(k = "safe"))})) :
               P' = [kind |-> k, f |-> f]
          /\ S' = [S EXCEPT !.exc = 1] /\ UNCHANGED h
SimAct == /\ (S.exc = 1 \/ h # <<>>) /\ Len(h) < MaxLen
          /\ \E o \in R(1..5) : \E k \in R(1..6) :
               LET s == [S0 EXCEPT !.exc = 0] IN
               IF o = 1 /\ P.kind # "manual" THEN Act([op |-> "step"], Step(s, P))
               ELSE IF o <= 3 /\ P.kind = "safe" THEN Act([op |-> "tpost", k |-> k], Post(s, P, k, 1))
               ELSE Act([op |-> "post", k |-> k], Post(s, P, k, 0))
SimInit == P = [kind |-> "manual", f |-> Programs[1]] /\ S = EmptyS /\ h = <<>>
SimSpec == SimInit /\ [][SimGen \/ SimAct]_vars

Emit == PrintT("B" \o ToJson([p |-> P', h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([p |-> P', h |-> h']))

\* -------------------------------------------------------------- properties
Range(s) == {s[i] : i \in 1..Len(s)}
\* C20, C21: posts run once, in the order in which they were made
InvFifo == P.kind # "safe" => S.ran = [i \in 1..Len(S.ran) |-> i]
\* C22: once, and in the order of each thread
InvThread == \A a \in 1..Len(S.ran) : \A b \in (a + 1)..Len(S.ran) :
  S.ran[a] # S.ran[b] /\ (S.own[S.ran[a]] = S.own[S.ran[b]] => S.ran[a] < S.ran[b])
\* nothing is lost
InvKept == Range(S.ran) \cup {S.q[i].i : i \in 1..Len(S.q)}
           \cup {S.sh[i].i : i \in 1..Len(S.sh)} = 1..S.n
LastA == h'[Len(h')]
Acts == Len(h') > Len(h)
\* C20: everything has run when a post returns; after an exception, the next
\* post runs the rest
PropManual == [][ (Acts /\ P.kind = "manual" /\ LastA.o.x = 0) => S'.q = <<>> ]_vars
\* C21, C22: posts only queue; a step that returns has run what was posted
PropQueue == [][ (Acts /\ P.kind # "manual") =>
     IF LastA.a.op # "step" THEN S'.ran = S.ran
     ELSE LastA.o.x = 0 => 1..S.n \subseteq Range(S'.ran) ]_vars
PropQueueAll == [][ (Acts /\ P.kind = "queue" /\ LastA.a.op = "step" /\ LastA.o.x = 0)
     => S'.q = <<>> ]_vars
\* a function that throws is the last one to run
PropThrow == [][ (Acts /\ LastA.o.x # 0) => LastA.o.c[Len(LastA.o.c)] = LastA.o.x ]_vars
=============================================================================
