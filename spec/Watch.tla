-------------------------------- MODULE Watch --------------------------------
(* Life of watchers: reader objects (slots) that are bound to values, keep   *)
(* their callbacks across assignments, and lose them when destroyed or       *)
(* unbound (lager/watch.hpp).                                                *)
(*                                                                           *)
(* Source 1 is a transactional state, source 2 an automatic one.  A value is *)
(* <<source, f>>: readers with the same f over the same source show the same *)
(* value, so the identity of the underlying nodes does not matter.  Objects  *)
(* 1 and 2 are the states themselves, 3 and 4 are readers, 5 is a cursor.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxLen, Ops, Objs, Srcs, Fs, Progs, MaxCb

VARIABLES S, h
vars == <<S, h>>
view == <<[S EXCEPT !.log = <<>>], Len(h)>>

None == <<0, "no">>
Fn(f, x) == CASE f = "self" -> x
              [] f = "inc" -> (x + 1) % 3
              [] f = "par" -> x % 2
Val(s, nd) == Fn(nd[2], s.last[nd[1]])
Readers == {3, 4}
Cursors == {5}
Movable == (Readers \cup Cursors) \cap Objs
Nodes == {<<s, f>> : s \in Srcs, f \in Fs}
Holds(i, nd) == i \in Readers \/ nd[2] # "par"      \* type of the object
\* objects that can be assigned to i
From(i) == IF i \in Readers THEN Objs ELSE {j \in Objs : j \notin Readers}

\* ghost: the object was moved from while it had callbacks; nothing is said
\* about these until it is assigned again
Fresh(nd) == [nd |-> nd, cbs |-> <<>>, ghost |-> FALSE, ex |-> TRUE]
Init == /\ h = <<>>
        /\ S = [last |-> <<0, 0>>, cur |-> 0, tv |-> {}, ncb |-> 0, used |-> {},
                log |-> <<>>, skip |-> {}, npg |-> 0,
                o |-> [i \in 1..5 |->
                         IF i \notin Objs THEN [Fresh(None) EXCEPT !.ex = FALSE]
                         ELSE IF i \in {1, 2} THEN Fresh(<<i, "self">>)
                         ELSE Fresh(None)]]

\* ---------------------------------------------------- operations on objects
Rebind(s, i, nd) == [s EXCEPT !.o[i].nd = nd, !.o[i].ghost = FALSE]
MoveFrom(s, j) == [s EXCEPT !.o[j].nd = None, !.o[j].ghost = s.o[j].cbs # <<>>]
Unbind(s, i) == [s EXCEPT !.o[i].cbs = <<>>, !.o[i].ghost = FALSE]
Destroy(s, i) == [s EXCEPT !.o[i] = [Fresh(None) EXCEPT !.ex = FALSE]]
AddCb(s, i, pg) == [s EXCEPT !.ncb = @ + 1,
                             !.npg = IF pg[1] = "no" THEN @ ELSE 1,
                             !.o[i].cbs = Append(@, [id |-> s.ncb + 1, pg |-> pg])]
Call(s, i, k, v, may) == [s EXCEPT !.log = Append(@, [o |-> i, w |-> s.o[i].cbs[k].id,
                                                      v |-> v, may |-> may])]

RECURSIVE CallAll(_, _, _, _, _), Exec(_, _, _)
\* what the callback (once) does to other objects
Exec(s, id, pg) ==
  IF pg[1] = "no" \/ id \in s.used THEN s
  ELSE LET s1 == [s EXCEPT !.used = @ \cup {id}]
           i == pg[2]
       IN
       CASE pg[1] = "unb" -> Unbind([s1 EXCEPT !.skip = @ \cup {i}], i)
         [] pg[1] = "des" -> Destroy([s1 EXCEPT !.skip = @ \cup {i}], i)
         [] pg[1] = "wat" -> AddCb([s1 EXCEPT !.skip = @ \cup {i}], i, <<"no">>)
         [] pg[1] = "nud" -> CallAll(s1, i, 1, Val(s1, s1.o[i].nd), FALSE)
         [] pg[1] = "asg" -> Rebind([s1 EXCEPT !.skip = @ \cup {i}], i, s1.o[pg[3]].nd)
CallAll(s, i, k, v, may) ==
  IF k > Len(s.o[i].cbs) THEN s
  ELSE LET s1 == Call(s, i, k, v, may)
           c == s.o[i].cbs[k]
       IN CallAll(Exec(s1, c.id, c.pg), i, k + 1, v, may)

\* can the program of the callback of object i be run now?
Runs(s, i, pg) ==
  CASE pg[1] = "no" -> TRUE
    [] OTHER -> /\ pg[2] # i
                /\ s.o[pg[2]].ex
                /\ (pg[1] \in {"des", "asg"} => pg[2] \in Movable)
                /\ (pg[1] = "nud" => s.o[pg[2]].nd # None /\ ~s.o[pg[2]].ghost)
                /\ (pg[1] = "asg" => s.o[pg[3]].ex /\ Holds(pg[2], s.o[pg[3]].nd))
AllRun(s) == \A i \in Objs : \A k \in 1..Len(s.o[i].cbs) :
               s.o[i].cbs[k].id \in s.used \/ Runs(s, i, s.o[i].cbs[k].pg)
ProgObj(s) == {i \in Objs : \E k \in 1..Len(s.o[i].cbs) :
                 s.o[i].cbs[k].pg[1] # "no" /\ s.o[i].cbs[k].id \notin s.used}

\* the value of source r becomes v (tv: values that it had in between); every
\* object bound to something that changed is notified
Changed(old, s, i, r) == s.o[i].ex /\ s.o[i].nd[1] = r /\
                         Fn(s.o[i].nd[2], old) # Val(s, s.o[i].nd)
Maybe(old, tv, s, i, r) == s.o[i].ex /\ s.o[i].nd[1] = r /\ ~Changed(old, s, i, r) /\
                           \E x \in tv : Fn(s.o[i].nd[2], x) # Fn(s.o[i].nd[2], old)
RECURSIVE NotifyFrom(_, _, _, _, _)
NotifyFrom(old, tv, s, i, r) ==
  IF i > 5 THEN s
  ELSE NotifyFrom(old, tv,
         IF i \in s.skip THEN s
         ELSE IF Changed(old, s, i, r) THEN CallAll(s, i, 1, Val(s, s.o[i].nd), FALSE)
         ELSE IF Maybe(old, tv, s, i, r) THEN CallAll(s, i, 1, Val(s, s.o[i].nd), TRUE)
         ELSE s, i + 1, r)
\* (an object with a program that was moved from may be called or not)
Sure(old, tv, s, r) ==
  /\ AllRun(s)
  /\ \A i \in ProgObj(s) : ~Maybe(old, tv, s, i, r) /\ ~s.o[i].ghost
\* programs run first in the specification: what they touch is masked anyway
NotifyAll(old, tv, s, r) ==
  LET P == {i \in ProgObj(s) : Changed(old, s, i, r)}
      s1 == IF P = {} THEN s
            ELSE LET i == CHOOSE i \in P : TRUE
                 IN CallAll(s, i, 1, Val(s, s.o[i].nd), FALSE)
  IN NotifyFrom(old, tv, [s1 EXCEPT !.skip = @ \cup P], 1, r)

\* ------------------------------------------------------------------ actions
Ghosts(s) == {i \in Objs : s.o[i].ghost}
ValOf(s, i) == IF s.o[i].ex /\ s.o[i].nd # None THEN Val(s, s.o[i].nd) ELSE 9
Obs(s, sk) == [v |-> [i \in 1..5 |-> ValOf(s, i)], c |-> s.log, g |-> sk]
Step(a, s0, sk) ==
  LET s == TLCEval(s0) IN
  /\ S' = [s EXCEPT !.skip = {}]
  /\ h' = Append(h, [a |-> a, o |-> Obs(s, Ghosts(S) \cup Ghosts(s) \cup sk)])
S0 == [S EXCEPT !.log = <<>>, !.skip = {}]
Ex(i) == S.o[i].ex
Sk(s0, old) == (s0.skip \ old)

PgSet(i) == {<<"no">>} \cup
  IF S.npg > 0 THEN {} ELSE
  UNION { CASE k = "asg" -> {<<k, t, f>> : t \in Movable \ {i}, f \in Objs \ {i}}
            [] k = "des" -> {<<k, t>> : t \in Movable \ {i}}
            [] k = "no" -> {}
            [] OTHER -> {<<k, t>> : t \in Objs \ {i}} : k \in Progs }

WatchA(i, pg) == /\ Ex(i) /\ S.ncb < MaxCb
                 /\ (pg[1] = "asg" => pg[3] \in From(pg[2]))
                 /\ Step([op |-> "watch", i |-> i, pg |-> pg], AddCb(S0, i, pg), {})
BindA(i) == /\ Ex(i) /\ S.o[i].nd # None /\ S.ncb < MaxCb
            /\ LET s == AddCb(S0, i, <<"no">>)
               IN Step([op |-> "bind", i |-> i],
                       Call(s, i, Len(s.o[i].cbs), ValOf(s, i), FALSE), {})
NudgeA(i) == /\ Ex(i) /\ S.o[i].nd # None /\ ~S.o[i].ghost /\ AllRun(S)
             /\ (\A k \in ProgObj(S) : ~S.o[k].ghost)
             /\ LET s == CallAll(S0, i, 1, ValOf(S, i), FALSE)
                IN Step([op |-> "nudge", i |-> i], s, s.skip)
UnbindA(i) == /\ Ex(i)
              /\ Step([op |-> "unbind", i |-> i], Unbind(S0, i), {})
AsgA(i, j) == /\ Ex(i) /\ Ex(j) /\ i \in Movable /\ j \in From(i)
              /\ Step([op |-> "assign", i |-> i, j |-> j], Rebind(S0, i, S.o[j].nd), {})
MovA(i, j) == /\ Ex(i) /\ Ex(j) /\ i \in Movable /\ j \in Movable \cap From(i) /\ i # j
              /\ (i \in Cursors <=> j \in Cursors)
              /\ Step([op |-> "move", i |-> i, j |-> j],
                      MoveFrom(Rebind(S0, i, S.o[j].nd), j), {})
AsnA(i, nd) == /\ Ex(i) /\ i \in Movable /\ Holds(i, nd)
               /\ Step([op |-> "expr", i |-> i, nd |-> nd], Rebind(S0, i, nd), {})
AsdA(i) == /\ Ex(i) /\ i \in Movable
           /\ Step([op |-> "empty", i |-> i], Rebind(S0, i, None), {})
DesA(i) == /\ Ex(i) /\ i \in Movable
           /\ Step([op |-> "destroy", i |-> i], Destroy(S0, i), {})
MkA(i, j) == /\ ~Ex(i) /\ i \in Movable /\ j \in From(i) \ {i} /\ Ex(j)
             /\ Step([op |-> "mkcopy", i |-> i, j |-> j],
                     [S0 EXCEPT !.o[i] = Fresh(S.o[j].nd)], {})
MkMoveA(i, j) == /\ ~Ex(i) /\ i \in Movable /\ j \in (Movable \cap From(i)) \ {i} /\ Ex(j)
                 /\ (i \in Cursors <=> j \in Cursors)
                 /\ Step([op |-> "mkmove", i |-> i, j |-> j],
                         MoveFrom([S0 EXCEPT !.o[i] = Fresh(S.o[j].nd)], j), {})
MkExprA(i, nd) == /\ ~Ex(i) /\ i \in Movable /\ Holds(i, nd)
                  /\ Step([op |-> "mkexpr", i |-> i, nd |-> nd],
                          [S0 EXCEPT !.o[i] = Fresh(nd)], {})
\* writes: to the states, or through the cursor
SetT(x, by) ==
  Step([op |-> "set", s |-> 1, x |-> x, by |-> by],
       IF x = S.cur THEN S0 ELSE [S0 EXCEPT !.cur = x, !.tv = @ \cup {x}], {})
SetAuto(x, by) ==
  LET s1 == [S0 EXCEPT !.last[2] = x]
      s == NotifyAll(S.last[2], {}, s1, 2) IN
  /\ Sure(S.last[2], {}, s1, 2)
  /\ Step([op |-> "set", s |-> 2, x |-> x, by |-> by], s, s.skip \ ProgObj(S))
SetA(s, x) == s \in Srcs /\ IF s = 1 THEN SetT(x, "s") ELSE SetAuto(x, "s")
SetC(x) == /\ 5 \in Objs /\ Ex(5) /\ S.o[5].nd # None
           /\ IF S.o[5].nd[1] = 1 THEN SetT(x, "c") ELSE SetAuto(x, "c")
CommitA ==
  LET s1 == [S0 EXCEPT !.last[1] = S.cur, !.tv = {}]
      s == NotifyAll(S.last[1], S.tv, s1, 1) IN
  /\ 1 \in Srcs
  /\ Sure(S.last[1], S.tv, s1, 1)
  /\ Step([op |-> "commit"], s, s.skip \ ProgObj(S))

Next ==
  /\ Len(h) < MaxLen
  /\ \/ "watch" \in Ops /\ \E i \in Objs : \E pg \in PgSet(i) : WatchA(i, pg)
     \/ "bind" \in Ops /\ \E i \in Objs : BindA(i)
     \/ "nudge" \in Ops /\ \E i \in Objs : NudgeA(i)
     \/ "unbind" \in Ops /\ \E i \in Objs : UnbindA(i)
     \/ "assign" \in Ops /\ \E i, j \in Objs : AsgA(i, j)
     \/ "move" \in Ops /\ \E i, j \in Objs : MovA(i, j)
     \/ "expr" \in Ops /\ \E i \in Objs : \E nd \in Nodes : AsnA(i, nd)
     \/ "empty" \in Ops /\ \E i \in Objs : AsdA(i)
     \/ "destroy" \in Ops /\ \E i \in Objs : DesA(i)
     \/ "make" \in Ops /\ \E i, j \in Objs : MkA(i, j) \/ MkMoveA(i, j)
     \/ "make" \in Ops /\ \E i \in Objs : \E nd \in Nodes : MkExprA(i, nd)
     \/ \E s \in Srcs : \E x \in 0..2 : SetA(s, x)
     \/ "cursor" \in Ops /\ \E x \in 0..2 : SetC(x)
     \/ CommitA
Spec == Init /\ [][Next]_vars

\* random: one kind of action first, then its parameters
R(x) == {RandomElement(x)}
Kinds == (Ops \ {"cursor"}) \cup {"set", "commit"}
SimNext ==
  /\ Len(h) < MaxLen
  /\ \E k \in R(Kinds) : \E i \in R(Objs) : \E j \in R(Objs) :
     \E nd \in R(Nodes) : \E x \in R(0..2) : \E s \in R(Srcs) : \E y \in R(1..3) :
     \E pg \in R(PgSet(i)) :
     CASE k = "watch" -> WatchA(i, pg)
       [] k = "bind" -> BindA(i)
       [] k = "nudge" -> NudgeA(i)
       [] k = "unbind" -> UnbindA(i)
       [] k = "assign" -> AsgA(i, j)
       [] k = "move" -> MovA(i, j)
       [] k = "expr" -> AsnA(i, nd)
       [] k = "empty" -> AsdA(i)
       [] k = "destroy" -> DesA(i)
       [] k = "make" -> IF y = 1 THEN MkA(i, j) ELSE IF y = 2 THEN MkMoveA(i, j)
                        ELSE MkExprA(i, nd)
       [] k = "set" -> IF y = 1 THEN SetC(x) ELSE SetA(s, x)
       [] k = "commit" -> CommitA
Retry == Len(h) < MaxLen /\ UNCHANGED vars
SimSpec == Init /\ [][SimNext \/ Retry]_vars

Emit == PrintT("B" \o ToJson([h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([h |-> h']))

\* --------------------------------------------------------------- properties
Ids(i) == {S.o[i].cbs[k].id : k \in 1..Len(S.o[i].cbs)}
\* a callback belongs to one object at most; it is only called while it lives
InvOwner == \A i, j \in Objs : i # j => Ids(i) \cap Ids(j) = {}
InvOrder == \A i \in Objs : \A k \in 1..(Len(S.o[i].cbs) - 1) :
              S.o[i].cbs[k].id < S.o[i].cbs[k + 1].id
\* copies, moves and assignments never change who owns a callback
PropKeep == [][ LET a == h'[Len(h')].a IN
  a.op \in {"assign", "move", "expr", "empty", "mkcopy", "mkmove", "mkexpr", "set",
            "commit", "bind", "nudge"} =>
    \A i \in Objs : i \in S.skip \/ S.used # S'.used \/
      \A k \in 1..Len(S.o[i].cbs) : S'.o[i].cbs[k] = S.o[i].cbs[k] ]_vars
\* changes call every callback of the objects bound to what changed, once
PropCalls == [][ LET a == h'[Len(h')].a IN
  (a.op = "commit" /\ S.used = S'.used) =>
    \A i \in Objs : \A k \in 1..Len(S.o[i].cbs) :
      LET C == {n \in 1..Len(S'.log) : S'.log[n].w = S.o[i].cbs[k].id} IN
      /\ Cardinality(C) <= 1
      /\ (S.o[i].nd # None /\ ValOf(S, i) # ValOf(S', i)) <=>
           \E n \in C : ~S'.log[n].may
      /\ \A n \in C : S'.log[n].v = ValOf(S', i) ]_vars
PropNudge == [][ LET a == h'[Len(h')].a IN
  (a.op = "nudge" /\ S.used = S'.used) =>
    /\ [k \in 1..Len(S'.log) |-> S'.log[k].w] =
       [k \in 1..Len(S.o[a.i].cbs) |-> S.o[a.i].cbs[k].id]
    /\ \A k \in 1..Len(S'.log) : S'.log[k].v = ValOf(S, a.i) ]_vars
=============================================================================
