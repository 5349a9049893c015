-------------------------------- MODULE QtProps --------------------------------
(* Properties of QObjects that are supported by cursors and readers: C30.      *)
(*                                                                             *)
(* Source 1 is a transactional state, source 2 an automatic one, with values   *)
(* 0..2.  Objects have the properties a (a cursor of ints), s (a cursor of     *)
(* strings) and r (a reader of ints), each bound to <<source, f>> or to        *)
(* nothing yet.  Signals can be connected to slots, and there may be an object *)
(* of QML whose properties are bound to those of an object.                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, NObj, Ops
VARIABLES S, h
vars == <<S, h>>
view == <<S, Len(h)>>

None == <<0, "no">>
Props == {"a", "s", "r"}
Objs == 1..NObj
Fn(f, x) == CASE f = "self" -> x
              [] f = "inc" -> (x + 1) % 3
              [] f = "par" -> x % 2
Inv(f, y) == CASE f = "self" -> y
               [] f = "inc" -> (y + 2) % 3
Holds(p, f) == p = "r" \/ f # "par"
Nodes(p) == {nd \in {1, 2} \X {"self", "inc", "par"} : Holds(p, nd[2])}
Val(s, nd) == Fn(nd[2], s.last[nd[1]])
\* the value that QML shows when it is not known
Unknown == 9

Fresh == [ex |-> FALSE, nd |-> [p \in Props |-> None], con |-> [p \in Props |-> 0],
          prog |-> {}, qml |-> FALSE, q |-> [p \in Props |-> Unknown]]
Init == /\ h = <<>>
        /\ S = [last |-> <<0, 0>>, cur |-> 0, tv |-> {}, prog |-> FALSE,
                o |-> [i \in Objs |-> Fresh], sig |-> <<>>]

Bound(s, i, p) == s.o[i].ex /\ s.o[i].nd[p] # None
\* signals of the properties of object i bound to source r, which changes from old
Emits(s, i, p, r, old) == Bound(s, i, p) /\ s.o[i].nd[p][1] = r
                          /\ Val(s, s.o[i].nd[p]) # Fn(s.o[i].nd[p][2], old)
\* the value was another one in between: nothing is said about the signal
Maybe(s, i, p, r, old, tv) ==
  /\ Bound(s, i, p) /\ s.o[i].nd[p][1] = r
  /\ Val(s, s.o[i].nd[p]) = Fn(s.o[i].nd[p][2], old)
  /\ \E x \in tv : Fn(s.o[i].nd[p][2], x) # Fn(s.o[i].nd[p][2], old)
IP == Objs \X Props
Signals(s0, r, old, tv) ==
  LET s == TLCEval(s0) IN
  LET em == TLCEval({x \in IP : Emits(s, x[1], x[2], r, old)})
      mb == TLCEval({x \in IP : Maybe(s, x[1], x[2], r, old, tv)})
  IN [s EXCEPT !.sig = @ \o <<[em |-> em, mb |-> mb]>>,
               !.o = [i \in Objs |-> [@[i] EXCEPT !.q = [p \in Props |->
                        IF <<i, p>> \in em THEN Val(s, s.o[i].nd[p])
                        ELSE IF <<i, p>> \in mb /\ @[p] # Val(s, s.o[i].nd[p]) THEN Unknown
                        ELSE @[p]]]]]
\* source 2 changes at once
Set2(s, x) == IF x = s.last[2] THEN s
              ELSE Signals([s EXCEPT !.last[2] = x], 2, s.last[2], {})
Write(s, r, x) == IF r = 2 THEN Set2(s, x)
                  ELSE [s EXCEPT !.cur = x, !.tv = @ \cup {x}]
\* a slot that sets source 2 to the value that it gets
Prog(s) == LET k == Len(s.sig)
               run == {x \in s.sig[k].em : x[2] \in s.o[x[1]].prog}
           IN IF run = {} THEN s
              ELSE LET x == CHOOSE x \in run : TRUE IN Set2(s, Val(s, s.o[x[1]].nd[x[2]]))
Commit(s) == LET s1 == TLCEval(Signals([s EXCEPT !.last[1] = s.cur, !.tv = {}], 1, s.last[1], s.tv))
             IN Prog(s1)

\* ------------------------------------------------------------------ actions
\* what slots are told: for each object and property, the values
Told(s, i, p) == LET F[k \in 0..Len(s.sig)] ==
                       IF k = 0 THEN <<>>
                       ELSE IF <<i, p>> \in s.sig[k].em THEN Append(F[k - 1], k) ELSE F[k - 1]
                 IN Len(F[Len(s.sig)])
ValOf(s, i, p) == IF Bound(s, i, p) THEN Val(s, s.o[i].nd[p]) ELSE 9
Seq3(f) == <<f["a"], f["s"], f["r"]>>
Obs(s) ==
  [i \in Objs |->
     [v |-> Seq3([p \in Props |-> ValOf(s, i, p)]),
      n |-> Seq3([p \in Props |-> Told(s, i, p)]),
      may |-> Seq3([p \in Props |-> IF \E k \in 1..Len(s.sig) : <<i, p>> \in s.sig[k].mb THEN 1 ELSE 0]),
      q |-> IF s.o[i].qml THEN Seq3(s.o[i].q) ELSE <<>>]]
Step(a, s0) == LET s == TLCEval(s0) IN
  /\ S' = [s EXCEPT !.sig = <<>>]
  /\ h' = Append(h, [a |-> a, o |-> Obs(s)])
Ex(i) == S.o[i].ex
AllBound(i) == \A p \in Props : Bound(S, i, p)
\* a slot with a program must be called for sure, for changes of source 1
NoDoubt == \A i \in Objs : \A p \in S.o[i].prog :
             /\ S.o[i].nd[p][1] # 2
             /\ ~Maybe([S EXCEPT !.last[1] = S.cur], i, p, 1, S.last[1], S.tv)

\* properties start bound to na, ns and nr (or to nothing)
Make(i, na, ns, nr) ==
  /\ ~Ex(i)
  /\ Step([op |-> "make", i |-> i, nd |-> <<na, ns, nr>>],
          [S EXCEPT !.o[i] = [Fresh EXCEPT !.ex = TRUE, !.nd = [a |-> na, s |-> ns, r |-> nr]]])
Delete(i) == Ex(i) /\ Step([op |-> "del", i |-> i],
                           [S EXCEPT !.o[i] = Fresh, !.prog = @ /\ S.o[i].prog = {}])
\* whether the new value is told when the property is bound to something else is
\* not said; it is not told when there is no new value
Rebind(s, i, p, nd) ==
  LET old == ValOf(s, i, p)
      s1 == [s EXCEPT !.o[i].nd[p] = nd]
  IN IF ValOf(s1, i, p) = old THEN s1
     ELSE [s1 EXCEPT !.sig = <<[em |-> {}, mb |-> {<<i, p>>}]>>, !.o[i].q[p] = Unknown]
Assign(i, p, nd) ==
  /\ Ex(i) /\ (2 = nd[1] => p \notin S.o[i].prog)
  /\ Step([op |-> "asg", i |-> i, p |-> p, nd |-> nd], Rebind(S, i, p, nd))
\* from the property of another object (to r also from a)
Copy(i, p, j, p2) ==
  /\ Ex(i) /\ Bound(S, j, p2) /\ (p = p2 \/ (p = "r" /\ p2 = "a"))
  /\ <<i, p>> # <<j, p2>>
  /\ (2 = S.o[j].nd[p2][1] => p \notin S.o[i].prog)
  /\ Step([op |-> "copy", i |-> i, p |-> p, j |-> j, p2 |-> p2],
          Rebind(S, i, p, S.o[j].nd[p2]))
PropWrite(i, p, y) ==
  /\ Bound(S, i, p) /\ p # "r"
  /\ LET nd == S.o[i].nd[p] IN
     Step([op |-> "pw", i |-> i, p |-> p, y |-> y], Write(S, nd[1], Inv(nd[2], y)))
SrcWrite(r, x) == Step([op |-> "sw", r |-> r, x |-> x], Write(S, r, x))
DoCommit == /\ NoDoubt
            /\ Step([op |-> "commit"], Commit(S))
Connect(i, p) == /\ Ex(i) /\ S.o[i].con[p] < 2
                 /\ Step([op |-> "con", i |-> i, p |-> p], [S EXCEPT !.o[i].con[p] = @ + 1])
Disconnect(i, p) == /\ Ex(i) /\ S.o[i].con[p] > 0
                    /\ Step([op |-> "dis", i |-> i, p |-> p],
                            [S EXCEPT !.o[i].con[p] = @ - 1])
Program(i, p) ==
  /\ Ex(i) /\ ~S.prog /\ S.o[i].nd[p][1] # 2
  /\ Step([op |-> "prog", i |-> i, p |-> p],
          [S EXCEPT !.prog = TRUE, !.o[i].prog = {p}])
Qml(i) ==
  /\ Ex(i) /\ AllBound(i) /\ ~S.o[i].qml
  /\ Step([op |-> "qml", i |-> i],
          [S EXCEPT !.o[i].qml = TRUE, !.o[i].q = [p \in Props |-> Val(S, S.o[i].nd[p])]])

Has(op) == op \in Ops
OrNone(p) == Nodes(p) \cup {None}
Next ==
  /\ Len(h) < MaxLen
  /\ \/ \E i \in Objs : \E na \in OrNone("a") : \E nr \in {<<1, "par">>, <<2, "self">>, None} :
          /\ (IF i = 1 THEN TRUE ELSE Ex(i - 1))
          /\ Make(i, na, <<1, "inc">>, nr)
     \/ \E i \in Objs : Has("del") /\ Delete(i)
     \/ Has("asg") /\ \E i \in Objs : \E p \in {"a", "r"} : \E nd \in Nodes(p) : Assign(i, p, nd)
     \/ Has("copy") /\ \E i, j \in Objs : \E p, p2 \in Props : Copy(i, p, j, p2)
     \/ Has("pw") /\ \E i \in Objs : \E p \in {"a", "s"} : \E y \in 0..2 : PropWrite(i, p, y)
     \/ Has("sw") /\ \E r \in {1, 2} : \E x \in 0..2 : SrcWrite(r, x)
     \/ (Has("commit") /\ DoCommit)
     \/ Has("con") /\ \E i \in Objs : \E p \in {"a"} : Connect(i, p) \/ Disconnect(i, p)
     \/ Has("prog") /\ \E i \in Objs : \E p \in {"a", "r"} : Program(i, p)
     \/ Has("qml") /\ \E i \in Objs : Qml(i)
Spec == Init /\ [][Next]_vars

R(x) == {RandomElement(x)}
SimStep ==
  \E x \in R(1..20) : \E i \in R(Objs) : \E j \in R(Objs) : \E p \in R(Props) : \E p2 \in R(Props) :
  \E y \in R(0..2) : \E r \in R({1, 2}) :
  CASE ~Ex(i) -> \E na \in R(OrNone("a")) : \E ns \in R(OrNone("s")) : \E nr \in R(OrNone("r")) :
                   Make(i, na, ns, nr)
    [] Ex(i) /\ x = 1 /\ p = "a" -> Delete(i)
    [] Ex(i) /\ x = 1 /\ p # "a" -> Disconnect(i, p)
    [] Ex(i) /\ x \in 2..4 -> \E nd \in R(TLCEval(Nodes(p))) : Assign(i, p, nd)
    [] Ex(i) /\ x = 5 -> Copy(i, p, j, IF p2 = "r" \/ p # "r" THEN p ELSE "a")
    [] Ex(i) /\ x \in 6..9 -> PropWrite(i, p, y)
    [] Ex(i) /\ x \in 10..12 -> SrcWrite(r, y)
    [] Ex(i) /\ x \in 13..15 -> DoCommit
    [] Ex(i) /\ x = 16 -> Connect(i, p)
    [] Ex(i) /\ x = 17 -> Disconnect(i, p)
    [] Ex(i) /\ x = 18 -> Program(i, p)
    [] Ex(i) /\ x \in 19..20 -> Qml(i)
Retry == Len(h) < MaxLen /\ UNCHANGED vars
SimSpec == Init /\ [][(Len(h) < MaxLen /\ SimStep) \/ Retry]_vars
Emit == PrintT("B" \o ToJson([h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([h |-> h']))

\* -------------------------------------------------------------- properties
\* what is bound to the same thing shows the same
InvSame == \A x, y \in IP :
  (Bound(S, x[1], x[2]) /\ Bound(S, y[1], y[2]) /\ S.o[x[1]].nd[x[2]] = S.o[y[1]].nd[y[2]])
  => ValOf(S, x[1], x[2]) = ValOf(S, y[1], y[2])
\* a change of the value of a property that stays bound to the same is always
\* told, once for each change of the source, and only then
PropTold == [][Len(h') > Len(h) =>
  LET st == h'[Len(h')] IN
  \A i \in Objs : \A k \in 1..3 :
    LET p == <<"a", "s", "r">>[k]
        same == Bound(S, i, p) /\ Bound(S', i, p) /\ S.o[i].nd[p] = S'.o[i].nd[p]
    IN /\ (same /\ ValOf(S, i, p) # ValOf(S', i, p)) => st.o[i].n[k] >= 1
       /\ (st.o[i].n[k] > 0 => same /\ ValOf(S, i, p) # ValOf(S', i, p))
       /\ st.o[i].n[k] <= 1]_vars
\* QML shows what it was told last
PropQml == [][Len(h') > Len(h) =>
  \A i \in Objs : \A p \in Props :
    (S.o[i].qml /\ S'.o[i].qml /\ S.o[i].q[p] = ValOf(S, i, p) /\ S.o[i].nd[p] = S'.o[i].nd[p])
    => S'.o[i].q[p] = ValOf(S', i, p)]_vars
\* writing through a property: what it shows then, if at once
PropWritten == [][Len(h') > Len(h) =>
  LET a == h'[Len(h')].a IN
  (a.op = "pw" /\ S.o[a.i].nd[a.p][1] = 2) => ValOf(S', a.i, a.p) = a.y]_vars
================================================================================
