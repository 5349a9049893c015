------------------------------- MODULE FlowMC -------------------------------
(* Bounded exploration of Flow over the topologies of FlowTopos, printing  *)
(* every transition as a behaviour (the path to it, with the expected      *)
(* observations) to be replayed into the library.                          *)
EXTENDS Flow, FlowTopos, Json

CONSTANTS TopoSet,   \* indices of the topologies to explore
          MaxLen,    \* number of actions
          Ops,       \* enabled kinds of actions
          NoDefault  \* values have no default constructor

VARIABLES S, h, ti
vars == <<S, h, ti>>
view == <<[S EXCEPT !.log = <<>>, !.ev = <<>>], ti, Len(h)>>

Init == \E t \in TopoSet : /\ ti = Topos[t] /\ S = Build(Topos[t]) /\ h = <<>>

\* what can be observed after a step: the visible values (-1: see u), the
\* readers affected by known findings, the calls to watchers and setters, the
\* number of evaluations of sensors, and for the affected readers the value
\* that they show and the one that they should show
RECURSIVE USeq(_, _, _)
USeq(s, n, k) ==
  IF n > Count(s) THEN <<>>
  ELSE (IF k[n] /\ s.h[n] /\ ~HasSetter(s, n) /\ ~s.act
           \* (when the nodes of an expression are recomputed is not specified)
           /\ \A m \in Anc(s, n) : s.nd[m].k \notin {"ch1", "ch2"}
        THEN <<[n |-> n, a |-> s.last[n], b |-> s.idl[n]]>> ELSE <<>>)
       \o USeq(s, n + 1, k)
Obs(s) == LET k == Unsound(s) IN
          [v |-> Visible(s), g |-> k, c |-> s.log, e |-> s.ev, u |-> USeq(s, 1, k)]

Step(act, s) == LET s2 == EndStep(s)
                    s3 == [s EXCEPT !.idl = s2.idl] IN
                /\ S' = s2
                /\ h' = Append(h, [a |-> act, o |-> Obs(s3)])
                /\ ti' = ti
Fresh == [S EXCEPT !.log = <<>>]

Len2(n) == Len(S.cur[n])
Vals(n) == CASE Len2(n) = 1 -> {<<0>>, <<1>>, <<2>>}
             [] Len2(n) = 2 -> {<<1, 0>>, <<0, 2>>, <<2, 1>>, <<0, 0>>}
             [] Len2(n) = 3 -> {<<1, 0, 2>>, <<0, 0, 0>>}
             [] Len2(n) = 4 -> {<<1, 0, 2, 1>>, <<0, 0, 0, 0>>}
             [] OTHER -> {}
Live == {n \in 1..Count(S) : S.h[n]}

SetA == /\ "set" \in Ops
        /\ \E n \in Live : Writable(S, n) /\ \E x \in Vals(n) :
             Step([op |-> "set", n |-> n, x |-> x], SendUp(Fresh, n, x))
UpdA == /\ "upd" \in Ops
        /\ \E n \in Live : Writable(S, n) /\
             LET S1 == Refresh(Fresh, n)
             IN Step([op |-> "upd", n |-> n, f |-> "inc"],
                     SendUp(S1, n, Fn("inc", S1.cur[n])))
Committable == {n \in Live \cap Roots(S) : S.nd[n].k # "co"}
RECURSIVE SetToSeq(_)
SetToSeq(x) == IF x = {} THEN <<>>
               ELSE LET m == CHOOSE m \in x : \A y \in x : m <= y
                    IN <<m>> \o SetToSeq(x \ {m})
Reverse(s) == TLCEval([i \in 1..Len(s) |-> s[Len(s) + 1 - i]])
Commit(rs) == Step([op |-> "commit", r |-> rs], CommitR(Fresh, rs, 1))
CommitA == \/ /\ "com" \in Ops
              /\ Committable # {}
              /\ Commit(SetToSeq(Committable))
           \/ /\ "comr" \in Ops
              /\ Cardinality(Committable) > 1
              /\ Commit(Reverse(SetToSeq(Committable)))
           \/ /\ "com1" \in Ops
              /\ Cardinality(Committable) > 1
              /\ \E r \in Committable : Commit(<<r>>)
EnvA == /\ "env" \in Ops
        /\ \E n \in Live : S.nd[n].k = "se"
        /\ \E x \in 0..2 : x # S.env /\
             Step([op |-> "env", x |-> x], [Fresh EXCEPT !.env = x])
DropA == /\ "drop" \in Ops
         /\ \E n \in Live \ Roots(S) :
              Step([op |-> "drop", n |-> n],
                   [Fresh EXCEPT !.h[n] = FALSE, !.w[n] = <<>>])
DeriveA == /\ "derive" \in Ops /\ Count(S) < 8
           /\ \E d \in DeriveSet :
                /\ \A i \in 1..Len(d.p) : d.p[i] <= Count(S) /\ S.h[d.p[i]]
                /\ IF NoDefault /\ ComputeD(d, S.last) = NoVal
                   THEN Step([op |-> "derive", d |-> d, throws |-> TRUE], Fresh)
                   ELSE Step([op |-> "derive", d |-> d], Link(Fresh, d))
WatchA == /\ "watch" \in Ops /\ S.nw < 6
          /\ \E n \in Live :
               Step([op |-> "watch", n |-> n, pg |-> <<"no">>],
                    Watch(Fresh, n, <<"no">>))

Next == Len(h) < MaxLen /\
        (SetA \/ UpdA \/ CommitA \/ EnvA \/ DropA \/ DeriveA \/ WatchA)
Spec == Init /\ [][Next]_vars

Emit == PrintT("B" \o ToJson([b |-> ti', h |-> h']))

\* ------------------------------------------------------------- properties
Plain(s, n) == ~Sticky(s, n) /\ ~HasSetter(s, n)
\* C02
InvDerived == \A n \in 1..Count(S) :
  S.h[n] /\ Plain(S, n) /\ ~Skip(S)[n] => S.last[n] = Eval(S, n, S.last)
\* C04: what callbacks can see is consistent
AllRoots == \A n \in Roots(S) : S.h[n]
InvSnapshot == AllRoots => \A i \in 1..Len(S.log) :
  LET e == S.log[i] IN
  e.w > 0 => \A m \in 1..Len(e.s) :
    (S.h[m] /\ Plain(S, m) /\ \A q \in Anc(S, m) : e.s[q] # <<-1>>)
    => e.s[m] = Eval(S, m, [q \in 1..Count(S) |->
                              IF q <= Len(e.s) THEN e.s[q] ELSE <<>>])
\* every watcher was last called with the value its reader shows (C03, C06)
InvSeen == \A n \in 1..Count(S) : S.h[n] /\ ~S.nn[n] =>
  \A i \in 1..Len(S.w[n]) : S.seen[S.w[n][i].id] = S.last[n]
\* without writing watchers, nothing remains to be notified
Passive == ~S.act
InvNotified == Passive => \A n \in 1..Count(S) : Alive(S, n) /\
                 (\A m \in Anc(S, n) : S.nd[m].k # "sut") => ~S.nn[n]
InvOnce == (Passive /\ \A n \in 1..Count(S) : S.nd[n].k \notin {"sa", "sua"}) =>
  \A i, j \in 1..Len(S.log) :
    i # j /\ S.log[i].w > 0 => S.log[i].w # S.log[j].w

LastAct == IF h = <<>> THEN "none" ELSE h[Len(h)].a.op
\* C01: a write to transactional sources changes nothing visible
TransOnly(s, n) == \A m \in Anc(s, n) : s.nd[m].k \notin {"sa", "sua", "sut"}
PropIsolated == [][
  LET a == h'[Len(h')].a IN
  (a.op \in {"set", "upd"} /\ TransOnly(S, a.n)) =>
     S'.last = S.last /\ S'.log = <<>> ]_vars
\* C01, C03: a commit changes and notifies only what depends on its roots
PropCommit == [][
  LET a == h'[Len(h')].a IN
  (a.op = "commit" /\ Passive /\ \A n \in 1..Count(S) : TransOnly(S, n)) =>
     LET D == UNION {Desc(S, a.r[i]) : i \in 1..Len(a.r)} IN
     \A n \in 1..Count(S) :
       /\ n \notin D => S'.last[n] = S.last[n]
       /\ (\E i \in 1..Len(S'.log) : S'.log[i].n = n) => n \in D
       /\ S'.last[n] # S.last[n] /\ S.h[n] /\ S'.h[n] =>
            \A k \in 1..Len(S.w[n]) :
              \E i \in 1..Len(S'.log) : /\ S'.log[i].w = S.w[n][k].id
                                        /\ S'.log[i].v = S'.last[n]
  ]_vars
\* C05: a write through a lens cursor changes its part of the sources only
PropWrite == [][
  LET a == h'[Len(h')].a IN
  (a.op \in {"set", "upd"} /\ Passive) =>
     LET pre == S.cur
         x == IF a.op = "set" THEN a.x
              ELSE Fn("inc", Eval(S, a.n, pre)) IN
     (\A m \in Anc(S, a.n) : S.nd[m].k \in {"st", "sa", "lens", "xupd"}) =>
        /\ Eval(S, a.n, S'.cur) = Eval(S, a.n, [m \in 1..Count(S) |->
                 IF m \in Roots(S) THEN S'.cur[m] ELSE <<>>])
        /\ \A r \in Roots(S) : r \notin Anc(S, a.n) => S'.cur[r] = S.cur[r]
        /\ Eval(S, a.n, S'.cur) = x
  ]_vars
\* C11
PropSensor == [][
  LET a == h'[Len(h')].a IN
  \A n \in Roots(S) : S.nd[n].k = "se" =>
    /\ S'.ev[n] = S.ev[n] + (IF a.op = "commit" /\
          (\E i \in 1..Len(a.r) : a.r[i] = n) THEN 1 ELSE 0)
    /\ (a.op # "commit" => S'.last[n] = S.last[n]) ]_vars
\* C10: a filtered reader changes only to images of values that passed
PropSticky == [][
  \A n \in 1..Count(S) :
    (Passive /\ S.nd[n].k = "filt" /\ ~Skip(S)[n] /\ ~Skip(S')[n]
       /\ S'.last[n] # S.last[n]) =>
    /\ Pred(S.nd[n].f, S'.last[n])
    /\ S'.last[n] = S'.last[S.nd[n].p[1]] ]_vars
=============================================================================
