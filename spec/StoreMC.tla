------------------------------- MODULE StoreMC -------------------------------
(* Programs and external histories for Store.                               *)
EXTENDS Store, Json
CONSTANTS MaxLen, MaxActs, Ops, Progs, Loops, Kinds
VARIABLES S, h, P
vars == <<S, h, P>>
view == <<[S EXCEPT !.log = <<>>], P, Len(h)>>

no == <<>>
A(e) == [id |-> FALSE, th |-> FALSE, e |-> e]
I(e) == [id |-> TRUE, th |-> FALSE, e |-> e]
T(e) == [id |-> FALSE, th |-> TRUE, e |-> e]
none == <<"none">>
noop == <<"noop">>
null == <<"null">>
do(i, ops) == <<"do", i, ops>>
futr(i, ops, k) == <<"fut", i, ops, k>>
thn(i, ops, k, c) == <<"then", i, ops, k, c>>
seq(a, b) == <<"seq", a, b>>
d(k) == <<"d", k>>
dt(k, c) == <<"dt", k, c>>
also(k, l, c) == <<"also", k, l, c>>
com == <<"com">>
pst(i) == <<"post", i>>
C(ops, r) == [ops |-> ops, ret |-> r]
Pr(act, cont, w) == [act |-> act, cont |-> cont, w |-> w]
w0 == <<no, no>>
c0 == <<C(no, 0), C(no, 0)>>

Programs == <<
 \* 1: actions only
 Pr(<<A(none), A(none), I(none)>>, c0, w0),
 \* 2: effects that dispatch
 Pr(<<A(do(1, <<d(2)>>)), A(do(2, <<d(3)>>)), A(none)>>, c0, w0),
 Pr(<<A(do(1, <<d(3), d(2), d(3)>>)), A(do(2, no)), I(do(3, no))>>, c0, w0),
 \* 4: noop and identity
 Pr(<<A(noop), I(noop), I(do(1, <<d(1)>>))>>, c0, w0),
 \* 5: sequences
 Pr(<<A(seq(do(1, no), do(2, no))), A(seq(do(3, <<d(3)>>), noop)), A(none)>>, c0, w0),
 Pr(<<A(seq(futr(1, no, 3), do(2, no))), A(seq(do(3, no), futr(4, no, 3))), A(none)>>, c0, w0),
 Pr(<<A(seq(seq(futr(1, no, 2), futr(2, no, 3)), do(3, no))), A(do(4, <<d(3)>>)), A(none)>>, c0, w0),
 Pr(<<A(seq(futr(1, no, 2), seq(do(2, <<d(3)>>), do(3, no)))), A(futr(4, no, 3)), A(do(5, no))>>, c0, w0),
 \* 9: watchers dispatch
 Pr(<<A(do(1, <<d(2)>>)), A(none), I(none)>>, c0, <<<<d(2)>>, <<d(3)>>>>),
 Pr(<<A(do(1, no)), A(do(2, no)), A(none)>>, <<C(<<d(3)>>, 0), C(no, 0)>>, <<<<dt(2, 1)>>, <<d(2)>>>>),
 \* 11: continuations
 Pr(<<A(do(1, <<dt(2, 1)>>)), A(do(2, no)), A(none)>>, <<C(no, 0), C(no, 0)>>, w0),
 Pr(<<A(futr(1, no, 2)), A(futr(2, no, 3)), A(do(3, no))>>, <<C(<<d(3)>>, 3), C(no, 3)>>, w0),
 Pr(<<A(thn(1, no, 2, 1)), A(do(2, <<d(3)>>)), A(none)>>, <<C(no, 3), C(no, 0)>>, w0),
 Pr(<<A(do(1, <<also(2, 3, 1)>>)), A(futr(2, no, 3)), A(none)>>, <<C(<<dt(3, 2)>>, 3), C(no, 0)>>, w0),
 Pr(<<A(none), A(noop), I(do(1, <<dt(1, 2)>>))>>, <<C(<<d(2)>>, 1), C(no, 0)>>, w0),
 \* 16: commits from effects, continuations and watchers
 Pr(<<A(do(1, <<com>>)), A(do(2, <<d(3), com, d(3)>>)), A(none)>>, <<C(<<com>>, 0), C(no, 0)>>, w0),
 Pr(<<A(do(1, <<dt(2, 1)>>)), A(none), A(none)>>, <<C(<<com, d(3)>>, 0), C(no, 0)>>, <<<<d(3), com>>, <<d(2)>>>>),
 \* 18: posts
 Pr(<<A(do(1, <<pst(1), d(2), pst(2)>>)), A(do(2, <<pst(3)>>)), A(none)>>, <<C(<<pst(4)>>, 0), C(no, 0)>>, <<<<pst(5)>>, no>>),
 \* 19: thunks
 Pr(<<A(none), T(do(1, <<d(1)>>)), T(seq(futr(2, no, 1), do(3, <<d(1)>>)))>>, c0, w0),
 Pr(<<A(do(4, <<d(3)>>)), T(futr(1, <<d(1)>>, 3)), I(none)>>, <<C(<<d(3)>>, 1), C(no, 0)>>, <<<<d(3)>>, no>>),
 Pr(<<A(none), T(do(1, no)), T(do(2, <<dt(1, 1)>>))>>, <<C(<<d(1)>>, 1), C(no, 1)>>, w0),
 \* 22: everything
 Pr(<<A(seq(thn(1, <<d(3)>>, 2, 1), do(2, <<d(3)>>))), A(seq(do(3, <<d(3)>>), futr(4, no, 3))), A(do(5, no))>>,
    <<C(<<dt(3, 2)>>, 2), C(<<d(3)>>, 0)>>, <<<<dt(3, 2)>>, <<also(3, 3, 2)>>>>),
 Pr(<<I(seq(noop, futr(1, no, 2))), A(thn(2, no, 3, 1)), I(noop)>>, <<C(no, 3), C(no, 3)>>, <<<<d(3)>>, no>>),
 \* 24: empty effects
 Pr(<<A(null), A(seq(null, futr(1, no, 1))), I(null)>>, <<C(<<d(3)>>, 1), C(no, 0)>>, <<<<d(1)>>, no>>),
 Pr(<<A(seq(do(1, <<d(2)>>), null)), A(seq(null, null)), A(seq(seq(null, do(2, no)), null))>>, c0, w0)
>>
\* kinds of stores: 4 transactional + 2 futures + 1 effects
Bit(k, b) == (k \div b) % 2 = 1
Full(p, k, l) == [act |-> p.act, cont |-> p.cont, w |-> p.w, trans |-> Bit(k, 4),
                  fut |-> Bit(k, 2), eff |-> Bit(k, 1), loop |-> l, dbg |-> "no"]
UsesThunk(p) == \E i \in 1..Len(p.act) : p.act[i].th

InitP(p) == P = p /\ S = EmptyS /\ h = <<>>
Init == \E i \in Progs : \E k \in Kinds : \E l \in Loops :
          /\ (UsesThunk(Programs[i]) => Bit(k, 1))
          /\ InitP(Full(Programs[i], k, l))

Obs(s) == [m |-> s.m, g |-> s.last, d |-> s.dl, c |-> s.log, idle |-> s.q = <<>>]
Step(a, s) == /\ S' = s
              /\ h' = Append(h, [a |-> a, o |-> Obs(s)])
              /\ P' = P
S0 == [S EXCEPT !.log = <<>>]

Live == S.acts < MaxActs
DispA(k) == Live /\ Step([op |-> "d", k |-> k], Dispatch(P, S0, k).s)
DispT(k, c) == Live /\ Step([op |-> "dt", k |-> k, c |-> c],
                    RunOps(P, S0, <<<<"dt", k, c>>>>, 1))
DispAlso(k, l, c) == Live /\ Step([op |-> "also", k |-> k, l |-> l, c |-> c],
                    RunOps(P, S0, <<<<"also", k, l, c>>>>, 1))
\* dispatch now, attach the continuation later
Hold(k) == /\ Live /\ P.fut /\ Len(S.held) < 2
           /\ LET r == Dispatch(P, S0, k)
              IN Step([op |-> "hold", k |-> k], [r.s EXCEPT !.held = Append(@, r.f)])
Attach(c) == /\ S.held # <<>>
             /\ LET s1 == [S0 EXCEPT !.held = Tail(@)]
                IN Step([op |-> "attach", c |-> c],
                        Then(P, s1, Head(S.held), <<"cont", c>>).s)
AttachAlso(c) == /\ Len(S.held) = 2
                 /\ LET s1 == [S0 EXCEPT !.held = <<>>]
                        r == Then(P, s1, S.held[1], <<"fut", S.held[2]>>)
                    IN Step([op |-> "attachalso", c |-> c],
                            Then(P, r.s, r.f, <<"cont", c>>).s)
\* the loop runs until something observable happens, or until it has nothing
\* left to do
RECURSIVE StepLoop(_)
StepLoop(s) == IF s.q = <<>> \/ s.log # <<>> THEN s
               ELSE StepLoop(Exec(P, [s EXCEPT !.q = Tail(@)], Head(s.q)))
StepA == P.loop \in {"one", "asio"} /\ S.q # <<>> /\ Step([op |-> "step"], StepLoop(S0))
DrainA == S.q # <<>> /\ Step([op |-> "drain"], Drain(P, S0))
CommitA == /\ P.trans
           /\ Step([op |-> "commit"], Publish(P, S0))

Next == /\ Len(h) < MaxLen
        /\ \/ "d" \in Ops /\ \E k \in 1..Len(P.act) : DispA(k)
           \/ "dt" \in Ops /\ \E k \in 1..Len(P.act) : \E c \in 1..Len(P.cont) : DispT(k, c)
           \/ "hold" \in Ops /\ \E k \in 1..Len(P.act) : Hold(k)
           \/ "hold" \in Ops /\ \E c \in 1..Len(P.cont) : Attach(c) \/ AttachAlso(c)
           \/ "step" \in Ops /\ StepA
           \/ DrainA
           \/ CommitA
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------ random programs
R(x) == {RandomElement(x)}
\* actions 1..3 dispatch later ones; 4 and 5 dispatch nothing
RndOp(lo, tr) ==
  LET x == RandomElement(1..10)
      k == RandomElement(lo..5)
      l == RandomElement(4..5)
      c == RandomElement(2..3)
  IN IF x <= 4 THEN d(k) ELSE IF x <= 6 THEN dt(k, c) ELSE IF x <= 7 THEN also(k, l, c)
     ELSE IF x <= 8 THEN com ELSE pst(x + c)
RndOps(lo, tr) == LET n == RandomElement(0..2) IN
  IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<RndOp(lo, tr)>> ELSE <<RndOp(lo, tr), RndOp(lo, tr)>>
RndLeaf(i, lo) ==
  LET x == RandomElement(0..7)
      k == RandomElement(lo..5)
      c == RandomElement(1..3)
      ops == RndOps(lo, 0)
  IN IF x = 0 THEN null ELSE IF x = 1 THEN noop ELSE IF x <= 3 THEN do(i, ops)
     ELSE IF x <= 5 THEN futr(i, ops, k) ELSE thn(i, ops, k, c)
RndEff(i, lo) ==
  LET x == RandomElement(1..6) IN
  IF x = 1 THEN none ELSE IF x <= 3 THEN RndLeaf(i, lo)
  ELSE IF x <= 5 THEN seq(RndLeaf(i, lo), RndLeaf(i + 1, lo))
  ELSE seq(seq(RndLeaf(i, lo), RndLeaf(i + 1, lo)), RndLeaf(i + 2, lo))
RndAct(i, lo, th) ==
  LET x == RandomElement(1..6)
      e == RndEff(i, lo) IN
  IF th /\ x <= 2 /\ e # none /\ e # null THEN T(e) ELSE IF x = 3 THEN I(e) ELSE A(e)
\* (no continuation attaches itself, directly or not)
RndOp2 == LET x == RandomElement(1..6) IN
  IF x <= 3 THEN d(4 + (x % 2)) ELSE IF x = 4 THEN com ELSE pst(x)
RndOps2 == LET n == RandomElement(0..2) IN
  IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<RndOp2>> ELSE <<RndOp2, RndOp2>>
RndProg(th) ==
  Pr(<<RndAct(1, 2, th), RndAct(4, 3, FALSE), RndAct(7, 4, FALSE), A(do(10, no)), I(none)>>,
     <<C(RndOps(4, 0), RandomElement({0, 4, 5})), C(RndOps2, RandomElement({0, 4, 5})),
       C(no, RandomElement({0, 4}))>>,
     <<RndOps(4, 0), RndOps(3, 0)>>)
CONSTANT Thunks
SimGen == /\ h = <<>> /\ S = EmptyS /\ S.gen = 0
          /\ \E p \in R(TLCEval({TLCEval(RndProg(Thunks))})) :
             \E k \in R(Kinds) : \E l \in R(Loops) : P' = TLCEval(Full(p, k, l))
          /\ S' = [S EXCEPT !.gen = 1]
          /\ UNCHANGED h
SimAct == /\ S.gen > 0 /\ Len(h) < MaxLen
          /\ \E x \in R(Ops \cup {"drain", "commit"}) : \E k \in R(1..Len(P.act)) :
             \E l \in R(4..5) : \E c \in R(1..Len(P.cont)) : \E y \in R(1..3) :
             CASE x = "d" -> DispA(k)
               [] x = "dt" -> IF y = 1 THEN DispAlso(k, l, c) ELSE DispT(k, c)
               [] x = "hold" -> IF y = 1 THEN Attach(c) ELSE IF y = 2 THEN AttachAlso(c) ELSE Hold(k)
               [] x = "step" -> StepA
               [] x = "drain" -> y = 1 /\ DrainA
               [] x = "commit" -> CommitA
Retry == S.gen > 0 /\ Len(h) < MaxLen /\ UNCHANGED vars
SimInit0 == \E k \in Kinds : \E l \in Loops : InitP(Full(Programs[1], k, l))
SimSpec == SimInit0 /\ [][SimGen \/ SimAct \/ Retry]_vars

Emit == PrintT("B" \o ToJson([p |-> P', h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([p |-> P', h |-> h']))

\* -------------------------------------------------------------- properties
\* C15: an automatic store that has nothing left to do shows its model
InvPublished == (S.q = <<>> /\ ~P.trans) => S.last = S.m /\ S.dl = Derived(S.m)
\* C15: published models are prefixes of the history
InvPrefix == Len(S.last) <= Len(S.m) /\ S.last = SubSeq(S.m, 1, Len(S.last))
\* C14: what effects see, and how often they run
InvEffSees == \A i \in 1..Len(S.log) :
  LET e == S.log[i] IN
  /\ (e.t = "eff" /\ ~P.trans) => Len(e.g) >= e.need
  /\ e.t = "eff" => Len(e.m) >= e.need
  /\ Len(e.g) <= Len(e.m) /\ e.g = SubSeq(e.m, 1, Len(e.g))
InvEffOnce == S.due = S.effs + Cardinality({i \in 1..Len(S.q) : S.q[i][1] = "eff"})
\* C15: what watchers see
InvWatch == \A i \in 1..Len(S.log) : S.log[i].t \in {"w1", "w2"} =>
  S.log[i].d = Derived(S.log[i].g)
\* C13: every action is reduced once or still queued
InvCount == S.acts = S.reds + Cardinality({i \in 1..Len(S.q) : S.q[i][1] = "red"})
\* C16: completion happens once, and always
InvOnce == Cardinality({S.done[i] : i \in 1..Len(S.done)}) = Len(S.done)
InvComplete == (S.q = <<>> /\ P.fut) => \A i \in 1..Len(S.prom) : S.prom[i].done
InvDone == \A i \in 1..Len(S.prom) : S.prom[i].done => S.prom[i].cb = <<>>
\* C15: nothing of a transactional store is visible before a commit
OpsCom(ops) == \E i \in 1..Len(ops) : ops[i][1] = "com"
RECURSIVE EffCom(_)
EffCom(e) == CASE e[1] \in {"none", "noop", "null"} -> FALSE
               [] e[1] = "seq" -> EffCom(e[2]) \/ EffCom(e[3])
               [] OTHER -> OpsCom(e[3])
HasCom(p) == \/ \E i \in 1..Len(p.act) : EffCom(p.act[i].e)
             \/ \E i \in 1..Len(p.cont) : OpsCom(p.cont[i].ops)
             \/ \E i \in 1..2 : OpsCom(p.w[i])
PropTrans == [][
  (P.trans /\ Len(h') > Len(h) /\ ~HasCom(P) /\ h'[Len(h')].a.op # "commit") =>
     S'.last = S.last /\ S'.dl = S.dl /\
     \A i \in 1..Len(S'.log) : S'.log[i].t \notin {"w1", "w2"} ]_vars
PropCommit == [][
  (Len(h') > Len(h) /\ h'[Len(h')].a.op = "commit" /\ S.used = {1, 2}) =>
     /\ S'.last = S.m
     /\ S.last # S.m <=> \E i \in 1..Len(S'.log) : S'.log[i].t = "w1"
     /\ S.dl # S'.dl <=> \E i \in 1..Len(S'.log) : S'.log[i].t = "w2" ]_vars
\* C13: the model only grows at its end
PropFold == [][ SubSeq(S'.m, 1, Len(S.m)) = S.m ]_vars
\* C13: without the loop running nothing is reduced
PropQueued == [][ (Len(h') > Len(h) /\ P.loop # "manual" /\
                   h'[Len(h')].a.op \notin {"step", "drain", "commit"}
                   \union (IF P.fut THEN {} ELSE {"dt", "also"})) =>
     S'.m = S.m /\ S'.log = <<>> ]_vars
=============================================================================
