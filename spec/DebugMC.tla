------------------------------- MODULE DebugMC -------------------------------
(* Histories of stores with a debugger: C24, C25, C26, C27.                  *)
EXTENDS StoreMC
CONSTANT Dbgs
dview == <<[S EXCEPT !.log = <<>>], P, Len(h)>>

DFull(p, k, l, g) == [Full(p, k, l) EXCEPT !.dbg = g]
DInit == \E i \in Progs : \E k \in Kinds : \E l \in Loops : \E g \in Dbgs :
           InitP(DFull(Programs[i], k, l, g))

\* what the debugger shows
\* (the summary of a tree lists, for each branch that starts at a position, its
\* runs of steps without branches, each with what branches after it)
At(t, a) == \E n \in t : n.a = a
RECURSIVE SumB(_, _, _), SumH(_, _, _, _, _)
SumB(t, p, b) == IF At(t, Append(p, <<b, 0>>)) THEN <<SumH(t, p, b, 0, 0)>> \o SumB(t, p, b + 1)
                 ELSE <<>>
SumH(t, p, b, s, acc) ==
  LET a == Append(p, <<b, s>>)  sub == SumB(t, a, 0) IN
  IF ~At(t, a) THEN <<[n |-> acc, b |-> <<>>]>>
  ELSE IF sub = <<>> THEN SumH(t, p, b, s + 1, acc + 1)
  ELSE <<[n |-> acc, b |-> sub]>> \o SumH(t, p, b, s + 1, 0)
RECURSIVE CntB(_), CntH(_)
CntB(x) == IF x = <<>> THEN 0 ELSE CntH(Head(x)) + CntB(Tail(x))
CntH(y) == IF y = <<>> THEN 0
           ELSE Head(y).n + (IF Head(y).b = <<>> THEN 0 ELSE 1 + CntB(Head(y).b)) + CntH(Tail(y))
ObsD(x) == [paused |-> x.paused, pend |-> x.pend, h |-> x.h, c |-> x.c, t |-> x.t, a |-> x.a,
            s |-> SumB(x.t, <<>>, 0)]
DObs(s) == [m |-> s.m, g |-> s.last, d |-> s.dl, c |-> s.log, idle |-> s.q = <<>>,
            D |-> ObsD(s.lD)]
DStep(a, s) == S' = s /\ h' = Append(h, [a |-> a, o |-> DObs(s)]) /\ P' = P

DbgA(a) == DStep([op |-> "dbg", x |-> a], DispatchD(P, S0, a).s)
\* positions that exist, and some that do not
Gotos == IF P.dbg = "lin" THEN 0..(Len(S.D.h) + 1)
         ELSE {<<>>} \cup {n.a : n \in S.D.t}
              \cup {Append(n.a, <<1, 0>>) : n \in S.D.t}
              \cup {[n.a EXCEPT ![Len(n.a)] = <<n.a[Len(n.a)][1], n.a[Len(n.a)][2] + 1>>] : n \in S.D.t}
DDisp(k) == Live /\ DStep([op |-> "d", k |-> k], Dispatch(P, S0, k).s)
DDispT(k, c) == Live /\ DStep([op |-> "dt", k |-> k, c |-> c],
                              RunOps(P, S0, <<<<"dt", k, c>>>>, 1))
DDrain == S.q # <<>> /\ DStep([op |-> "drain"], Drain(P, S0))
DStepLoop == P.loop \in {"one", "asio"} /\ S.q # <<>> /\ DStep([op |-> "step"], StepLoop(S0))
DCommit == P.trans /\ DStep([op |-> "commit"], Publish(P, S0))

DNext == /\ Len(h) < MaxLen
         /\ \/ \E k \in 1..Len(P.act) : DDisp(k)
            \/ "dt" \in Ops /\ \E k \in 1..Len(P.act) : \E c \in 1..Len(P.cont) : DDispT(k, c)
            \/ \E g \in Gotos : DbgA(<<"goto", g>>)
            \/ DbgA(<<"undo">>)
            \/ P.dbg = "lin" /\ DbgA(<<"redo">>)
            \/ "pause" \in Ops /\ (DbgA(<<"pause">>) \/ DbgA(<<"resume">>))
            \/ DDrain \/ DCommit
            \/ "step" \in Ops /\ DStepLoop
DSpec == DInit /\ [][DNext]_vars

DSimGen == /\ h = <<>> /\ S = EmptyS /\ S.gen = 0
           /\ \E p \in R(TLCEval({TLCEval(RndProg(FALSE))})) :
              \E k \in R(Kinds) : \E l \in R(Loops) : \E g \in R(Dbgs) :
                P' = TLCEval(DFull(p, k, l, g))
           /\ S' = [S EXCEPT !.gen = 1]
           /\ UNCHANGED h
DSimAct == /\ S.gen > 0 /\ Len(h) < MaxLen
           /\ \E x \in R(1..12) : \E k \in R(1..Len(P.act)) : \E c \in R(1..Len(P.cont)) :
              \E g \in R(Gotos) : \E y \in R(1..3) :
              CASE x <= 4 -> DDisp(k)
                [] x = 5 -> DDispT(k, c)
                [] x <= 7 -> DbgA(<<"goto", g>>)
                [] x = 8 -> DbgA(<<"undo">>)
                [] x = 9 -> IF P.dbg = "lin" THEN DbgA(<<"redo">>) ELSE DbgA(<<"undo">>)
                [] x = 10 -> DbgA(IF y = 1 \/ ~("pause" \in Ops) THEN <<"undo">>
                                  ELSE IF S.D.paused THEN <<"resume">> ELSE <<"pause">>)
                [] x = 11 -> IF y = 1 THEN DDrain ELSE DStepLoop
                [] x = 12 -> IF y = 1 THEN DDrain ELSE DCommit
DSimInit == \E k \in Kinds : \E l \in Loops : \E g \in Dbgs : InitP(DFull(Programs[1], k, l, g))
DSimSpec == DSimInit /\ [][DSimGen \/ DSimAct \/ Retry]_vars

\* -------------------------------------------------------------- properties
Red(m, k) == IF P.act[k].id THEN m ELSE Append(m, k)
\* C24
InvLin == P.dbg = "lin" =>
  /\ S.D.c \in 0..Len(S.D.h)
  /\ \A i \in 1..Len(S.D.h) : S.D.h[i].m = Red(IF i = 1 THEN <<>> ELSE S.D.h[i - 1].m, S.D.h[i].k)
  /\ S.m = IF S.D.c = 0 THEN <<>> ELSE S.D.h[S.D.c].m
\* C26
InvTree == P.dbg = "tree" =>
  /\ S.D.a = <<>> \/ \E n \in S.D.t : n.a = S.D.a /\ n.m = S.m
  /\ S.D.a = <<>> => S.m = <<>>
  /\ \A n \in S.D.t : /\ n.p = <<>> \/ \E o \in S.D.t : o.a = n.p
                      /\ n.m = Red(IF n.p = <<>> THEN <<>> ELSE Node(S.D, n.p).m, n.k)
                      /\ Parent(n.a) = n.p
                      /\ \A o \in S.D.t : o.a = n.a => o = n
InvSummary == CntB(SumB(S.D.t, <<>>, 0)) = Cardinality(S.D.t)
PropTree == [][S.D.t \subseteq S'.D.t]_vars
\* C25: every action is queued, pending, or was reduced once
InvAct == S.acts = S.reds + Len(S.D.pend) + Cardinality({i \in 1..Len(S.q) : S.q[i][1] = "red"})
InvPend == ~S.D.paused => S.D.pend = <<>>
PropPaused == [][ (S.D.paused /\ S'.D.paused /\ \A i \in 1..Len(S.q) : S.q[i][1] # "dbg") =>
                    (S'.D.h = S.D.h /\ S'.D.t = S.D.t /\ S'.reds = S.reds) ]_vars
\* C24: only actions change the history, by discarding what comes after the
\* position (when a single one is processed)
PropTrunc == [][ (P.dbg = "lin" /\ S'.reds = S.reds) => S'.D.h = S.D.h ]_vars
PropTrunc1 == [][ (P.dbg = "lin" /\ P.loop = "manual" /\ ~P.eff /\ Len(h') > Len(h)
                   /\ h'[Len(h')].a.op = "d" /\ ~S.D.paused /\ P.w = <<no, no>>) =>
     /\ Len(S'.D.h) = S.D.c + 1 /\ SubSeq(S'.D.h, 1, S.D.c) = SubSeq(S.D.h, 1, S.D.c)
     /\ S'.D.c = S.D.c + 1 ]_vars
\* effects run once
InvEff == S.due = S.effs + Cardinality({i \in 1..Len(S.q) : S.q[i][1] = "eff"})
InvShown == (S.q = <<>> /\ ~P.trans) => S.lD = S.D /\ S.last = S.m /\ S.dl = Derived(S.m)
=============================================================================
