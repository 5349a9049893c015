-------------------------------- MODULE EnhMC --------------------------------
(* Stores made with lists of enhancers: C19.                                 *)
(* The behaviour of the store is that of Store for the set of enhancers, in  *)
(* whatever order they come.  Only what a dependency refers to depends on    *)
(* the order: of two providers of it the one that comes later wins.          *)
EXTENDS DebugMC
CONSTANT Enhs

\* d1 provides A and B, d2 provides A; red replaces the reducer; tx makes the
\* store transactional; plain: the reducer returns no effects
EnhLists == <<
  <<>>,
  <<"fut", "d1", "thunk">>,
  <<"d1", "d2", "thunk", "fut">>,
  <<"d2", "d1", "fut">>,
  <<"thunk", "fut">>,
  <<"thunk", "d1", "d2">>,
  <<"red", "d1", "thunk">>,
  <<"d1", "red", "fut", "thunk", "d2">>,
  <<"d1", "lin", "thunk", "fut">>,
  <<"fut", "lin", "d2">>,
  <<"d2", "d1", "tree", "thunk">>,
  <<"red", "lin", "fut", "d1">>,
  <<"tx", "thunk", "fut">>,
  <<"d1", "thunk", "tx", "d2">>,
  <<"lin", "tx", "fut">>,
  <<"plain", "thunk">>,
  <<"plain", "red", "d1", "thunk", "fut">>,
  <<"plain", "tree", "thunk", "d1">>,
  <<"plain", "red", "d2", "fut">>,
  <<"red", "tree", "d1", "thunk", "fut", "d2">>,
  <<"d2", "fut", "lin", "d1", "thunk", "tx">> >>
Has2(e, x) == \E i \in 1..Len(e) : e[i] = x
Last2(e, xs) == LET is == {i \in 1..Len(e) : e[i] \in xs} IN
  IF is = {} THEN "" ELSE e[CHOOSE i \in is : \A j \in is : j <= i]
EFull(p, n, l) ==
  LET e == EnhLists[n] IN
  [act |-> p.act, cont |-> p.cont, w |-> p.w, trans |-> Has2(e, "tx"),
   fut |-> Has2(e, "fut"),
   \* (a thunk has an effect, and the debugger always returns one)
   eff |-> ~Has2(e, "plain") \/ Has2(e, "thunk"), loop |-> l,
   dbg |-> IF Has2(e, "lin") THEN "lin" ELSE IF Has2(e, "tree") THEN "tree" ELSE "no",
   enh |-> e,
   depA |-> IF Last2(e, {"d1", "d2"}) = "d2" THEN 2
            ELSE IF Has2(e, "d1") THEN 1 ELSE 0]
\* programs that a list can run
EAllowed(p, n) ==
  /\ UsesThunk(p) => Has2(EnhLists[n], "thunk")
  /\ Has2(EnhLists[n], "plain") => \A i \in 1..Len(p.act) : p.act[i].th \/ p.act[i].e = none
EInit == \E i \in Progs : \E n \in Enhs : \E l \in Loops :
           EAllowed(Programs[i], n) /\ InitP(EFull(Programs[i], n, l))
ENext == /\ Len(h) < MaxLen
         /\ \/ \E k \in 1..Len(P.act) : DDisp(k)
            \/ "dt" \in Ops /\ \E k \in 1..Len(P.act) : \E c \in 1..Len(P.cont) : DDispT(k, c)
            \/ P.dbg # "no" /\ "dbg" \in Ops /\
                  \/ DbgA(<<"undo">>) \/ DbgA(<<"pause">>) \/ DbgA(<<"resume">>)
                  \/ DbgA(<<"goto", IF P.dbg = "lin" THEN 1 ELSE <<<<0, 0>>>>>>)
            \/ DDrain \/ DCommit
ESpec == EInit /\ [][ENext]_vars

\* random programs and lists
Strip(p) == [p EXCEPT !.act = [i \in 1..Len(p.act) |->
                IF p.act[i].th THEN p.act[i] ELSE [p.act[i] EXCEPT !.e = none]]]
ESimGen == /\ h = <<>> /\ S = EmptyS /\ S.gen = 0
           /\ \E n \in R(Enhs) : \E l \in R(Loops) :
              \E p \in R(TLCEval({TLCEval(RndProg(Has2(EnhLists[n], "thunk")))})) :
                P' = TLCEval(EFull(IF Has2(EnhLists[n], "plain") THEN Strip(p) ELSE p, n, l))
           /\ S' = [S EXCEPT !.gen = 1]
           /\ UNCHANGED h
ESimAct == /\ S.gen > 0 /\ Len(h) < MaxLen
           /\ \E x \in R(1..12) : \E k \in R(1..Len(P.act)) : \E c \in R(1..Len(P.cont)) :
              \E g \in R(IF P.dbg = "no" THEN {0} ELSE Gotos) : \E y \in R(1..3) :
              CASE x <= 4 -> DDisp(k)
                [] x <= 6 -> DDispT(k, c)
                [] x = 7 -> P.dbg # "no" /\ DbgA(<<"goto", g>>)
                [] x = 8 -> P.dbg # "no" /\ DbgA(<<"undo">>)
                [] x = 9 -> P.dbg # "no" /\ y = 1 /\
                            DbgA(IF S.D.paused THEN <<"resume">> ELSE <<"pause">>)
                [] x = 10 -> DStepLoop
                [] x = 11 -> y = 1 /\ DDrain
                [] x = 12 -> DCommit
ESimInit == \E n \in Enhs : \E l \in Loops : InitP(EFull(Programs[1], n, l))
ESimSpec == ESimInit /\ [][ESimGen \/ ESimAct \/ Retry]_vars

\* -------------------------------------------------------------- properties
\* thunks leave the model and the history of the debugger alone
PropThunk == [][
  (Len(h') > Len(h) /\ P.loop = "manual" /\ ~P.trans /\ P.w = <<no, no>> /\
   h'[Len(h')].a.op = "d" /\ P.act[h'[Len(h')].a.k].th /\
   S'.acts = S.acts + 1) =>
     /\ S'.m = S.m /\ S'.D = S.D
     /\ \E i \in 1..Len(S'.log) : S'.log[i].t = "eff"
     /\ \A i \in 1..Len(S'.log) : S'.log[i].t \notin {"w1", "w2"} ]_vars
\* (thunks run when the debugger is paused)
PropPausedE == [][ (S.D.paused /\ S'.D.paused /\ \A i \in 1..Len(S.q) : S.q[i][1] # "dbg") =>
                    (S'.D.h = S.D.h /\ S'.D.t = S.D.t) ]_vars
\* every action and every thunk is processed, is queued or waits for the
\* debugger to resume
InvAll == S.acts = S.reds + Len(S.D.pend) + Cardinality({i \in 1..Len(S.q) : S.q[i][1] = "red"})
=============================================================================
