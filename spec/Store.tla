-------------------------------- MODULE Store --------------------------------
(* lager::store: dispatch, reducers, effects, futures, publication.          *)
(*                                                                           *)
(* The model of the store is the sequence of the actions that were reduced   *)
(* (except those that leave the model as it is).  A program P says what the  *)
(* effects, continuations and watchers do:                                   *)
(*   P.act[k]  action k: [id |-> leaves the model alone, th |-> is a thunk,   *)
(*             e |-> its effect]                                             *)
(*   P.cont[c] continuation: [ops, ret |-> dispatches this action and         *)
(*             returns its future, or 0]                                     *)
(*   P.w       what the watchers of the store and of a derived reader do,    *)
(*             the first time that they are called                           *)
(*   P.trans, P.fut, P.eff, P.loop   kind of store and of event loop         *)
(*   P.dbg   "no", or the debugger: "lin" (linear) or "tree"                  *)
(* effects: <<"none">> <<"noop">> <<"null">> <<"do", id, ops>> <<"fut", id, ops, k>>     *)
(*          <<"then", id, ops, k, c>> <<"seq", e1, e2>>                       *)
(*          (null: an effect that is there, but empty)                       *)
(*          <<"pz">> <<"rs">> (of the debuggers: the loop pauses and resumes)  *)
(* ops:     <<"d", k>> <<"dt", k, c>> <<"also", k1, k2, c>> <<"com">>         *)
(*          <<"post", id>>                                                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Promise == [done |-> FALSE, cb |-> <<>>, p |-> 0]
\* the state of a debugger: the linear one records the history h and a position
\* in it; the tree one records the steps t, each with its address, and the
\* address of the current one.  (An address says for each level the branch and
\* the step in it.)
EmptyD == [paused |-> FALSE, pend |-> <<>>, h |-> <<>>, c |-> 0, t |-> {}, a |-> <<>>]
EmptyS == [D |-> EmptyD, lD |-> EmptyD, m |-> <<>>, last |-> <<>>, dl |-> 0, nsd |-> FALSE, n1 |-> FALSE,
           n2 |-> FALSE, q |-> <<>>, run |-> FALSE, prom |-> <<>>, log |-> <<>>,
           held |-> <<>>, used |-> {}, done |-> <<>>, gen |-> 0,
           \* ghosts: actions dispatched and reduced, effects due and run
           acts |-> 0, reds |-> 0, due |-> 0, effs |-> 0]
Derived(m) == Len(m) % 2
IsNull(e) == e[1] = "null"

\* need: the length of the model that the event has to see at least
LogN(S, t, k, need) == [S EXCEPT !.log = Append(@,
   [t |-> t, k |-> k, m |-> S.m, g |-> S.last, d |-> S.dl, need |-> need])]
Log(S, t, k) == LogN(S, t, k, 0)
NewProm(S) == [S EXCEPT !.prom = Append(@, Promise)]

RECURSIVE Post(_, _, _), Drain(_, _), Exec(_, _, _), RunOps(_, _, _, _),
          RunEff(_, _, _, _), Then(_, _, _, _), RunCb(_, _, _), ExecCb(_, _, _, _),
          Fulfil(_, _, _), Dispatch(_, _, _), DbgUpdate(_, _, _), DbgAll(_, _, _, _), Publish(_, _), Notify1(_, _), Notify2(_, _)

Post(P, S, x) ==
  LET S1 == [S EXCEPT !.q = Append(@, x)] IN
  IF P.loop = "manual" /\ ~S.run
  THEN [Drain(P, [S1 EXCEPT !.run = TRUE]) EXCEPT !.run = FALSE]
  ELSE S1
Drain(P, S) == IF S.q = <<>> THEN S
               ELSE Drain(P, Exec(P, [S EXCEPT !.q = Tail(@)], Head(S.q)))

\* result: [s, f] (f: the future, 0 when there is none)
Dispatch(P, S, k) ==
  IF P.fut
  THEN LET S1 == NewProm(S)
           p == Len(S1.prom)
       IN [s |-> Post(P, [S1 EXCEPT !.acts = @ + 1], <<"red", k, p>>), f |-> p]
  ELSE [s |-> Post(P, [S EXCEPT !.acts = @ + 1], <<"red", k, 0>>), f |-> 0]

\* dispatches an action of the debugger
DispatchD(P, S, a) ==
  IF P.fut
  THEN LET S1 == NewProm(S)
           p == Len(S1.prom)
       IN [s |-> Post(P, S1, <<"dbg", a, p>>), f |-> p]
  ELSE [s |-> Post(P, S, <<"dbg", a, 0>>), f |-> 0]

Fulfil(P, S, p) ==
  IF p = 0 THEN S
  ELSE LET pr == S.prom[p]
           S1 == [S EXCEPT !.prom[p] = [done |-> TRUE, cb |-> <<>>, p |-> 0],
                           !.done = Append(@, p)]
       IN IF pr.cb # <<>> THEN Post(P, S1, <<"cb", pr.cb, pr.p>>) ELSE S1

Then(P, S, f, cb) ==
  IF f = 0 THEN LET r == RunCb(P, S, cb) IN [s |-> r.s, f |-> r.f]
  ELSE LET S1 == NewProm(S)
           p == Len(S1.prom)
       IN IF S.prom[f].done
          THEN [s |-> Post(P, S1, <<"cb", cb, p>>), f |-> p]
          ELSE [s |-> [S1 EXCEPT !.prom[f].cb = cb, !.prom[f].p = p], f |-> p]

\* runs the function of a continuation: void |-> it returns no future
RunCb(P, S, cb) ==
  CASE cb[1] = "cont" ->
         LET c == P.cont[cb[2]]
             S1 == RunOps(P, Log(S, "cont", cb[2]), c.ops, 1)
         IN IF c.ret = 0 THEN [s |-> S1, f |-> 0, void |-> TRUE]
            ELSE LET r == Dispatch(P, S1, c.ret)
                 IN [s |-> r.s, f |-> r.f, void |-> FALSE]
    [] cb[1] = "ful" -> [s |-> Fulfil(P, S, cb[2]), f |-> 0, void |-> TRUE]
    [] cb[1] = "eff" -> LET r == RunEff(P, S, cb[2], cb[3])
                        IN [s |-> r.s, f |-> r.f, void |-> FALSE]
    [] cb[1] = "fut" -> [s |-> S, f |-> cb[2], void |-> FALSE]
ExecCb(P, S, cb, p) ==
  LET r == RunCb(P, S, cb) IN
  IF r.void THEN Fulfil(P, r.s, p) ELSE Then(P, r.s, r.f, <<"ful", p>>).s

RunOps(P, S, ops, i) ==
  IF i > Len(ops) THEN S
  ELSE LET o == ops[i]
           S1 == CASE o[1] = "d" -> Dispatch(P, S, o[2]).s
                   [] o[1] = "dt" -> LET r == Dispatch(P, S, o[2])
                                     IN Then(P, r.s, r.f, <<"cont", o[3]>>).s
                   [] o[1] = "also" ->
                        LET a == Dispatch(P, S, o[2])
                            b == Dispatch(P, a.s, o[3])
                            r == Then(P, b.s, a.f, <<"fut", b.f>>)
                        IN Then(P, r.s, r.f, <<"cont", o[4]>>).s
                   [] o[1] = "com" -> IF P.trans THEN Publish(P, S) ELSE S
                   [] o[1] = "post" -> Post(P, S, <<"fn", o[2]>>)
       IN RunOps(P, S1, ops, i + 1)

RunEff(P, S, e, n) ==
  CASE e[1] \in {"none", "noop"} -> [s |-> S, f |-> 0]
    [] e[1] \in {"pz", "rs"} -> [s |-> Log(S, e[1], 0), f |-> 0]
    [] e[1] = "do" -> [s |-> RunOps(P, LogN(S, "eff", e[2], n), e[3], 1), f |-> 0]
    [] e[1] = "fut" -> Dispatch(P, RunOps(P, LogN(S, "eff", e[2], n), e[3], 1), e[4])
    [] e[1] = "then" ->
         LET r == Dispatch(P, RunOps(P, LogN(S, "eff", e[2], n), e[3], 1), e[4])
         IN Then(P, r.s, r.f, <<"cont", e[5]>>)
    [] e[1] = "seq" /\ IsNull(e[2]) -> IF IsNull(e[3]) THEN [s |-> S, f |-> 0]
                                        ELSE RunEff(P, S, e[3], n)
    [] e[1] = "seq" /\ ~IsNull(e[2]) /\ IsNull(e[3]) -> RunEff(P, S, e[2], n)
    [] e[1] = "seq" /\ ~IsNull(e[2]) /\ ~IsNull(e[3]) -> LET r == RunEff(P, S, e[2], n)
                       IN Then(P, r.s, r.f, <<"eff", e[3], n>>)

Exec(P, S, x) ==
  CASE x[1] = "red" /\ P.dbg # "no" /\ ~P.act[x[2]].th -> Exec(P, S, <<"dbg", <<"act", x[2]>>, x[3]>>)
    [] x[1] = "red" ->
         LET k == x[2]
             a == P.act[k]
             S0 == [S EXCEPT !.reds = @ + 1]
             S1 == IF a.th THEN S0 ELSE Log(S0, "red", k)
             m2 == IF a.id \/ a.th THEN S.m ELSE Append(S.m, k)
             S2 == IF P.eff /\ ~IsNull(a.e)
                   THEN Post(P, [S1 EXCEPT !.due = @ + 1], <<"eff", a.e, x[3], Len(m2)>>)
                   ELSE IF ~P.trans THEN Post(P, S1, <<"pub", x[3]>>)
                   ELSE Fulfil(P, S1, x[3])
         IN IF a.id \/ a.th THEN S2 ELSE [S2 EXCEPT !.m = m2, !.nsd = TRUE]
    [] x[1] = "eff" ->
         LET S1 == IF P.trans THEN S ELSE Publish(P, S)
             r == RunEff(P, [S1 EXCEPT !.effs = @ + 1], x[2], x[4])
         IN IF P.fut THEN Then(P, r.s, r.f, <<"ful", x[3]>>).s ELSE r.s
    [] x[1] = "dbg" ->
         LET r == DbgUpdate(P, S, x[2])
             S1 == Post(P, [r.s EXCEPT !.due = @ + 1], <<"eff", r.e, x[3], 0>>)
         IN IF r.s.D = S.D THEN S1 ELSE [S1 EXCEPT !.nsd = TRUE]
    [] x[1] = "pub" -> Fulfil(P, Publish(P, S), x[2])
    [] x[1] = "cb" -> ExecCb(P, S, x[2], x[3])
    [] x[1] = "fn" -> Log(S, "fn", x[2])

\* ------------------------------------------------------------- debuggers
Node(D, a) == CHOOSE n \in D.t : n.a = a
Has(D, a) == a = <<>> \/ \E n \in D.t : n.a = a
\* the address of the step that precedes that of address a
Parent(a) == LET l == a[Len(a)] IN
  IF l[2] > 0 THEN [a EXCEPT ![Len(a)] = <<l[1], l[2] - 1>>] ELSE SubSeq(a, 1, Len(a) - 1)
Next1(a) == LET l == a[Len(a)] IN [a EXCEPT ![Len(a)] = <<l[1], l[2] + 1>>]
\* the address of a new step that continues that of address a: that of the next
\* step of the same branch, or that of the first step of a new branch
NewAddr(D, a) ==
  IF a # <<>> /\ ~Has(D, Next1(a)) THEN Next1(a)
  ELSE Append(a, <<Cardinality({n \in D.t : Len(n.a) = Len(a) + 1 /\ SubSeq(n.a, 1, Len(a)) = a
                                            /\ n.a[Len(n.a)][2] = 0}), 0>>)
\* what the debugger makes visible
Visible(P, D) ==
  IF P.dbg = "lin" THEN IF D.c = 0 THEN <<>> ELSE D.h[D.c].m
  ELSE IF D.a = <<>> THEN <<>> ELSE Node(D, D.a).m
SetD(P, S, D) == [S EXCEPT !.D = D, !.m = Visible(P, D)]
\* reduces action k: [s, e]
DbgAct(P, S, k) ==
  LET D == S.D
      a == P.act[k]
      S1 == Log([S EXCEPT !.reds = @ + 1], "red", k)
      m2 == IF a.id THEN S.m ELSE Append(S.m, k)
      e == IF P.eff /\ a.e # <<"none">> /\ ~IsNull(a.e) THEN a.e ELSE <<"noop">>
  IN IF P.dbg = "lin"
     THEN [s |-> SetD(P, S1, [D EXCEPT !.h = Append(SubSeq(@, 1, D.c), [k |-> k, m |-> m2]),
                                       !.c = D.c + 1]), e |-> e]
     ELSE LET w == NewAddr(D, D.a)
          IN [s |-> SetD(P, S1, [D EXCEPT !.t = @ \cup {[a |-> w, k |-> k, m |-> m2, p |-> D.a]},
                                          !.a = w]), e |-> e]
DbgAll(P, S, pend, e) ==
  IF pend = <<>> THEN [s |-> S, e |-> e]
  ELSE LET r == DbgAct(P, S, Head(pend))
       IN DbgAll(P, r.s, Tail(pend), <<"seq", e, r.e>>)
DbgUpdate(P, S, x) ==
  LET D == S.D
      keep == [s |-> S, e |-> <<"noop">>]
      move(d) == [s |-> SetD(P, S, d), e |-> <<"noop">>]
  IN CASE x[1] = "act" ->
            IF D.paused THEN [s |-> [S EXCEPT !.D.pend = Append(@, x[2])], e |-> <<"noop">>]
            ELSE DbgAct(P, S, x[2])
       [] x[1] = "goto" ->
            IF P.dbg = "lin"
            THEN IF x[2] <= Len(D.h) THEN move([D EXCEPT !.c = x[2]]) ELSE keep
            ELSE IF Has(D, x[2]) THEN move([D EXCEPT !.a = x[2]]) ELSE keep
       [] x[1] = "undo" ->
            IF P.dbg = "lin"
            THEN IF D.c > 0 THEN move([D EXCEPT !.c = @ - 1]) ELSE keep
            ELSE IF D.a # <<>> THEN move([D EXCEPT !.a = Parent(@)]) ELSE keep
       [] x[1] = "redo" -> IF D.c < Len(D.h) THEN move([D EXCEPT !.c = @ + 1]) ELSE keep
       [] x[1] = "pause" -> [s |-> [S EXCEPT !.D.paused = TRUE], e |-> <<"pz">>]
       [] x[1] = "resume" ->
            LET r == DbgAll(P, [S EXCEPT !.D.paused = FALSE, !.D.pend = <<>>], D.pend, <<"noop">>)
            IN [s |-> r.s, e |-> <<"seq", <<"rs">>, r.e>>]

SendDown(S) ==
  IF ~S.nsd THEN S
  ELSE LET d == Derived(S.m)
           S1 == [S EXCEPT !.last = S.m, !.lD = S.D, !.nsd = FALSE, !.n1 = TRUE]
       IN IF d # S.dl THEN [S1 EXCEPT !.dl = d, !.n2 = TRUE] ELSE S1
RunW(P, S, i) == IF i \in S.used THEN S
                 ELSE RunOps(P, [S EXCEPT !.used = @ \cup {i}], P.w[i], 1)
Notify1(P, S) ==
  IF S.n1 /\ ~S.nsd
  THEN Notify2(P, RunW(P, Log([S EXCEPT !.n1 = FALSE], "w1", 0), 1))
  ELSE S
Notify2(P, S) ==
  IF S.n2 THEN RunW(P, Log([S EXCEPT !.n2 = FALSE], "w2", 0), 2) ELSE S
Publish(P, S) == Notify1(P, SendDown(S))
=============================================================================
