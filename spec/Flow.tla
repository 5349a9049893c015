-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* The cursor graph of lager: states, sensors, constants, derived readers  *)
(* and cursors, setters, watchers, commit.                                 *)
(*                                                                         *)
(* The state of the system is one record S.  One public call of the        *)
(* library is one action; inside of a call the two propagation phases      *)
(* (SendDown, Notify) and the writes (SendUp) are recursive operators that *)
(* follow the structure of lager/detail/nodes.hpp, because watchers can    *)
(* call back into the graph at any point of the notification phase.        *)
(*                                                                         *)
(* Values are flat sequences of integers modulo 3: a state holds <<x, y>>, *)
(* a lens on the first element shows <<x>>, with(a, b) shows a \o b.       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

K == 3

\* ---------------------------------------------------------------- values
At(v, i)  == IF i <= Len(v) THEN v[i] ELSE 0
RECURSIVE SumFrom(_, _)
SumFrom(v, i) == IF i > Len(v) THEN 0 ELSE v[i] + SumFrom(v, i + 1)
Sum(v)    == SumFrom(v, 1)
Upd(v, i, x) == IF i <= Len(v) THEN [v EXCEPT ![i] = x] ELSE v
Shift(v, d)  == TLCEval([i \in 1..Len(v) |-> (v[i] + d) % K])

\* functions used by map
Fn(f, v) == CASE f = "id"  -> v
              [] f = "inc" -> Shift(v, 1)
              [] f = "dec" -> Shift(v, K - 1)
              [] f = "sum" -> <<Sum(v) % K>>
              [] f = "par" -> <<Sum(v) % 2>>
              [] f = "fst" -> <<At(v, 1)>>
              [] f = "low" -> TLCEval([i \in 1..Len(v) |-> v[i] % 2])
              [] f = "dif" -> <<(At(v, 1) + K - At(v, 2)) % K>>
              [] f = "eq"  -> <<IF At(v, 1) = At(v, 2) THEN 1 ELSE 0>>
\* predicates used by filter
Pred(p, v) == CASE p = "even" -> Sum(v) % 2 = 0
                [] p = "nz"   -> At(v, 1) # 0
                [] p = "no2"  -> \A i \in 1..Len(v) : v[i] # 2
                [] p = "ne"   -> At(v, 1) # At(v, 2)
\* lenses on one (flat) value
View(l, v) == CASE l = "e1"  -> <<At(v, 1)>>
                [] l = "e2"  -> <<At(v, 2)>>
                [] l = "inc" -> Shift(v, 1)
                [] l = "id"  -> v
Put(l, v, x) == CASE l = "e1"  -> Upd(v, 1, At(x, 1))
                  [] l = "e2"  -> Upd(v, 2, At(x, 1))
                  [] l = "inc" -> Shift(x, K - 1)
                  [] l = "id"  -> x
\* lenses on a tuple of two values
View2(l, a, b) == CASE l = "cat" -> a \o b
                    [] l = "l1"  -> a
                    [] l = "l2"  -> b
                    [] l = "l1e1" -> <<At(a, 1)>>
Put2(l, a, b, x) ==
  CASE l = "cat" -> << TLCEval([i \in 1..Len(a) |-> At(x, i)]),
                       TLCEval([i \in 1..Len(b) |-> At(x, Len(a) + i)]) >>
    [] l = "l1"  -> <<x, b>>
    [] l = "l2"  -> <<a, x>>
    [] l = "l1e1" -> <<Upd(a, 1, At(x, 1)), b>>

\* the parts of a value that has the parts of three other ones
Put3(a, b, c, x) ==
  << TLCEval([i \in 1..Len(a) |-> At(x, i)]),
     TLCEval([i \in 1..Len(b) |-> At(x, Len(a) + i)]),
     TLCEval([i \in 1..Len(c) |-> At(x, Len(a) + Len(b) + i)]) >>

\* ---------------------------------------------------------------- chains
\* A chain of steps of an expression with(...).step.step...: <<kind, arg>>,
\* z = zoom, m = map, f = filter, x = xform(map g, map g^-1)
NoVal == <<-1>>
RECURSIVE ChainGet(_, _, _)
ChainGet(st, i, v) ==
  IF i > Len(st) THEN v
  ELSE CASE st[i][1] = "z" -> ChainGet(st, i + 1, View(st[i][2], v))
         [] st[i][1] = "m" -> ChainGet(st, i + 1, Fn(st[i][2], v))
         [] st[i][1] = "x" -> ChainGet(st, i + 1, Fn(st[i][2], v))
         [] st[i][1] = "f" -> IF Pred(st[i][2], v) THEN ChainGet(st, i + 1, v)
                                                   ELSE NoVal
Inv(f) == IF f = "inc" THEN "dec" ELSE "id"
RECURSIVE ChainPut(_, _, _, _)
ChainPut(st, i, v, x) ==
  IF i > Len(st) THEN x
  ELSE IF st[i][1] = "z" THEN
         Put(st[i][2], v, ChainPut(st, i + 1, View(st[i][2], v), x))
       ELSE Fn(Inv(st[i][2]), ChainPut(st, i + 1, Fn(st[i][2], v), x))
HasFilter(st) == \E i \in 1..Len(st) : st[i][1] = "f"
ChainWritable(st) == \A i \in 1..Len(st) : st[i][1] \in {"z", "x"}

\* ------------------------------------------------------------- structure
Node(k, p, f) == [k |-> k, p |-> p, f |-> f]
Roots(S)   == {n \in 1..Len(S.nd) : S.nd[n].k \in {"st", "sa", "se", "co"}}
Count(S)   == Len(S.nd)
IsState(S, n) == S.nd[n].k \in {"st", "sa"}

RECURSIVE Writable(_, _)
Writable(S, n) ==
  LET d == S.nd[n] IN
  CASE d.k \in {"st", "sa", "sut", "sua"} -> TRUE
    [] d.k \in {"lens", "lens2", "lens3", "merge", "xinc", "xupd", "xmod", "x2map", "x2upd"} ->
         \A i \in 1..Len(d.p) : Writable(S, d.p[i])
    [] d.k \in {"ch1", "ch2"} -> /\ ChainWritable(d.f)
                                 /\ \A i \in 1..Len(d.p) : Writable(S, d.p[i])
    [] OTHER -> FALSE

Anc(S, n) == S.anc[n]          \* ancestors, including n
AncOf(S, d) == UNION {S.anc[d.p[i]] : i \in 1..Len(d.p)}
RootsOf(S, n) == Anc(S, n) \cap Roots(S)
Desc(S, n) == {m \in 1..Count(S) : n \in Anc(S, m)}

\* a node (or an ancestor) reaches the same node through two parents
Diamond(S, n) == \E m \in Anc(S, n) :
  \E i, j \in 1..Len(S.nd[m].p) :
     i # j /\ Anc(S, S.nd[m].p[i]) \cap Anc(S, S.nd[m].p[j]) # {}
StickyKind(d) == d.k \in {"filt", "filt2", "filt3"} \/
                 (d.k \in {"ch1", "ch2"} /\ HasFilter(d.f))
Sticky(S, n)  == \E m \in Anc(S, n) : StickyKind(S.nd[m])
\* sticky nodes over a diamond may hold on to a glitch (known finding)
Glitchy(S, n) == \E m \in Anc(S, n) : StickyKind(S.nd[m]) /\ Diamond(S, m)
HasSetter(S, n) == \E m \in Anc(S, n) : S.nd[m].k \in {"sut", "sua"}
HasSensor(S, n) == \E m \in Anc(S, n) : S.nd[m].k = "se"

RECURSIVE Alive(_, _)          \* somebody holds the node
Alive(S, n) == S.h[n] \/ \E m \in 1..Count(S) :
                 m # n /\ (\E i \in 1..Len(S.nd[m].p) : S.nd[m].p[i] = n)
                       /\ Alive(S, m)

\* the values of all the parents of a node
RECURSIVE AllOf(_, _, _)
AllOf(ps, val, i) == IF i > Len(ps) THEN <<>> ELSE val[ps[i]] \o AllOf(ps, val, i + 1)

\* value of a node computed from given values of its parents
ComputeD(d, val) ==
  LET a == val[d.p[1]]
      b == val[d.p[2]]
      c == val[d.p[3]] IN
  CASE d.k = "lens"  -> View(d.f, a)
    [] d.k = "lens2" -> View2(d.f, a, b)
    [] d.k = "map"   -> Fn(d.f, a)
    [] d.k = "map2"  -> Fn(d.f, a \o b)
    [] d.k = "merge" -> a \o b
    [] d.k = "xinc"  -> Shift(a, 1)
    [] d.k = "xupd"  -> <<At(a, 1)>>
    \* a view that forgets something of what is written, or refuses some writes
    [] d.k = "xmod"  -> IF d.f = "low" THEN Fn("low", a) ELSE a
    [] d.k = "x2map" -> a \o b
    [] d.k = "x2upd" -> <<At(b, 1)>>
    [] d.k = "filt"  -> IF Pred(d.f, a) THEN a ELSE NoVal
    [] d.k = "filt2" -> IF Pred(d.f, a \o b) THEN a \o b ELSE NoVal
    [] d.k = "map3"  -> Fn(d.f, a \o b \o c)
    [] d.k = "mapn"  -> Fn(d.f, AllOf(d.p, val, 1))
    [] d.k = "lens3" -> a \o b \o c
    [] d.k = "filt3" -> IF Pred(d.f, a \o b \o c) THEN a \o b \o c ELSE NoVal
    [] d.k = "ch1"   -> ChainGet(d.f, 1, a)
    [] d.k = "ch2"   -> ChainGet(d.f, 1, a \o b)
    [] d.k \in {"sut", "sua"} -> a
Compute(S, n, val) == IF S.nd[n].p = <<>> THEN val[n] ELSE ComputeD(S.nd[n], val)

\* declarative value: the function of the node applied to values of the roots
RECURSIVE Eval(_, _, _)
Eval(S, n, val) ==
  IF S.nd[n].p = <<>> THEN val[n]
  ELSE Compute(S, n, [m \in 1..Count(S) |->
                        IF \E i \in 1..Len(S.nd[n].p) : S.nd[n].p[i] = m
                        THEN Eval(S, m, val) ELSE <<>>])

\* ------------------------------------------------------------ propagation
PushDown(S, n, v) ==
  IF v = S.cur[n] THEN S
  ELSE [S EXCEPT !.cur[n] = v, !.nsd[n] = TRUE]

Recompute(S, n) ==
  LET k == S.nd[n].k IN
  CASE k \in {"st", "sa", "co"} -> S
    [] k = "se" -> PushDown([S EXCEPT !.ev[n] = @ + 1], n, <<S.env>>)
    [] k \in {"sut", "sua"} ->
         IF S.rec[n] THEN [S EXCEPT !.rec[n] = FALSE]
         ELSE PushDown(S, n, S.cur[S.nd[n].p[1]])
    [] OTHER -> LET v == Compute(S, n, S.cur)
                IN IF v = NoVal THEN S ELSE PushDown(S, n, v)

\* the value of n that becomes visible includes a pending write of a source
\* that is not being committed (a known finding, see Retaint)
Leaks(S, n) == \E m \in Anc(S, n) :
  /\ S.nsd[m]
  /\ S.nd[m].k \in {"st", "se", "sut"}
  /\ m # n
  /\ Anc(S, m) \cap S.sending = {}

RECURSIVE SendDown(_, _), SendDownKids(_, _, _)
SendDown(S0, n) ==
  LET S == Recompute([S0 EXCEPT !.taint[n] = @ \/ Leaks(S0, n)], n) IN
  IF S.nsd[n]
  THEN SendDownKids([S EXCEPT !.last[n] = S.cur[n], !.nsd[n] = FALSE,
                              !.nn[n] = TRUE], S.kids[n], 1)
  ELSE S
SendDownKids(S, ks, i) ==
  IF i > Len(ks) THEN S
  ELSE SendDownKids(IF Alive(S, ks[i]) THEN SendDown(S, ks[i]) ELSE S, ks, i + 1)

RECURSIVE Refresh(_, _), RefreshAll(_, _, _)
Refresh(S, n) ==
  IF S.nd[n].p = <<>> \/ S.nd[n].k \in {"sut", "sua"} THEN S
  ELSE Recompute(RefreshAll(S, S.nd[n].p, 1), n)
RefreshAll(S, ps, i) ==
  IF i > Len(ps) THEN S ELSE RefreshAll(Refresh(S, ps[i]), ps, i + 1)

\* a new node; the handle of it is kept
Link(S, d) ==
  LET n  == Count(S) + 1
      S1 == [S EXCEPT !.nd = Append(@, d)]
      v0 == Compute(S1, n, S.last)
      v  == IF v0 = NoVal THEN <<>> ELSE v0
      S2 == [S1 EXCEPT !.cur = Append(@, v), !.last = Append(@, v),
                       !.nsd = Append(@, FALSE), !.nn = Append(@, FALSE),
                       !.rec = Append(@, FALSE), !.kids = Append(@, <<>>),
                       !.h = Append(@, TRUE), !.w = Append(@, <<>>),
                       !.ev = Append(@, 0),
                       !.taint = Append(@, FALSE), !.idl = Append(@, v),
                       !.anc = Append(@, {n} \cup AncOf(S, d))]
      ps == {d.p[i] : i \in 1..Len(d.p)}
  IN [S2 EXCEPT !.kids = TLCEval([m \in 1..n |->
                      IF m \in ps THEN Append(S2.kids[m], n) ELSE S2.kids[m]])]

\* register a callback on the handle of node n
Watch(S, n, pg) ==
  LET id == S.nw + 1 IN
  [S EXCEPT !.nw = id, !.w[n] = Append(@, [id |-> id, pg |-> pg]),
            !.act = @ \/ pg[1] \notin {"no", "mk", "drop", "mkdrop"},
            !.seen = Append(@, S.last[n])]

RECURSIVE Notify(_, _), NotifyKids(_, _, _, _), RunObs(_, _, _),
          Exec(_, _, _, _), SendUp(_, _, _), SendUpAll(_, _, _, _),
          CommitR(_, _, _), NotifyR(_, _, _)

\* what the program can see through the handles that it holds; nodes that
\* are affected by a known finding are masked
Unsound(S) == TLCEval([n \in 1..Count(S) |->
              Glitchy(S, n) \/ \E m \in Anc(S, n) : S.taint[m]])
Skip(S) == LET u == Unsound(S) IN TLCEval([n \in 1..Count(S) |-> ~S.h[n] \/ u[n]])
Visible(S) == LET k == Skip(S) IN
              TLCEval([m \in 1..Count(S) |-> IF k[m] THEN <<-1>> ELSE S.last[m]])

Notify(S, n) ==
  IF S.nn[n] /\ ~S.nsd[n]
  THEN LET S1 == RunObs([S EXCEPT !.nn[n] = FALSE], n, 1)
       IN NotifyKids(S1, n, 1, Len(S1.kids[n]))
  ELSE S
NotifyKids(S, n, i, sz) ==
  IF i > sz THEN S
  ELSE NotifyKids(IF Alive(S, S.kids[n][i]) THEN Notify(S, S.kids[n][i]) ELSE S,
                  n, i + 1, sz)
RunObs(S, n, i) ==
  IF i > Len(S.w[n]) \/ ~S.h[n] THEN S
  ELSE LET wt == S.w[n][i]
           v  == S.last[n]
           S1 == [S EXCEPT !.log = Append(@, [w |-> wt.id, n |-> n, v |-> v,
                                              may |-> v = S.seen[wt.id],
                                              s |-> Visible(S)]),
                           !.seen[wt.id] = v]
       IN RunObs(Exec(S1, wt.id, wt.pg, v), n, i + 1)

Held(S, d) == \A i \in 1..Len(d.p) : S.h[d.p[i]]

\* run the program pg of a watcher that was called with v
Exec(S, id, pg, v) ==
  CASE pg[1] = "no" -> S
    [] pg[1] = "set" ->                        \* <<"set", cursor, value>>
         IF S.h[pg[2]] THEN SendUp(S, pg[2], pg[3]) ELSE S
    [] pg[1] = "clamp" ->                      \* <<"clamp", cursor>>
         IF S.h[pg[2]] /\ At(S.last[pg[2]], 1) = 2
         THEN SendUp(S, pg[2], Upd(S.last[pg[2]], 1, 0)) ELSE S
    [] pg[1] = "setc" ->                       \* <<"setc", state, value>>
         IF S.h[pg[2]] THEN CommitR(SendUp(S, pg[2], pg[3]), <<pg[2]>>, 1) ELSE S
    [] pg[1] = "com" ->                        \* <<"com", root>>
         CommitR(S, <<pg[2]>>, 1)
    [] pg[1] = "mk" ->                         \* <<"mk", node>>, only once
         IF id \in S.used \/ ~Held(S, pg[2]) THEN S
         ELSE LET S1 == Link([S EXCEPT !.used = @ \cup {id}], pg[2])
              IN Watch(S1, Count(S1), <<"no">>)
    [] pg[1] = "drop" ->                       \* <<"drop", node>>
         [S EXCEPT !.h[pg[2]] = FALSE, !.w[pg[2]] = <<>>]
    [] pg[1] = "mkdrop" ->                     \* both, only once
         IF id \in S.used \/ ~Held(S, pg[2]) THEN S
         ELSE LET S1 == Link([S EXCEPT !.used = @ \cup {id}], pg[2])
                  S2 == Watch(S1, Count(S1), <<"no">>)
              IN [S2 EXCEPT !.h[pg[3]] = FALSE, !.w[pg[3]] = <<>>]

SetterFn(S, n, x) ==
  LET S1 == [S EXCEPT !.log = Append(@, [w |-> 0 - n, n |-> n, v |-> x,
                                         may |-> FALSE, s |-> <<>>])]
      d  == S.nd[n] IN
  CASE d.f = "store" -> SendUp(S1, d.p[1], x)
    [] d.f = "clamp" -> SendUp(S1, d.p[1], TLCEval([i \in 1..Len(x) |->
                                       IF x[i] > 1 THEN 1 ELSE x[i]]))
    [] d.f = "drop"  -> S1
    \* store it in the state n' = 1, which need not be the source
    [] d.f = "else"  -> SendUp(S1, 1, <<At(x, 1), At(x, 1)>>)

SendUp(S0, n, x) ==
  LET d == S0.nd[n] IN
  CASE d.k = "st" -> PushDown(S0, n, x)
    [] d.k = "sa" -> Notify(SendDown(PushDown(S0, n, x), n), n)
    [] d.k = "sut" -> PushDown(SetterFn(S0, n, x), n, x)
    [] d.k = "sua" ->
         LET S1 == PushDown(SetterFn(S0, n, x), n, x)
         IN Notify(SendDown([S1 EXCEPT !.rec[n] = TRUE], n), n)
    [] d.k = "lens" -> LET S == Refresh(S0, n) IN
         SendUp(S, d.p[1], Put(d.f, S.cur[d.p[1]], x))
    [] d.k = "xupd" -> LET S == Refresh(S0, n) IN
         SendUp(S, d.p[1], Upd(S.cur[d.p[1]], 1, At(x, 1)))
    [] d.k = "xinc" -> SendUp(S0, d.p[1], Shift(x, K - 1))
    [] d.k = "xmod" -> IF d.f = "low" \/ Pred("no2", x) THEN SendUp(S0, d.p[1], x) ELSE S0
    [] d.k = "lens2" -> LET S == Refresh(S0, n) IN
         SendUpAll(S, d.p, Put2(d.f, S.cur[d.p[1]], S.cur[d.p[2]], x), 1)
    [] d.k = "lens3" -> LET S == Refresh(S0, n) IN
         SendUpAll(S, d.p, Put3(S.cur[d.p[1]], S.cur[d.p[2]], S.cur[d.p[3]], x), 1)
    [] d.k = "x2upd" -> LET S == Refresh(S0, n) IN
         SendUpAll(S, d.p, <<S.cur[d.p[1]], Upd(S.cur[d.p[2]], 1, At(x, 1))>>, 1)
    [] d.k \in {"merge", "x2map"} ->
         SendUpAll(S0, d.p, Put2("cat", S0.cur[d.p[1]], S0.cur[d.p[2]], x), 1)
    [] d.k = "ch1" -> LET S == Refresh(S0, n) IN
         SendUp(S, d.p[1], ChainPut(d.f, 1, S.cur[d.p[1]], x))
    [] d.k = "ch2" -> LET S == Refresh(S0, n) IN
         SendUpAll(S, d.p,
                   Put2("cat", S.cur[d.p[1]], S.cur[d.p[2]],
                        ChainPut(d.f, 1, S.cur[d.p[1]] \o S.cur[d.p[2]], x)), 1)
SendUpAll(S, ps, xs, i) ==
  IF i > Len(ps) THEN S ELSE SendUpAll(SendUp(S, ps[i], xs[i]), ps, xs, i + 1)

CommitR(S, rs, i) ==
  IF i > Len(rs) THEN NotifyR([S EXCEPT !.sending = {}], rs, 1)
  ELSE CommitR(SendDown([S EXCEPT !.sending = {rs[j] : j \in 1..Len(rs)}],
                        rs[i]), rs, i + 1)
NotifyR(S, rs, i) == IF i > Len(rs) THEN S
                     ELSE NotifyR(Notify(S, rs[i]), rs, i + 1)

\* ---------------------------------------------------------------- taints
\* Known findings: readers created while a source has pending writes, and
\* readers over several sources of which only some are committed, show
\* pending values.  The replay does not compare those readers.
PendUp(S, n) == \E m \in Anc(S, n) : S.nsd[m]
\* The values that the readers would show if there were no known findings:
\* only committed values, and filters that never see a mixture of values.
RECURSIVE IdealFrom(_, _, _)
IdealFrom(S, n, idl) ==
  IF n > Count(S) THEN idl
  ELSE LET k == S.nd[n].k
           v == IF k \in {"st", "sa", "se", "co", "sut", "sua"} THEN S.last[n]
                ELSE Compute(S, n, idl)
       IN IdealFrom(S, n + 1,
                    IF v = NoVal THEN idl ELSE [idl EXCEPT ![n] = v])
\* when a step ends, readers without pending writes above are sound again
EndStep(S) ==
  [S EXCEPT !.taint = TLCEval([n \in 1..Count(S) |->
     S.taint[n] /\ (PendUp(S, n) \/ Sticky(S, n) \/ HasSetter(S, n))]),
     !.idl = IdealFrom(S, 1, S.idl)]

\* ----------------------------------------------------------- initial state
EmptyS == [nd |-> <<>>, cur |-> <<>>, last |-> <<>>, nsd |-> <<>>, nn |-> <<>>,
           rec |-> <<>>, kids |-> <<>>, h |-> <<>>, w |-> <<>>, ev |-> <<>>,
           taint |-> <<>>, idl |-> <<>>, anc |-> <<>>, env |-> 0, log |-> <<>>, nw |-> 0, seen |-> <<>>,
           used |-> {}, sending |-> {},
           act |-> FALSE] \* some watcher writes or commits (or did)
InitVal(d) == CASE d.k \in {"st", "sa"} -> d.f
                [] d.k = "se" -> <<0>>
                [] d.k = "co" -> d.f
AddRoot(S, d) ==
  LET v == InitVal(d) IN
  [S EXCEPT !.nd = Append(@, d), !.cur = Append(@, v), !.last = Append(@, v),
            !.nsd = Append(@, FALSE), !.nn = Append(@, FALSE),
            !.rec = Append(@, FALSE), !.kids = Append(@, <<>>),
            !.h = Append(@, TRUE), !.w = Append(@, <<>>), !.ev = Append(@, 1),
            !.taint = Append(@, FALSE), !.idl = Append(@, v),
            !.anc = Append(@, {Count(S) + 1})]
AddNode(S, d) == IF d.p = <<>> THEN AddRoot(S, d) ELSE Link(S, d)
RECURSIVE AddAll(_, _, _), WatchAll(_, _, _)
AddAll(S, ds, i) == IF i > Len(ds) THEN S ELSE AddAll(AddNode(S, ds[i]), ds, i + 1)
WatchAll(S, ws, i) == IF i > Len(ws) THEN S
                      ELSE WatchAll(Watch(S, ws[i][1], ws[i][2]), ws, i + 1)
\* a topology: nodes and watchers (<<node, program>>)
Build(t) == WatchAll(AddAll(EmptyS, t.nodes, 1), t.watch, 1)
=============================================================================
