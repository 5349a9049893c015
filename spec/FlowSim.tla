------------------------------- MODULE FlowSim -------------------------------
(* Random graphs, watchers and histories of Flow, for tlc -simulate.        *)
(* Every behaviour is also a behaviour of FlowMC for some topology, and the *)
(* same invariants are checked.                                             *)
EXTENDS FlowMC

CONSTANTS GenSteps,     \* attempts to add a node
          WatchSteps,   \* attempts to add a watcher
          Progs,        \* kinds of programs of watchers
          Kinds         \* kinds of nodes

VARIABLES g, topo       \* remaining attempts, nodes and watchers so far
svars == <<S, h, ti, g, topo>>

R(x) == {RandomElement(x)}
SimInit == S = EmptyS /\ h = <<>> /\ ti = 0 /\ g = 0 /\ topo = T(<<>>, <<>>)

RECURSIVE IsT2(_)
IsT2(n) == \/ S.nd[n].k \in {"merge", "filt2"}
           \/ S.nd[n].k = "ch2" /\ \A i \in 1..Len(S.nd[n].f) : S.nd[n].f[i][1] = "f"
           \/ S.nd[n].k = "filt" /\ IsT2(S.nd[n].p[1])
Overlap(n) == LET p == S.nd[n].p IN
  Len(p) > 1 /\ ((\E i, j \in 1..Len(p) :
                     i # j /\ RootsOf(S, p[i]) \cap RootsOf(S, p[j]) # {}) \/
                 \E m \in Anc(S, n) : S.nd[m].k \in {"sa", "sua", "sut"})
CanWrite(n) == Writable(S, n) /\ \A m \in Anc(S, n) : ~Overlap(m)

RootKinds == Kinds \cap {"st", "sa", "se", "co"}
InnerKinds == Kinds \ RootKinds
LensF == {"e1", "e2", "inc", "id"}
MapF == {"id", "inc", "sum", "par", "fst", "dif", "eq"}
PredF == {"even", "nz", "no2", "ne"}
Lens2F == {"cat", "l1", "l2", "l1e1"}
RootVal == {<<0>>, <<1>>, <<2>>, <<0, 0>>, <<1, 2>>, <<0, 1>>, <<2, 1>>}
GenRoot ==
  \E k \in R(RootKinds) : \E v \in R(RootVal) :
    LET d == CASE k \in {"st", "sa", "co"} -> Node(k, <<>>, v)
               [] k = "se" -> Node(k, <<>>, "env")
    IN S' = AddNode(S, d) /\ topo' = [topo EXCEPT !.nodes = Append(@, d)]
Ok(d) ==
  LET p == d.p
      two == Len(p) = 2 IN
  /\ Len(p) > 3 => \A i \in 1..Len(p) : ~IsT2(p[i])
  /\ Len(p) = 3 => /\ \A i \in 1..3 : ~IsT2(p[i])
                   /\ Len(S.cur[p[1]]) + Len(S.cur[p[2]]) + Len(S.cur[p[3]]) <= 4
  /\ two => ~IsT2(p[1]) /\ ~IsT2(p[2])
            /\ Len(S.cur[p[1]]) + Len(S.cur[p[2]]) <= 4
  /\ d.k \in {"xinc", "xupd", "xmod", "x2map", "x2upd", "sut", "sua"} =>
       \A i \in 1..Len(p) : ~IsT2(p[i]) /\ Writable(S, p[i])
  /\ d.k \in {"sut", "sua"} => CanWrite(p[1])
  /\ d.k = "ch1" => ~IsT2(p[1])
  /\ d.k = "ch1" => ChainGet(d.f, 1, S.last[p[1]]) # NoVal
  /\ d.k = "ch2" => ChainGet(d.f, 1, S.last[p[1]] \o S.last[p[2]]) # NoVal
GenInner ==
  \E k \in R(InnerKinds) : \E p \in R(1..Count(S)) : \E q \in R(1..Count(S)) :
  \E r \in R(1..Count(S)) :
  \E l \in R(LensF) : \E f \in R(MapF) : \E l2 \in R(Lens2F) : \E pr \in R(PredF) :
  \E c \in R(Chains) : \E sf \in R({"store", "clamp", "drop"}) :
    LET wr1 == Writable(S, p)
        wr2 == Writable(S, p) /\ Writable(S, q)
        d == CASE k = "lens" -> lens(p, l)
               [] k = "map" -> map(p, f)
               [] k = "map2" -> map2(p, q, f)
               [] k = "lens2" -> lens2(p, q, l2)
               [] k = "merge" -> merge(p, q)
               [] k = "map3" -> map3(p, q, r, f)
               [] k = "mapn" -> mapn(IF f \in {"sum", "par"} THEN <<p, q, r, p>>
                                     ELSE IF f = "id" THEN <<q, r, q, p, r>>
                                     ELSE <<r, p, q, q>>, f)
               [] k = "lens3" -> lens3(p, q, r)
               [] k = "filt3" -> filt3(p, q, r, pr)
               [] k = "filt" -> filt(p, pr)
               [] k = "filt2" -> filt2(p, q, pr)
               [] k = "xinc" -> xinc(p)
               [] k = "xupd" -> xupd(p)
               [] k = "xmod" -> xmod(p, IF sf = "store" THEN "low" ELSE "sel")
               [] k = "x2map" -> x2map(p, q)
               [] k = "x2upd" -> x2upd(p, q)
               [] k = "sut" -> sut(p, sf)
               [] k = "sua" -> sua(p, sf)
               [] k = "ch1" -> ch1(p, TLCEval(ReadOnlyChain(c, wr1)))
               [] k = "ch2" -> ch2(p, q, TLCEval(ReadOnlyChain(c, wr2)))
    IN IF Ok(d)
       THEN S' = AddNode(S, d) /\ topo' = [topo EXCEPT !.nodes = Append(@, d)]
       ELSE UNCHANGED <<S, topo>>
Gen == /\ g < GenSteps
       /\ g' = g + 1
       /\ IF g < 2 THEN GenRoot
          ELSE IF g = 2 THEN \E x \in R(1..2) : IF x = 1 THEN GenRoot ELSE GenInner
          ELSE GenInner
       /\ UNCHANGED <<h, ti>>

\* at most one kind of writing program in a graph (others may not terminate)
Writing == {"set", "setc", "clamp"}
Destroying == {"drop", "mkdrop"}
ProgsIn == {topo.watch[i][2][1] : i \in 1..Len(topo.watch)}
StateRoots == {n \in Roots(S) : IsState(S, n)}
GenWatch ==
  /\ g >= GenSteps /\ g < GenSteps + WatchSteps
  /\ g' = g + 1
  /\ \E n \in R(1..Count(S)) : \E k \in R(Progs) : \E p \in R(1..Count(S)) :
     \E q \in R(1..Count(S)) : \E f \in R(MapF) : \E x \in R(0..2) : \E b \in R(1..2) :
       LET ok == CASE k = "no" -> TRUE
                   [] k \in {"set", "setc"} -> /\ S.nd[p].k \in {"st", "sa"}
                                     /\ ProgsIn \cap (Writing \cup Destroying) = {}
                   [] k = "clamp" -> /\ CanWrite(p) /\ ~IsT2(p)
                                     /\ ~HasSetter(S, p)
                                     /\ (\A m \in Anc(S, p) :
                                           /\ S.nd[m].k \notin {"xinc", "xupd", "xmod", "ch1", "ch2"}
                                           /\ S.nd[m].k = "lens" => S.nd[m].f # "inc")
                                     /\ ProgsIn \cap (Writing \cup Destroying) = {}
                   [] k = "com" -> /\ p \in Roots(S)
                                   /\ ProgsIn \cap Destroying = {}
                   [] k = "mk" -> b = 1 \/ p # q
                   [] k = "drop" -> /\ p \notin Roots(S) /\ p # n
                                    /\ ProgsIn \cap (Writing \cup {"com"}) = {}
                   [] k = "mkdrop" -> /\ q \notin Roots(S) /\ q # n
                                      /\ ProgsIn \cap (Writing \cup {"com"}) = {}
           nd == IF b = 1 \/ p = q \/ IsT2(p) \/ IsT2(q) THEN map(p, f) ELSE map2(p, q, f)
           pg == CASE k = "no" -> no
                   [] k \in {"set", "setc"} -> <<k, p, TLCEval([i \in 1..Len(S.cur[p]) |-> x])>>
                   [] k = "clamp" -> <<k, p>>
                   [] k = "com" -> <<k, p>>
                   [] k = "mk" -> <<k, nd>>
                   [] k = "drop" -> <<k, p>>
                   [] k = "mkdrop" -> <<k, nd, q>>
       IN IF ok THEN /\ S' = Watch(S, n, pg)
                     /\ topo' = [topo EXCEPT !.watch = Append(@, <<n, pg>>)]
          ELSE UNCHANGED <<S, topo>>
  /\ UNCHANGED <<h, ti>>

LiveW == {n \in Live : CanWrite(n) /\ Vals(n) # {}}
HasSensors == \E n \in Live : S.nd[n].k = "se"
Can(op) == CASE op = "set" -> LiveW # {}
             [] op = "upd" -> LiveW # {}
             [] op = "com" -> Committable # {}
             [] op = "com1" -> Committable # {}
             [] op = "env" -> HasSensors
             [] op = "drop" -> Live \ Roots(S) # {}
             [] op = "derive" -> Count(S) < 10
             [] op = "watch" -> S.nw < 8
NoProg == \A i \in 1..Len(topo.watch) : topo.watch[i][2][1] = "no"
Act ==
  /\ g = GenSteps + WatchSteps
  /\ Len(h) < MaxLen
  /\ UNCHANGED <<g, topo, ti>>
  /\ LET en == {op \in Ops : Can(op)} IN
     IF en = {} THEN UNCHANGED <<S, h>>
     ELSE \E op \in R(en) :
     CASE op = "set" -> \E n \in R(LiveW) : \E x \in R(Vals(n)) :
             Step([op |-> "set", n |-> n, x |-> x], SendUp(Fresh, n, x))
       [] op = "upd" -> \E n \in R(LiveW) :
             LET S1 == Refresh(Fresh, n)
             IN Step([op |-> "upd", n |-> n, f |-> "inc"],
                     SendUp(S1, n, Fn("inc", S1.cur[n])))
       [] op = "com" -> \E x \in R({TRUE, FALSE}) :
             Commit(IF x THEN SetToSeq(Committable) ELSE Reverse(SetToSeq(Committable)))
       [] op = "com1" -> \E r \in R(Committable) : Commit(<<r>>)
       [] op = "env" -> \E x \in R(0..2) :
             Step([op |-> "env", x |-> x], [Fresh EXCEPT !.env = x])
       [] op = "drop" -> \E n \in R(Live \ Roots(S)) :
             Step([op |-> "drop", n |-> n],
                  [Fresh EXCEPT !.h[n] = FALSE, !.w[n] = <<>>])
       [] op = "watch" -> \E n \in R(Live) :
             Step([op |-> "watch", n |-> n, pg |-> no], Watch(Fresh, n, no))
       [] op = "derive" ->
             \E k \in R({"map", "lens", "map2", "filt"}) : \E p \in R(Live) : \E q \in R(Live) :
             \E l \in R(LensF) : \E f \in R(MapF) : \E pr \in R(PredF) :
               LET two == p # q /\ ~IsT2(p) /\ ~IsT2(q) /\ Len(S.cur[p]) + Len(S.cur[q]) <= 4
                   d == CASE k = "map" \/ (k = "map2" /\ ~two) -> map(p, f)
                          [] k = "lens" -> lens(p, l)
                          [] k = "filt" -> filt(p, pr)
                          [] k = "map2" -> map2(p, q, f)
               IN Step([op |-> "derive", d |-> d], Link(Fresh, d))

SimNext == Gen \/ GenWatch \/ Act
SimSpec == SimInit /\ [][SimNext]_svars

SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) =>
             PrintT("B" \o ToJson([b |-> topo', h |-> h']))
=============================================================================
