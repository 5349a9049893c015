---------------------------------- MODULE Lens ---------------------------------
(* Lenses, their composition, and values without the part: C28, C29.           *)
(*                                                                             *)
(* Values: leaves are numbers; optionals <<>> or <<v>>; structs, tuples, boxes *)
(* (just what is in them), vectors and arrays are sequences; maps and tables   *)
(* have an optional for each of the keys 1 and 2; variants <<name, v>>.        *)
(* A behaviour applies one lens to a whole again and again.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxDepth, Wholes,
          Absent   \* only steps with parts that are not there, or only steps with parts
VARIABLES root,   \* index in WholeOf
          path,   \* the indices of the lenses that are composed
          e, pt,  \* the composed lens and the type of its part
          w,      \* the whole
          absent, \* was there a step without a part?
          h
vars == <<root, path, e, pt, w, absent, h>>
view == <<root, path, w, absent, Len(h)>>

\* ------------------------------------------------------------------- types
L == [k |-> "L"]
S == [k |-> "S"]                       \* struct {L a; optional<L> o; L c;}
X == [k |-> "X"]                       \* variant<L, S>
Item(i) == [k |-> "I", i |-> i]        \* struct {id i; L v;}
Opt(t) == [k |-> "opt", t |-> t]
Vec(t) == [k |-> "vec", t |-> t]
Arr(t) == [k |-> "arr", t |-> t]       \* of 2
Map(t) == [k |-> "map", t |-> t]
Tab == [k |-> "tab"]                   \* of items
Box(t) == [k |-> "box", t |-> t]
Tup(a, b) == [k |-> "tup", a |-> a, b |-> b]
Quad == [k |-> "quad"]                 \* tuple of four L
Four == [k |-> "four"]                 \* struct of four L
IsOpt(t) == t.k = "opt"

WholeOf == << S, Opt(S), Vec(S), Vec(Opt(L)), Map(S), Map(Vec(L)), X, Box(S), Tup(S, Opt(L)),
              Arr(L), Tab, Vec(Box(X)), Map(X), Tup(X, Vec(L)), Opt(Vec(Map(L))), Arr(S),
              Tup(L, L), Map(Map(L)), Quad, Four, Map(Quad), Tup(Four, L) >>

\* (0 is what a leaf is by default)
RECURSIVE Vals(_)
Vals(t) ==
  CASE t.k = "L" -> {0, 1}
    [] t.k = "S" -> {<<1, <<>>, 0>>, <<0, <<1>>, 1>>}
    [] t.k = "X" -> {<<"L", 0>>, <<"L", 1>>} \cup {<<"S", v>> : v \in Vals(S)}
    [] t.k = "I" -> {<<t.i, v>> : v \in Vals(L)}
    [] t.k = "opt" -> {<<>>} \cup {<<v>> : v \in Vals(t.t)}
    [] t.k = "vec" -> LET v == Vals(t.t) IN
         {<<>>} \cup {<<x>> : x \in v} \cup {<<x, y>> : x \in v, y \in {CHOOSE z \in v : TRUE}}
    [] t.k = "arr" -> LET v == Vals(t.t) IN {<<x, y>> : x \in v, y \in v}
    [] t.k = "map" -> LET v == Vals(t.t)
                          o == {<<>>} \cup {<<x>> : x \in v} IN
         {<<x, y>> : x \in o, y \in {<<>>, <<CHOOSE z \in v : TRUE>>}}
    [] t.k = "tab" -> {<<x, y>> : x \in Vals(Opt(Item(1))), y \in Vals(Opt(Item(2)))}
    [] t.k = "box" -> Vals(t.t)
    [] t.k = "tup" -> {<<x, y>> : x \in Vals(t.a), y \in Vals(t.b)}
    [] t.k \in {"quad", "four"} -> {<<0, 1, 2, 3>>, <<1, 1, 0, 2>>}
RECURSIVE Zero(_)
Zero(t) == CASE t.k = "L" -> 0
             [] t.k = "S" -> <<0, <<>>, 0>>
             [] t.k = "X" -> <<"L", 0>>
             [] t.k = "I" -> <<0, 0>>
             [] t.k \in {"opt", "vec"} -> <<>>
             [] t.k = "arr" -> <<Zero(t.t), Zero(t.t)>>
             [] t.k \in {"map", "tab"} -> <<<<>>, <<>>>>
             [] t.k = "box" -> Zero(t.t)
             [] t.k = "tup" -> <<Zero(t.a), Zero(t.b)>>
             [] t.k \in {"quad", "four"} -> <<0, 0, 0, 0>>
\* adds 10 to every leaf
RECURSIVE Bump(_, _)
Bump(t, v) ==
  CASE t.k = "L" -> v + 10
    [] t.k = "S" -> <<v[1] + 10, Bump(Opt(L), v[2]), v[3] + 10>>
    [] t.k = "X" -> <<v[1], IF v[1] = "L" THEN v[2] + 10 ELSE Bump(S, v[2])>>
    [] t.k = "I" -> <<v[1], v[2] + 10>>
    [] t.k \in {"opt", "vec", "arr"} ->
        (CASE Len(v) = 0 -> <<>> [] Len(v) = 1 -> <<Bump(t.t, v[1])>>
           [] Len(v) = 2 -> <<Bump(t.t, v[1]), Bump(t.t, v[2])>>)
    [] t.k = "map" -> <<Bump(Opt(t.t), v[1]), Bump(Opt(t.t), v[2])>>
    [] t.k = "tab" -> <<Bump(Opt(Item(1)), v[1]), Bump(Opt(Item(2)), v[2])>>
    [] t.k = "box" -> Bump(t.t, v)
    [] t.k = "tup" -> <<Bump(t.a, v[1]), Bump(t.b, v[2])>>
    [] t.k \in {"quad", "four"} -> <<v[1] + 10, v[2] + 10, v[3] + 10, v[4] + 10>>
\* what default values are used with
RECURSIVE Def(_)
Def(t) == CASE t.k = "L" -> 11
            [] t.k = "S" -> <<11, <<>>, 12>>
            [] t.k = "X" -> <<"L", 11>>
            [] t.k = "I" -> <<1, 11>>
            [] t.k = "opt" -> <<Def(t.t)>>
            [] t.k = "vec" -> <<Def(t.t)>>
            [] t.k = "arr" -> <<Def(t.t), Def(t.t)>>
            [] t.k = "map" -> <<<<Def(t.t)>>, <<>>>>
            [] t.k = "tab" -> <<<<Def(Item(1))>>, <<>>>>
            [] t.k = "box" -> Def(t.t)
            [] t.k = "tup" -> <<Def(t.a), Def(t.b)>>
            [] t.k \in {"quad", "four"} -> <<11, 12, 13, 14>>

\* what is set (items only to their own key)
RECURSIVE OfItem(_)
OfItem(t) == t.k \in {"I", "tab"} \/ (t.k \in {"opt", "vec", "arr", "map", "box"} /\ OfItem(t.t))
             \/ (t.k = "tup" /\ (OfItem(t.a) \/ OfItem(t.b)))
SetVals(t) == Vals(t) \cup (IF OfItem(t) THEN {} ELSE {Def(t)})

\* ------------------------------------------------------------------ lenses
\* P(name, lens, type of the part)
P(n, x, t) == [n |-> n, e |-> x, t |-> t]
Member(i) == [k |-> "el", i |-> i]                \* attr(), element<>, first, second
Fan(x, y) == [k |-> "fan", x |-> x, y |-> y]
Zip(x, y) == [k |-> "zip", x |-> x, y |-> y]
FanN(xs) == [k |-> "fann", xs |-> xs]             \* (of four lenses)
ZipN(xs) == [k |-> "zipn", xs |-> xs]
At(i) == [k |-> "at", i |-> i]
AtOr(i, d) == [k |-> "at_or", i |-> i, d |-> d]
Key(i) == [k |-> "key", i |-> i]                  \* at() in maps and tables
KeyOr(i, d) == [k |-> "key_or", i |-> i, d |-> d]
Alt(n) == [k |-> "alt", n |-> n]
ValueOr(d) == [k |-> "value_or", d |-> d]
ForceOpt == [k |-> "force"]
Unbox == [k |-> "id"]
Identity == [k |-> "id"]
Shift == [k |-> "shift"]
Lift(x, flat) == [k |-> "lift", x |-> x, flat |-> flat]
Comp(x, y) == [k |-> "comp", x |-> x, y |-> y]

Scalar == {"L", "S", "X", "I"}
Lifts(p) ==
  IF IsOpt(p.t)
  THEN << P("map_opt " \o p.n, Lift(p.e, FALSE), Opt(p.t)), P("with_opt " \o p.n, Lift(p.e, TRUE), p.t),
          P("bind_opt " \o p.n, Lift(p.e, TRUE), p.t) >>
  ELSE << P("map_opt " \o p.n, Lift(p.e, FALSE), Opt(p.t)),
          P("with_opt " \o p.n, Lift(p.e, FALSE), Opt(p.t)) >>
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE Prims(_)
Prims(t) ==
  CASE t.k = "L" -> << P("shift", Shift, L), P("force_opt", ForceOpt, Opt(L)) >>
    [] t.k = "S" -> << P("attr a", Member(1), L), P("attr o", Member(2), Opt(L)),
                       P("attr a c", Fan(Member(1), Member(3)), Tup(L, L)),
                       P("getset a", Member(1), L), P("getset c", Member(3), L),
                       P("getset o", Member(2), Opt(L)),
                       P("fan o a", Fan(Member(2), Member(1)), Tup(Opt(L), L)),
                       P("force_opt", ForceOpt, Opt(S)) >>
    [] t.k = "X" -> << P("alternative L", Alt("L"), Opt(L)), P("alternative S", Alt("S"), Opt(S)) >>
    [] t.k = "I" -> << P("attr v", Member(2), L) >>
    [] t.k = "opt" ->
         << P("value_or", ValueOr(Zero(t.t)), t.t), P("value_or def", ValueOr(Def(t.t)), t.t) >>
         \o (IF IsOpt(t.t) THEN <<>>
             ELSE LET ps == SelectSeq(Prims(t.t), LAMBDA p : p.e # ForceOpt)
                  IN Flatten([i \in 1..Len(ps) |-> Lifts(ps[i])]))
    [] t.k = "vec" -> << P("at 0", At(1), Opt(t.t)), P("at 1", At(2), Opt(t.t)),
                         P("at_or 1", AtOr(2, Zero(t.t)), t.t), P("at_or 0 def", AtOr(1, Def(t.t)), t.t) >>
    [] t.k = "arr" -> << P("element 0", Member(1), t.t), P("element 1", Member(2), t.t),
                         P("at 1", At(2), Opt(t.t)), P("at 2", At(3), Opt(t.t)),
                         P("at_or 0 def", AtOr(1, Def(t.t)), t.t),
                         P("at_or 7", AtOr(8, Zero(t.t)), t.t) >>
    [] t.k = "map" -> << P("key 1", Key(1), Opt(t.t)), P("key 3", Key(3), Opt(t.t)),
                         P("key_or 2", KeyOr(2, Zero(t.t)), t.t), P("key_or 1 def", KeyOr(1, Def(t.t)), t.t) >>
    [] t.k = "tab" -> << P("key 1", Key(1), Opt(Item(1))), P("key 2", Key(2), Opt(Item(2))) >>
    [] t.k = "box" -> << P("unbox", Unbox, t.t) >>
    [] t.k = "tup" ->
         LET a == Prims(t.a)  b == Prims(t.b) IN
         << P("first", Member(1), t.a), P("second", Member(2), t.b),
            P("zip id force", Zip(Identity, ForceOpt), Tup(t.a, Opt(t.b))),
            P("zip first first", Zip(a[1].e, b[1].e), Tup(a[1].t, b[1].t)),
            P("zip last last", Zip(a[Len(a)].e, b[Len(b)].e), Tup(a[Len(a)].t, b[Len(b)].t)),
            P("fan first.first second", Fan(Comp(Member(1), a[1].e), Member(2)), Tup(a[1].t, t.b)) >>

    [] t.k = "quad" ->
         << P("element 3", Member(4), L), P("element 2", Member(3), L),
            P("zip four", ZipN(<<Identity, Shift, Identity, Shift>>), Quad),
            P("fan four", FanN(<<Member(4), Member(1), Member(3), Member(2)>>), Quad) >>
    [] t.k = "four" ->
         << P("attr d", Member(4), L),
            P("attr b a d c", FanN(<<Member(2), Member(1), Member(4), Member(3)>>), Quad),
            P("fan c d.shift a b", FanN(<<Member(3), Comp(Member(4), Shift), Member(1), Member(2)>>), Quad) >>

RECURSIVE View(_, _), Set(_, _, _)
View(x, v) ==
  CASE x.k = "el" -> v[x.i]
    [] x.k = "fan" -> <<View(x.x, v), View(x.y, v)>>
    [] x.k = "zip" -> <<View(x.x, v[1]), View(x.y, v[2])>>
    [] x.k = "fann" -> <<View(x.xs[1], v), View(x.xs[2], v), View(x.xs[3], v), View(x.xs[4], v)>>
    [] x.k = "zipn" -> <<View(x.xs[1], v[1]), View(x.xs[2], v[2]), View(x.xs[3], v[3]), View(x.xs[4], v[4])>>
    [] x.k = "at" -> IF x.i <= Len(v) THEN <<v[x.i]>> ELSE <<>>
    [] x.k = "at_or" -> IF x.i <= Len(v) THEN v[x.i] ELSE x.d
    [] x.k = "key" -> IF x.i <= 2 THEN v[x.i] ELSE <<>>
    [] x.k = "key_or" -> IF x.i <= 2 /\ v[x.i] # <<>> THEN v[x.i][1] ELSE x.d
    [] x.k = "alt" -> IF v[1] = x.n THEN <<v[2]>> ELSE <<>>
    [] x.k = "value_or" -> IF v = <<>> THEN x.d ELSE v[1]
    [] x.k = "force" -> <<v>>
    [] x.k = "id" -> v
    [] x.k = "shift" -> v + 100
    [] x.k = "lift" -> IF v = <<>> THEN <<>>
                       ELSE IF x.flat THEN View(x.x, v[1]) ELSE <<View(x.x, v[1])>>
    [] x.k = "comp" -> View(x.y, View(x.x, v))
Set(x, v, p) ==
  CASE x.k = "el" -> [v EXCEPT ![x.i] = p]
    [] x.k = "fan" -> Set(x.x, Set(x.y, v, p[2]), p[1])
    [] x.k = "zip" -> <<Set(x.x, v[1], p[1]), Set(x.y, v[2], p[2])>>
    [] x.k = "fann" -> Set(x.xs[1], Set(x.xs[2], Set(x.xs[3], Set(x.xs[4], v, p[4]), p[3]), p[2]), p[1])
    [] x.k = "zipn" -> <<Set(x.xs[1], v[1], p[1]), Set(x.xs[2], v[2], p[2]),
                         Set(x.xs[3], v[3], p[3]), Set(x.xs[4], v[4], p[4])>>
    [] x.k = "at" -> IF x.i <= Len(v) /\ p # <<>> THEN [v EXCEPT ![x.i] = p[1]] ELSE v
    [] x.k = "at_or" -> IF x.i <= Len(v) THEN [v EXCEPT ![x.i] = p] ELSE v
    [] x.k = "key" -> IF x.i <= 2 /\ p # <<>> /\ v[x.i] # <<>> THEN [v EXCEPT ![x.i] = p] ELSE v
    [] x.k = "key_or" -> IF x.i <= 2 /\ v[x.i] # <<>> THEN [v EXCEPT ![x.i] = <<p>>] ELSE v
    [] x.k = "alt" -> IF v[1] = x.n /\ p # <<>> THEN <<x.n, p[1]>> ELSE v
    [] x.k = "value_or" -> <<p>>
    [] x.k = "force" -> IF p = <<>> THEN v ELSE p[1]
    [] x.k = "id" -> p
    [] x.k = "shift" -> p - 100
    [] x.k = "lift" -> IF v = <<>> \/ p = <<>> THEN v
                       ELSE <<Set(x.x, v[1], IF x.flat THEN p ELSE p[1])>>
    [] x.k = "comp" -> Set(x.x, v, Set(x.y, View(x.x, v), p))

\* is there a part in v?  (value_or() and at_or() make up one to view, but only
\* the first can set it)
RECURSIVE Present(_, _), IsNone(_, _, _), Exact(_, _)
Present(x, v) ==
  CASE x.k = "fan" -> Present(x.x, v) /\ Present(x.y, v)
    [] x.k = "zip" -> Present(x.x, v[1]) /\ Present(x.y, v[2])
    [] x.k \in {"at", "at_or"} -> x.i <= Len(v)
    [] x.k \in {"key", "key_or"} -> x.i <= 2 /\ v[x.i] # <<>>
    [] x.k = "alt" -> v[1] = x.n
    [] x.k = "lift" -> v # <<>> /\ Present(x.x, v[1])
    [] x.k = "comp" -> Present(x.x, v) /\ Present(x.y, View(x.x, v))
    [] OTHER -> TRUE
\* the view of value_or() is part of the whole
Exact(x, v) ==
  CASE x.k = "fan" -> Exact(x.x, v) /\ Exact(x.y, v)
    [] x.k = "zip" -> Exact(x.x, v[1]) /\ Exact(x.y, v[2])
    [] x.k = "value_or" -> v # <<>>
    [] x.k = "lift" -> v = <<>> \/ Exact(x.x, v[1])
    [] x.k = "comp" -> Exact(x.x, v) /\ Exact(x.y, View(x.x, v))
    [] OTHER -> TRUE
\* is some part of p none, so that nothing can be set to it?
IsNone(x, v, p) ==
  CASE x.k = "fan" -> IsNone(x.x, v, p[1]) \/ IsNone(x.y, v, p[2])
    [] x.k = "zip" -> IsNone(x.x, v[1], p[1]) \/ IsNone(x.y, v[2], p[2])
    [] x.k \in {"at", "key", "alt", "force"} -> p = <<>>
    [] x.k = "lift" -> p = <<>> \/ (v # <<>> /\ ~x.flat /\ IsNone(x.x, v[1], p[1]))
    [] x.k = "comp" -> LET u == View(x.x, v)
                       IN IsNone(x.y, u, p) \/ IsNone(x.x, v, Set(x.y, u, p))
    [] OTHER -> FALSE
RECURSIVE AllNone(_, _)
AllNone(x, p) ==
  CASE x.k \in {"fan", "zip"} -> AllNone(x.x, p[1]) /\ AllNone(x.y, p[2])
    [] x.k \in {"at", "key", "alt", "force"} -> p = <<>>
    [] x.k = "lift" -> p = <<>>
    [] x.k = "comp" -> AllNone(x.y, p)
    [] OTHER -> FALSE

\* all compositions of up to d lenses
C(ps, x, t) == [p |-> ps, e |-> x, t |-> t]
RECURSIVE Chains(_, _)
Chains(t, d) ==
  LET ps == Prims(t)
      one == {C(<<i>>, ps[i].e, ps[i].t) : i \in 1..Len(ps)}
  IN one \cup (IF d = 1 THEN {}
               ELSE UNION {{C(<<i>> \o c.p, Comp(ps[i].e, c.e), c.t) : c \in Chains(ps[i].t, d - 1)}
                           : i \in 1..Len(ps)})
Names(t, ps) == LET RECURSIVE N(_, _)
                    N(u, p) == IF p = <<>> THEN <<>>
                               ELSE <<Prims(u)[Head(p)].n>> \o N(Prims(u)[Head(p)].t, Tail(p))
                IN N(t, ps)
AllChains == TLCEval([r \in Wholes |-> TLCEval(Chains(WholeOf[r], MaxDepth))])

Obs(v) == [w |-> v, v |-> TLCEval(View(e, v))]
InitWith(r, c, v) ==
  /\ root = r /\ path = c.p /\ e = TLCEval(c.e) /\ pt = TLCEval(c.t) /\ w = v
  /\ absent = ~Present(c.e, v)
  /\ h = <<[a |-> [op |-> "look"], o |-> [w |-> v, v |-> TLCEval(View(c.e, v))]]>>
Init == \E r \in Wholes : \E c \in AllChains[r] : \E v \in Vals(WholeOf[r]) : InitWith(r, c, v)
Keep == UNCHANGED <<root, path, e, pt>>
Step(a, p) == LET v == TLCEval(Set(e, w, p)) IN
  /\ w' = v /\ h' = Append(h, [a |-> a, o |-> Obs(v)]) /\ Keep
  /\ absent' = (absent \/ ~Present(e, w) \/ IsNone(e, w, p) \/ ~Present(e, v))
SetPart(p) == Step([op |-> "set", p |-> p], p)
Over == Step([op |-> "over"], TLCEval(Bump(pt, View(e, w))))
Next == Len(h) <= MaxLen /\ (Over \/ \E p \in SetVals(pt) : SetPart(p))
Spec == Init /\ [][Next]_vars

R(x) == {RandomElement(x)}
SimInit == /\ root = 0 /\ path = <<>> /\ e = Identity /\ pt = L /\ w = 0 /\ absent = FALSE
           /\ h = <<>>
Pick == \E r \in R(Wholes) : \E c \in R(AllChains[r]) : \E v \in R(TLCEval(Vals(WholeOf[r]))) :
  /\ root' = r /\ path' = c.p /\ e' = TLCEval(c.e) /\ pt' = TLCEval(c.t) /\ w' = v
  /\ absent' = ~Present(c.e, v)
  /\ h' = <<[a |-> [op |-> "look"], o |-> [w |-> v, v |-> TLCEval(View(c.e, v))]]>>
SimStep == \E x \in R(1..4) : \E p \in R(TLCEval(SetVals(pt))) : IF x = 1 THEN Over ELSE SetPart(p)
SimSpec == SimInit /\ [][IF root = 0 THEN Pick ELSE Len(h) <= MaxLen /\ SimStep]_vars
Out == [root |-> root, path |-> path, names |-> Names(WholeOf[root], path), h |-> h']
Emit == (Len(h') > MaxLen /\ absent' = Absent) => PrintT("B" \o ToJson(Out))
SimEmit == (Len(h') > MaxLen /\ Len(h) <= MaxLen /\ absent' = Absent) => PrintT("B" \o ToJson(Out))

\* -------------------------------------------------------------- properties
Parts == SetVals(pt)
InvPutGet == root = 0 \/ \A p \in Parts : (Present(e, w) /\ ~IsNone(e, w, p)) => View(e, Set(e, w, p)) = p
InvGetPut == (root # 0 /\ Exact(e, w)) => Set(e, w, View(e, w)) = w
InvPutPut == root = 0 \/ \A p, q \in Parts : ~IsNone(e, w, q) => Set(e, Set(e, w, p), q) = Set(e, w, q)
\* nothing to set, or nothing to be set
InvNone == root = 0 \/ \A p \in Parts : (AllNone(e, p) /\ Exact(e, w)) => Set(e, w, p) = w
RECURSIVE Partial(_)
Partial(x) == CASE x.k \in {"fan", "zip"} -> TRUE
                [] x.k \in {"lift"} -> Partial(x.x)
                [] x.k = "comp" -> Partial(x.x) \/ Partial(x.y)
                [] OTHER -> FALSE
RECURSIVE MakesUp(_)
MakesUp(x) == CASE x.k \in {"fan", "zip"} -> MakesUp(x.x) \/ MakesUp(x.y)
                [] x.k = "lift" -> MakesUp(x.x)
                [] x.k = "comp" -> MakesUp(x.x) \/ MakesUp(x.y)
                [] x.k = "value_or" -> TRUE
                [] OTHER -> FALSE
InvAbsent == (root # 0 /\ ~Present(e, w) /\ ~Partial(e) /\ ~MakesUp(e)) => \A p \in Parts : Set(e, w, p) = w
\* containers stay as long as they are, and other members what they are
FirstK == Prims(WholeOf[root])[path[1]].n
InvShape == root = 0 \/ LET t == WholeOf[root] IN \A p \in Parts : LET u == Set(e, w, p) IN
  /\ t.k \in {"vec", "arr"} => Len(u) = Len(w)
  /\ t.k \in {"map", "tab"} => \A i \in 1..2 : u[i] = <<>> <=> w[i] = <<>>
  /\ t.k = "X" => u[1] = w[1]
  /\ FirstK \in {"attr a", "getset a"} => u[2] = w[2] /\ u[3] = w[3]
  /\ FirstK \in {"attr o", "getset o"} => u[1] = w[1] /\ u[3] = w[3]
  /\ FirstK = "getset c" => u[1] = w[1] /\ u[2] = w[2]
  /\ FirstK \in {"attr a c", "fan o a"} => u[IF FirstK = "fan o a" THEN 3 ELSE 2] = w[IF FirstK = "fan o a" THEN 3 ELSE 2]
  /\ FirstK \in {"first", "element 0", "at 0", "at_or 0 def", "key 1"} => \A i \in 2..Len(w) : u[i] = w[i]
  /\ FirstK \in {"second", "element 1", "at 1", "at_or 1", "key 2", "key_or 2"} => (w = <<>> \/ u[1] = w[1])
================================================================================
