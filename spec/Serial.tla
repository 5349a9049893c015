--------------------------------- MODULE Serial --------------------------------
(* Saving and loading values of models and actions: C31.                       *)
(*                                                                             *)
(* Some places (slots) hold values: the places 1 and 2 of type T, the places 3 *)
(* and 4 of type U.  Values are saved one after another in an archive, which   *)
(* can be read again from its beginning into places that hold something else   *)
(* already, also something that they share.                                    *)
(*                                                                             *)
(* Every value is [n |-> number, c |-> sequence of values]: leaves have        *)
(* numbers, maps have a sequence of [n |-> key, c |-> <<value>>] by key,       *)
(* variants have the number of the alternative.                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Types, MaxArchive
VARIABLES tt,    \* the types of the places: <<T, U>>
          S,     \* values of the places
          ar,    \* saved: <<type, value>>
          pos,   \* 0: writing; otherwise the number of the value to be read next
          h
vars == <<tt, S, ar, pos, h>>
view == <<tt, S, ar, pos, Len(h)>>

Leaf(k) == [k |-> k, a |-> <<>>]
Of(k, ts) == [k |-> k, a |-> ts]
Int == Leaf("int")      \* 0, 1, 2
Str == Leaf("str")      \* 0, 1, 2: with quotes, spaces and newlines
Enum == Leaf("enum")    \* 0, 1, 2
Mono == Leaf("mono")    \* 0
Many == {"vec", "flex", "arr"}
Vec(t) == Of("vec", <<t>>)
Map(t) == Of("map", <<t>>)
Var(ts) == Of("var", ts)
Rec == Of("rec", <<Vec(Int), Enum, Map(Int)>>)
TypeOf ==
  << Vec(Int), Of("flex", <<Str>>), Of("arr", <<Int>>), Of("box", <<Vec(Int)>>),
     Of("set", <<Str>>), Of("set", <<Int>>), Map(Vec(Int)), Of("smap", <<Int>>),
     Of("idmap", <<Str>>), Of("tup", <<Int, Vec(Str), Enum>>),
     Var(<<Int, Str, Vec(Int), Mono>>), Enum,
     \* structs: by LAGER_STRUCT, the one for templates, the nested one, with
     \* CEREAL derived, with names in camel case, and without members
     Rec, Of("tpl", <<Of("box", <<Int>>), Of("set", <<Str>>)>>),
     Of("nest", <<Str, Var(<<Int, Enum>>)>>), Of("der", <<Int, Str, Enum>>),
     Of("camel", <<Int, Vec(Int)>>), Of("empty", <<>>),
     Vec(Of("box", <<Rec>>)), Map(Var(<<Rec, Str>>)),
     Var(<<Of("der", <<Int, Str, Enum>>), Of("empty", <<>>), Of("box", <<Rec>>)>>),
     Vec(Of("tpl", <<Of("box", <<Int>>), Of("set", <<Str>>)>>)),
     Of("tup", <<Map(Int), Of("camel", <<Int, Vec(Int)>>)>>),
     Of("box", <<Var(<<Vec(Int), Mono>>)>>), Of("flex", <<Vec(Int)>>),
     \* CEREAL for a template and for a nested struct
     Of("tder", <<Int, Vec(Str)>>), Of("nder", <<Enum, Map(Int)>>),
     \* with CEREAL_OPTIONAL_NVP
     Of("onvp", <<Int, Vec(Int)>>) >>

V(n, c) == [n |-> n, c |-> c]
\* what a value is when it was not given one
RECURSIVE Zero(_)
Zero(t) ==
  CASE t.k = "rec" -> V(0, <<V(0, <<V(1, <<>>), V(2, <<>>)>>), V(1, <<>>), V(0, <<V(0, <<V(1, <<>>)>>)>>)>>)
    [] t.k \in {"box", "tup", "tpl", "nest", "der", "camel", "empty", "tder", "nder", "onvp"} ->
         V(0, [i \in 1..Len(t.a) |-> Zero(t.a[i])])
    [] t.k = "var" -> V(0, <<Zero(t.a[1])>>)
    [] OTHER -> V(0, <<>>)
Pick(S1, n) == IF Cardinality(S1) <= n THEN S1
               ELSE LET x == CHOOSE x \in S1 : TRUE
                        y == CHOOSE y \in S1 : y # x
                    IN IF n = 1 THEN {x} ELSE IF n = 2 THEN {x, y}
                       ELSE {x, y, CHOOSE z \in S1 : z # x /\ z # y}
\* at most w values where there are many
RECURSIVE Values(_, _)
Product(f, w) == LET F[i \in 0..Len(f)] ==
                       IF i = 0 THEN {<<>>}
                       ELSE {Append(s, x) : s \in F[i - 1], x \in f[i]}
                 IN F[Len(f)]
Values(t, w) ==
  LET sub(i) == IF t.a[i].a = <<>> THEN Pick(Values(t.a[i], w), w + 1)
                ELSE Pick(Values(t.a[i], w - 1), w) \cup {Zero(t.a[i])} IN
  CASE t.k \in {"int", "str", "enum"} -> {V(n, <<>>) : n \in 0..2}
    [] t.k \in {"mono"} -> {V(0, <<>>)}
    [] t.k \in Many -> {V(0, <<>>)} \cup {V(0, <<x>>) : x \in sub(1)}
                         \cup {V(0, <<x, y>>) : x \in sub(1), y \in sub(1)}
    [] t.k = "set" -> {V(0, SelectSeq(<<V(0, <<>>), V(1, <<>>), V(2, <<>>)>>, LAMBDA x : x.n \in k))
                       : k \in SUBSET {0, 1, 2}}
    [] t.k \in {"map", "smap", "idmap"} ->
         {V(0, <<>>)} \cup {V(0, <<V(k, <<x>>)>>) : k \in {0, 2}, x \in sub(1)}
           \cup {V(0, <<V(k, <<x>>), V(2, <<y>>)>>) : k \in {0, 1}, x \in sub(1), y \in sub(1)}
    [] t.k = "var" -> UNION {{V(i - 1, <<x>>) : x \in sub(i)} : i \in 1..Len(t.a)}
    [] OTHER -> {V(0, s) : s \in Product([i \in 1..Len(t.a) |-> sub(i)], w)}
TypeAt(i) == IF i <= 2 THEN tt[1] ELSE tt[2]
\* those which are used in exhaustive exploration
Few == [t \in 1..Len(TypeOf) |-> LET v == Values(TypeOf[t], 1) IN
          Pick(v \ {Zero(TypeOf[t])}, 2) \cup {Zero(TypeOf[t])}
            \cup {V(x.n, <<>>) : x \in {x \in v : x.c = <<>>}}]
Full == [t \in 1..Len(TypeOf) |-> Values(TypeOf[t], 2)]

Zeros(p) == << Zero(TypeOf[p[1]]), Zero(TypeOf[p[1]]), Zero(TypeOf[p[2]]), Zero(TypeOf[p[2]]) >>
\* the next type
U(t) == (t % Len(TypeOf)) + 1
Init == /\ \E t \in Types : tt = <<t, U(t)>>
        /\ S = Zeros(tt) /\ ar = <<>> /\ pos = 0 /\ h = <<>>

Obs(s, tp) == [v |-> s, eq |-> <<IF s[1] = s[2] THEN 1 ELSE 0, IF s[3] = s[4] THEN 1 ELSE 0>>,
               t |-> tp]
Step(a, s) == /\ S' = s
              /\ h' = Append(h, [a |-> a, o |-> Obs(s, tt)])
              /\ UNCHANGED tt
Set(i, x) == /\ S[i] # x
             /\ Step([op |-> "set", i |-> i, x |-> x], [S EXCEPT ![i] = x])
             /\ UNCHANGED <<ar, pos>>
\* places of the same type share what they hold
Copy(i, j) == /\ i # j /\ TypeAt(i) = TypeAt(j)
              /\ Step([op |-> "copy", i |-> i, j |-> j], [S EXCEPT ![j] = S[i]])
              /\ UNCHANGED <<ar, pos>>
Save(i) == /\ pos = 0 /\ Len(ar) < MaxArchive
           /\ ar' = Append(ar, <<TypeAt(i), S[i]>>)
           /\ Step([op |-> "save", i |-> i], S) /\ UNCHANGED pos
\* the next one that was saved
At == IF pos = 0 THEN 1 ELSE pos
Load(i) == /\ At <= Len(ar) /\ ar[At][1] = TypeAt(i)
           /\ pos' = At + 1
           /\ Step([op |-> "load", i |-> i], [S EXCEPT ![i] = ar[At][2]])
           /\ UNCHANGED ar
\* from the beginning once more
Rewind == /\ pos > 1
          /\ pos' = 1 /\ ar' = ar /\ Step([op |-> "rewind"], S)
\* a new archive
Clear == /\ ar # <<>>
         /\ ar' = <<>> /\ pos' = 0 /\ Step([op |-> "clear"], S)
\* through lager::to_json() and lager::from_json()
\* (a known finding: nothing is written for an empty container)
EmptyRoot(t, v) == v.c = <<>> /\ t.k \in Many \cup {"set", "map", "smap", "idmap", "empty"}
Through(i, j) == /\ TypeAt(i) = TypeAt(j)
                 /\ ~EmptyRoot(TypeOf[TypeAt(i)], S[i])
                 /\ Step([op |-> "json", i |-> i, j |-> j], [S EXCEPT ![j] = S[i]])
                 /\ UNCHANGED <<ar, pos>>
Next ==
  /\ Len(h) < MaxLen
  /\ \/ \E i \in {1, 2} : \E x \in Few[TypeAt(i)] : Set(i, x)
     \/ Copy(1, 2)
     \/ \E i \in {1, 2} : Save(i) \/ Load(i)
     \/ (S[3] # Zero(TypeOf[tt[2]]) /\ Save(3)) \/ Load(4)
     \/ \E x \in Few[tt[2]] : Set(3, x)
     \/ Rewind
     \/ Through(1, 2)
Spec == Init /\ [][Next]_vars

R(x) == {RandomElement(x)}
\* the types are chosen by the first step
Begin == /\ h = <<>> /\ S = Zeros(tt)
         /\ \E t \in R(Types) : \E u \in R(Types) :
              /\ tt' = <<t, u>> /\ S' = TLCEval(Zeros(<<t, u>>))
              /\ h' = <<[a |-> [op |-> "begin"], o |-> Obs(S', tt')]>>
              /\ UNCHANGED <<ar, pos>>
SimStep ==
  \E x \in R(1..10) : \E i \in R(1..4) : \E j \in R({1, 2}) :
    LET j2 == IF i <= 2 THEN j ELSE j + 2
        \* a place for what comes next
        ld == IF At <= Len(ar) /\ ar[IF At <= Len(ar) THEN At ELSE 1][1] # TypeAt(i) THEN ((i + 1) % 4) + 1 ELSE i IN
    CASE h = <<>> -> Begin
      [] h # <<>> /\ x \in 1..3 -> \E v \in R(TLCEval(Full[TypeAt(i)])) : Set(i, v)
      [] h # <<>> /\ x = 4 -> Copy(i, j2)
      [] h # <<>> /\ x \in 5..6 -> Save(i)
      [] h # <<>> /\ x \in 7..8 -> Load(ld)
      [] h # <<>> /\ x = 9 -> IF j = 1 THEN Rewind ELSE Clear
      [] h # <<>> /\ x = 10 -> Through(i, j2)
Retry == Len(h) < MaxLen /\ UNCHANGED vars
SimSpec == Init /\ [][(Len(h) < MaxLen /\ SimStep) \/ Retry]_vars
Emit == PrintT("B" \o ToJson([h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([h |-> h']))

\* -------------------------------------------------------------- properties
RECURSIVE Typed(_, _)
Typed(t, v) ==
  CASE t.a = <<>> -> v.c = <<>> /\ v.n \in 0..2
    [] t.k \in Many \cup {"set"} -> \A i \in 1..Len(v.c) : Typed(t.a[1], v.c[i])
    [] t.k \in {"map", "smap", "idmap"} -> \A i \in 1..Len(v.c) : Typed(t.a[1], v.c[i].c[1])
    [] t.k = "var" -> Len(v.c) = 1 /\ v.n < Len(t.a) /\ Typed(t.a[v.n + 1], v.c[1])
    [] OTHER -> Len(v.c) = Len(t.a) /\ \A i \in 1..Len(t.a) : Typed(t.a[i], v.c[i])
InvTyped == \A i \in 1..4 : Typed(TypeOf[TypeAt(i)], S[i])
\* what is loaded is what had been saved, whatever was there, and nothing else
\* changes
PropLoad == [][Len(h') > Len(h) =>
  LET a == h'[Len(h')].a IN
  /\ a.op = "load" =>
       /\ S'[a.i] = ar[pos' - 1][2]
       /\ \A j \in 1..4 : j # a.i => S'[j] = S[j]
       /\ \E k \in 1..Len(h) : h[k].a.op = "save" /\ h[k].o.v[h[k].a.i] = S'[a.i]
  /\ a.op \in {"save", "rewind", "clear"} => S' = S]_vars
================================================================================
