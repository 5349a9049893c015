-------------------------------- MODULE Context --------------------------------
(* Contexts: narrowing and conversion of what they can dispatch: C17.          *)
(*                                                                             *)
(* Actions have the types A, B, C (with some contents), V = variant<A, B> and  *)
(* W = variant<V, C>.  A context supports a list of action types.  It is the   *)
(* context of the root (a store, or a function that is told of the actions) or *)
(* is made from another context, its parent, maybe with a converter.           *)
(* The value of an action: <<type, contents>> or <<type, value>> for variants. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxCtx, Roots, Lists, Convs, ATypes
VARIABLES root,   \* [list |-> its action types, store, fut]
          ctx,    \* sequence of [list, parent, conv]; the first one is the root's
          q,      \* what was posted to the loop
          n,      \* number of actions and functions posted so far
          h
vars == <<root, ctx, q, n, h>>
view == <<root, ctx, q, n, Len(h)>>

ListOf == <<
  <<"W">>, <<"V">>, <<"A">>, <<"B">>, <<"C">>, <<"A", "B">>, <<"B", "A">>, <<"A", "B", "C">>,
  <<"V", "C">>, <<"C", "V">>, <<"A", "V">>, <<"V", "A">>, <<>> >>
RootOf == << [list |-> 1, store |-> TRUE, fut |-> TRUE], [list |-> 2, store |-> TRUE, fut |-> FALSE],
             [list |-> 9, store |-> FALSE, fut |-> FALSE], [list |-> 8, store |-> FALSE, fut |-> FALSE],
             [list |-> 1, store |-> TRUE, fut |-> FALSE] >>

\* implicit conversions
To == [A |-> {"A", "V", "W"}, B |-> {"B", "V", "W"}, C |-> {"C", "W"}, V |-> {"V", "W"}, W |-> {"W"}]
RECURSIVE As(_, _)
As(v, t) == IF v[1] = t THEN v
            ELSE IF t = "V" THEN <<"V", v>>
            ELSE IF v[1] \in {"V", "C"} THEN <<"W", v>> ELSE <<"W", <<"V", v>>>>
\* converters: inc adds 1 to the contents; swap makes a B of an A, and the other
\* way round; wrap makes a variant of it
RECURSIVE Apply(_, _)
Apply(c, v) ==
  IF v[1] \in {"V", "W"}
  THEN LET x == Apply(c, v[2]) IN As(x, v[1])
  ELSE CASE c = "inc" -> <<v[1], v[2] + 1000>>
         [] c = "swap" -> IF v[1] = "A" THEN <<"B", v[2]>> ELSE IF v[1] = "B" THEN <<"A", v[2]>> ELSE v
         [] c = "wrap" -> IF v[1] = "C" THEN <<"W", v>> ELSE <<"V", v>>
\* the type of the result
ResT(c, t) == CASE c = "no" -> t
                [] t \in {"V", "W"} -> t
                [] c = "inc" -> t
                [] c = "swap" -> IF t = "A" THEN "B" ELSE IF t = "B" THEN "A" ELSE t
                [] c = "wrap" -> IF t = "C" THEN "W" ELSE "V"
RangeS(s) == {s[i] : i \in 1..Len(s)}
\* the alternative that is used for type t: the first one that it converts to
\* (with the roots here it makes no difference to take another one: what gets to
\* them is the same)
First(l, t) == l[CHOOSE i \in 1..Len(l) : l[i] \in To[t] /\ \A j \in 1..(i - 1) : l[j] \notin To[t]]
Compatible(l, m, c) == \A i \in 1..Len(l) : RangeS(m) \cap To[ResT(c, l[i])] # {}
\* what can be given to dispatch() of a context
Accepts(l, t) == t \in RangeS(l) \/ Cardinality(RangeS(l) \cap To[t]) = 1
Given(l, v) == IF v[1] \in RangeS(l) THEN v
               ELSE As(v, CHOOSE t \in RangeS(l) : t \in To[v[1]])

\* what arrives at the root when v (of a type of its list) is given to context i
RECURSIVE Arrives(_, _)
Arrives(i, v) ==
  IF i = 1 THEN v
  ELSE LET c == ctx[i]
           x == IF c.conv = "no" THEN v ELSE Apply(c.conv, v)
       IN Arrives(c.parent, As(x, First(ListOf[ctx[c.parent].list], x[1])))
\* how often converters are called on the way
RECURSIVE Convd(_)
Convd(i) == IF i = 1 THEN 0 ELSE (IF ctx[i].conv = "no" THEN 0 ELSE 1) + Convd(ctx[i].parent)

\* the action of type t that is dispatched with number k
Val(t, k) == CASE t = "V" -> <<"V", <<IF k % 2 = 0 THEN "A" ELSE "B", k>>>>
               [] t = "W" -> IF k % 3 = 0 THEN <<"W", <<"C", k>>>>
                             ELSE <<"W", <<"V", <<IF k % 3 = 1 THEN "A" ELSE "B", k>>>>>>
               [] OTHER -> <<t, k>>

Init == /\ \E r \in Roots : root = RootOf[r] /\ ctx = <<[list |-> RootOf[r].list, parent |-> 0, conv |-> "no"]>>
        /\ q = <<>> /\ n = 0 /\ h = <<>>
Step(a, o) == h' = Append(h, [a |-> a, o |-> o])
NoObs == [log |-> <<>>, convs |-> 0]

Derive(p, l, c) ==
  /\ Len(ctx) < MaxCtx
  /\ Compatible(ListOf[l], ListOf[ctx[p].list], c)
  /\ ctx' = Append(ctx, [list |-> l, parent |-> p, conv |-> c])
  /\ UNCHANGED <<root, q, n>>
  /\ Step([op |-> "derive", p |-> p, l |-> l, conv |-> c], NoObs)
Dispatch(i, t) ==
  LET l == ListOf[ctx[i].list] IN
  /\ l # <<>> /\ Accepts(l, t)
  /\ LET x == Arrives(i, Given(l, Val(t, n + 1)))
     IN /\ IF root.store THEN q' = Append(q, <<"red", x, n + 1>>) ELSE q' = q
        /\ Step([op |-> "d", i |-> i, t |-> t, n |-> n + 1],
                [log |-> IF root.store THEN <<>> ELSE <<<<"fn", x>>>>, convs |-> Convd(i)])
  /\ n' = n + 1
  /\ UNCHANGED <<root, ctx>>
\* the loop of a context is the one of the root
Post(i, f) ==
  /\ q' = Append(q, <<f, n + 1>>)
  /\ n' = n + 1
  /\ UNCHANGED <<root, ctx>>
  /\ Step([op |-> "post", f |-> f, i |-> i, n |-> n + 1], NoObs)
Call(i, f) ==
  /\ UNCHANGED <<root, ctx, q, n>>
  /\ Step([op |-> "call", f |-> f, i |-> i], [log |-> <<<<f, 0>>>>, convs |-> 0])
\* the loop runs; futures complete after all that was posted before
RECURSIVE Futs(_)
Futs(qq) == IF qq = <<>> THEN <<>>
            ELSE (IF Head(qq)[1] = "red" THEN <<<<"done", Head(qq)[3]>>>> ELSE <<>>) \o Futs(Tail(qq))
Drain ==
  /\ q # <<>>
  /\ q' = <<>>
  /\ UNCHANGED <<root, ctx, n>>
  /\ Step([op |-> "drain"], [log |-> [i \in 1..Len(q) |-> <<q[i][1], q[i][2]>>]
                                     \o (IF root.fut THEN Futs(q) ELSE <<>>),
                             convs |-> 0])
Next == /\ Len(h) < MaxLen
        /\ \/ \E p \in 1..Len(ctx) : \E l \in Lists : \E c \in Convs \cup {"no"} : Derive(p, l, c)
           \/ \E i \in 1..Len(ctx) : \E t \in ATypes : Dispatch(i, t)
           \/ \E i \in 1..Len(ctx) : i = Len(ctx) /\ Post(i, "post")
           \/ Drain
Spec == Init /\ [][Next]_vars

R(x) == {RandomElement(x)}
SimStep == /\ Len(h) < MaxLen
           /\ \E x \in R(1..10) : \E p \in R(1..Len(ctx)) : \E l \in R(Lists) :
              \E c \in R(Convs \cup {"no"}) : \E t \in R(ATypes) :
              CASE x <= 4 -> Derive(p, l, c)
                [] x <= 8 -> Dispatch(p, t)
                [] x = 9 -> \/ \E f \in R({"post", "async"}) : Post(p, f)
                            \/ \E f \in R({"finish", "pause", "resume"}) : Call(p, f)
                [] x = 10 -> Drain
Retry == Len(h) < MaxLen /\ UNCHANGED vars
SimSpec == Init /\ [][SimStep \/ Retry]_vars

Emit == PrintT("B" \o ToJson([root |-> root, h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([root |-> root, h |-> h']))

\* -------------------------------------------------------------- properties
RECURSIVE Leaf(_)
Leaf(v) == IF v[1] \in {"V", "W"} THEN Leaf(v[2]) ELSE v
RECURSIVE Incs(_), Swaps(_)
Incs(i) == IF i = 1 THEN 0 ELSE (IF ctx[i].conv = "inc" THEN 1 ELSE 0) + Incs(ctx[i].parent)
Swaps(i) == IF i = 1 THEN 0 ELSE (IF ctx[i].conv = "swap" THEN 1 ELSE 0) + Swaps(ctx[i].parent)
Swapped(t, k) == IF k % 2 = 0 \/ t = "C" THEN t ELSE IF t = "A" THEN "B" ELSE "A"
\* the contents and the alternative are those that were dispatched, but for the
\* converters, and the root gets one of its types
InvContents == \A i \in 1..Len(ctx) : \A t \in RangeS(ListOf[ctx[i].list]) \ {"V", "W"} :
  LET x == Arrives(i, <<t, 7>>)
  IN /\ Leaf(x) = <<Swapped(t, Swaps(i)), 7 + 1000 * Incs(i)>>
     /\ x[1] \in RangeS(ListOf[root.list])
\* whichever alternatives are used on the way
RECURSIVE Ways(_, _)
Ways(i, v) == IF i = 1 THEN {v}
  ELSE LET c == ctx[i]
           x == IF c.conv = "no" THEN v ELSE Apply(c.conv, v)
           m == RangeS(ListOf[ctx[c.parent].list])
       IN UNION {Ways(c.parent, As(x, t)) : t \in m \cap To[x[1]]}
InvWays == \A i \in 1..Len(ctx) : \A t \in RangeS(ListOf[ctx[i].list]) \ {"V", "W"} :
  Ways(i, <<t, 7>>) = {Arrives(i, <<t, 7>>)}
InvCompat == \A i \in 2..Len(ctx) :
  \A t \in RangeS(ListOf[ctx[i].list]) : \E u \in RangeS(ListOf[ctx[ctx[i].parent].list]) :
    u \in To[ResT(ctx[i].conv, t)]
\* everything that is posted waits once, in the order in which it was posted
InvQueue == \A i, j \in 1..Len(q) : i < j =>
  (LET k(x) == IF x[1] = "red" THEN x[3] ELSE x[2] IN k(q[i]) < k(q[j]))
================================================================================
