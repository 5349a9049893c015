--------------------------------- MODULE Deps ---------------------------------
(* lager::deps: bags of dependencies with keys: C18.                          *)
(*                                                                            *)
(* A type of bag (Types) gives a specification to some of the keys 1 and 2:   *)
(* "V" value, "R" reference, "FV" and "FR" functions that return them, and    *)
(* "OV", "OR", "OFV", "OFR" optional ones.  A bag b holds for each key what   *)
(* is stored: <<"v", n>> a value, <<"r", o>> the identity of an object,       *)
(* <<"fv", f>> and <<"fr", f>> functions, or <<>> for an optional one that    *)
(* is not provided.  Function f returns new values 100 * f + 1, 100 * f + 2,  *)
(* ... or the object of the same number.                                      *)
\* n: which of the types it is (0: the type that merge() makes)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Slots, Makes, Merges, Dests, BothDests
VARIABLES slot,    \* bags, or "none"
          obj,     \* values of the objects
          calls,   \* how often each function was called
          h
vars == <<slot, obj, calls, h>>
view == <<slot, obj, calls, Len(h)>>

NO == "no"
Ty(a, b) == <<a, b>>
\* (the harness declares the dependencies of some of them in another order)
Types == <<
  Ty("V", "V"), Ty("R", NO), Ty("V", "R"), Ty("OV", "FR"), Ty("FV", "OV"), Ty("FR", NO),
  Ty("OR", "FV"), Ty("OFV", NO), Ty(NO, NO), Ty("R", "OFR"), Ty(NO, "R"), Ty("V", NO),
  Ty("OV", "OV"), Ty("OR", "V"), Ty("OFR", "OR") >>
Optional(s) == s \in {"OV", "OR", "OFV", "OFR"}
Required(s) == s \notin {NO, "OV", "OR", "OFV", "OFR"}
\* what can be extracted as what
Conv1(s, d) == \/ d = NO
               \/ Optional(d) /\ s = NO
               \/ s = d
               \/ <<s, d>> \in {<<"V", "OV">>, <<"R", "OR">>, <<"FV", "V">>, <<"FR", "R">>,
                                <<"FR", "V">>, <<"FV", "OFV">>, <<"FR", "OFR">>}
Conv(t, u) == Conv1(t[1], u[1]) /\ Conv1(t[2], u[2])
Over(a, b) == IF b = NO THEN a ELSE b
MergeT(t, u) == <<Over(t[1], u[1]), Over(t[2], u[2])>>

\* the state of the world that functions change: [calls |-> .., v |-> result]
Call(c, f, k) == [c |-> [c EXCEPT ![f] = @ + 1],
                  v |-> IF k = "fv" THEN <<"v", 100 * f + c[f] + 1>> ELSE <<"r", f>>]
Keep(c, v) == [c |-> c, v |-> v]
\* stores x, of specification s, as d
Extract(c, s, d, x) ==
  IF d = NO \/ s = NO THEN Keep(c, <<>>)
  ELSE IF d \in {"V", "R"} /\ s \in {"FV", "FR"}
  THEN LET r == Call(c, x[2], x[1])
       IN IF d = "V" /\ r.v[1] = "r" THEN Keep(r.c, <<"v", obj[r.v[2]]>>) ELSE Keep(r.c, r.v)
  ELSE Keep(c, x)
\* both keys; key 1 is extracted first iff ord = 1 (this is not promised: only
\* distinct functions are used at once)
Convert(c, b, n) ==
  LET u == Types[n]
      r1 == Extract(c, b.t[1], u[1], b.x[1])
      r2 == Extract(r1.c, b.t[2], u[2], b.x[2])
  IN [c |-> r2.c, b |-> [t |-> u, x |-> <<r1.v, r2.v>>, n |-> n]]
MergeB(b1, b2) ==
  [t |-> MergeT(b1.t, b2.t), n |-> 0,
   x |-> [k \in 1..2 |-> IF b2.t[k] = NO THEN b1.x[k] ELSE b2.x[k]]]

\* what a bag gives: for each key has and get
Get1(c, s, x) == IF s = NO THEN Keep(c, <<"no">>)
                 ELSE IF x = <<>> THEN Keep(c, <<"missing">>)
                 ELSE IF x[1] \in {"fv", "fr"} THEN Call(c, x[2], x[1])
                 ELSE Keep(c, x)
Get(c, b) == LET r1 == Get1(c, b.t[1], b.x[1])
                 r2 == Get1(r1.c, b.t[2], b.x[2])
             IN [c |-> r2.c, g |-> <<r1.v, r2.v>>]
Empty == [t |-> <<"none", "none">>, n |-> 0, x |-> <<<<>>, <<>>>>]
Is(i) == slot[i].t # Empty.t

Init == /\ slot = [i \in 1..Slots |-> Empty]
        /\ obj = [o \in 1..4 |-> 10 * o]
        /\ calls = [f \in 1..4 |-> 0]
        /\ h = <<>>
\* stores bag b in slot i, and looks into it
Put(a, i, b, c, ob) ==
  LET g == Get(c, b)
      v(x) == IF x[1] = "r" THEN ob[x[2]] ELSE 0
  IN /\ slot' = [slot EXCEPT ![i] = b]
     /\ obj' = ob
     /\ calls' = g.c
     /\ h' = Append(h, [a |-> a, o |-> [g |-> g.g, calls |-> g.c, obj |-> ob,
                                        vals |-> <<v(g.g[1]), v(g.g[2])>>]])

\* a new bag; it uses object or function 2 * i - 1 for key 1 and 2 * i for key 2
Fresh(s, n, p) == CASE s = NO -> <<>>
                    [] Optional(s) /\ ~p -> <<>>
                    [] s \in {"V", "OV"} -> <<"v", n>>
                    [] s \in {"R", "OR"} -> <<"r", n>>
                    [] s \in {"FV", "OFV"} -> <<"fv", n>>
                    [] s \in {"FR", "OFR"} -> <<"fr", n>>
NSrc(i, k) == 2 * (((i - 1) % 2)) + k
Make(i, t, p) ==
  LET b == [t |-> Types[t], n |-> t, x |-> [k \in 1..2 |-> Fresh(Types[t][k], NSrc(i, k), p[k])]]
  IN Put([op |-> "make", i |-> i, t |-> t, p |-> p], i, b, calls, obj)
Convert_(i, j, t) ==
  /\ Is(i) /\ Conv(slot[i].t, Types[t])
  /\ LET r == Convert(calls, slot[i], t)
     IN Put([op |-> "conv", i |-> i, j |-> j, t |-> t], j, r.b, r.c, obj)
Merge(i, j, k) ==
  /\ Is(i) /\ Is(j) /\ i # j
  /\ Put([op |-> "merge", i |-> i, j |-> j, k |-> k], k, MergeB(slot[i], slot[j]), calls, obj)
\* deps<T>{a, b}
Both(i, j, k, t) ==
  /\ Is(i) /\ Is(j) /\ i # j
  /\ LET b == MergeB(slot[i], slot[j]) IN
     /\ Conv(b.t, Types[t])
     /\ LET r == Convert(calls, b, t)
        IN Put([op |-> "both", i |-> i, j |-> j, k |-> k, t |-> t], k, r.b, r.c, obj)
Copy(i, j) == Is(i) /\ i # j /\ Put([op |-> "copy", i |-> i, j |-> j], j, slot[i], calls, obj)
Look(i) == Is(i) /\ Put([op |-> "look", i |-> i], i, slot[i], calls, obj)
Mutate(o, i) == Is(i) /\ Put([op |-> "mut", o |-> o, i |-> i], i, slot[i], calls,
                             [obj EXCEPT ![o] = @ + 1])

Pres(t) == {p \in {<<TRUE, TRUE>>, <<FALSE, TRUE>>, <<TRUE, FALSE>>, <<FALSE, FALSE>>} :
              \A k \in 1..2 : ~p[k] => Optional(Types[t][k])}
Next == /\ Len(h) < MaxLen
        /\ \/ \E i \in 1..Slots : \E t \in Makes : \E p \in Pres(t) :
                Len(h) < 2 /\ i = Len(h) + 1 /\ Make(i, t, p)
           \/ \E i, j \in 1..Slots : \E t \in Dests : Convert_(i, j, t)
           \/ \E i, j, k \in 1..Slots :
                /\ slot[i].n \in Merges /\ slot[j].n \in Merges
                /\ Merge(i, j, k) \/ \E t \in BothDests : Both(i, j, k, t)
           \/ \E i, j \in 1..Slots : Copy(i, j)
           \/ \E i \in 1..Slots : \E o \in 1..4 : Mutate(o, i)
Spec == Init /\ [][Next]_vars

R(x) == {RandomElement(x)}
SimStep == /\ Len(h) < MaxLen
           /\ \E x \in R(1..10) : \E i \in R(1..Slots) : \E j \in R(1..Slots) : \E k \in R(1..Slots) :
              \E m \in R(Makes) : \E t \in R(Dests) : \E b \in R(BothDests) : \E o \in R(1..4) : \E p \in R(BOOLEAN) : \E q \in R(BOOLEAN) :
              CASE x <= 3 -> Make(i, m, <<p \/ ~Optional(Types[m][1]), q \/ ~Optional(Types[m][2])>>)
                [] x <= 5 -> Convert_(i, j, t)
                [] x = 6 -> /\ slot[i].n \in Merges /\ slot[j].n \in Merges
                            /\ Merge(i, j, k)
                [] x = 7 -> /\ slot[i].n \in Merges /\ slot[j].n \in Merges
                            /\ Both(i, j, k, b)
                [] x = 8 -> Copy(i, j)
                [] x = 9 -> Look(i)
                [] x = 10 -> Is(i) /\ Mutate(o, i)
Retry == Len(h) < MaxLen /\ UNCHANGED vars
SimSpec == Init /\ [][SimStep \/ Retry]_vars

Emit == PrintT("B" \o ToJson([h |-> h']))
SimEmit == (Len(h') = MaxLen /\ Len(h) < MaxLen) => PrintT("B" \o ToJson([h |-> h']))

\* -------------------------------------------------------------- properties
\* required dependencies are always there, optional ones iff they were provided
InvRequired == \A i \in 1..Slots : Is(i) => \A k \in 1..2 :
  Required(slot[i].t[k]) => slot[i].x[k] # <<>>
\* bags hold what their types say
InvKinds == \A i \in 1..Slots : Is(i) => \A k \in 1..2 :
  LET s == slot[i].t[k]
      x == slot[i].x[k]
  IN CASE s = NO -> x = <<>>
       [] s = "V" -> x[1] = "v" [] s = "R" -> x[1] = "r"
       [] s = "FV" -> x[1] = "fv" [] s = "FR" -> x[1] = "fr"
       [] s = "OV" -> x = <<>> \/ x[1] = "v" [] s = "OR" -> x = <<>> \/ x[1] = "r"
       [] s = "OFV" -> x = <<>> \/ x[1] = "fv" [] s = "OFR" -> x = <<>> \/ x[1] = "fr"
\* references keep their identity: key k of any bag only ever refers to the
\* objects that were provided for key k
InvKeys == \A i \in 1..Slots : Is(i) => \A k \in 1..2 :
  LET x == slot[i].x[k] IN (x # <<>> /\ x[1] \in {"r", "fr", "fv"}) => x[2] % 2 = k % 2
\* nothing but access and conversion calls functions, and not more than once per
\* key and step each
PropCalls == [][ \A f \in 1..4 : calls'[f] \in calls[f]..(calls[f] + 2) ]_vars
\* a merged bag has what the later one has
PropMerge == [][ (Len(h') > Len(h) /\ h'[Len(h')].a.op = "merge") =>
  LET a == h'[Len(h')].a IN
  \A k \in 1..2 : slot'[a.k].x[k] = IF slot[a.j].t[k] # NO THEN slot[a.j].x[k] ELSE slot[a.i].x[k] ]_vars
===============================================================================
