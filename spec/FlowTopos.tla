------------------------------ MODULE FlowTopos ------------------------------
(* The graphs explored exhaustively.                                        *)
EXTENDS Flow

st(x) == Node("st", <<>>, x)
sa(x) == Node("sa", <<>>, x)
se    == Node("se", <<>>, "env")
co(x) == Node("co", <<>>, x)
lens(p, l) == Node("lens", <<p>>, l)
lens2(p, q, l) == Node("lens2", <<p, q>>, l)
map(p, f) == Node("map", <<p>>, f)
map2(p, q, f) == Node("map2", <<p, q>>, f)
map3(p, q, r, f) == Node("map3", <<p, q, r>>, f)
\* any number of sources (4 or 5 in the replay)
mapn(ps, f) == Node("mapn", ps, f)
lens3(p, q, r) == Node("lens3", <<p, q, r>>, "cat")
filt3(p, q, r, f) == Node("filt3", <<p, q, r>>, f)
merge(p, q) == Node("merge", <<p, q>>, "")
xinc(p) == Node("xinc", <<p>>, "")
xupd(p) == Node("xupd", <<p>>, "")
xmod(p, f) == Node("xmod", <<p>>, f)
x2map(p, q) == Node("x2map", <<p, q>>, "")
x2upd(p, q) == Node("x2upd", <<p, q>>, "")
filt(p, f) == Node("filt", <<p>>, f)
filt2(p, q, f) == Node("filt2", <<p, q>>, f)
sut(p, f) == Node("sut", <<p>>, f)
sua(p, f) == Node("sua", <<p>>, f)
ch1(p, s) == Node("ch1", <<p>>, s)
ch2(p, q, s) == Node("ch2", <<p, q>>, s)
no == <<"no">>
wno(ns) == [i \in 1..Len(ns) |-> <<ns[i], no>>]
T(ns, ws) == [nodes |-> ns, watch |-> ws]

AllTopos == 1..63
Topos == <<
 \* 1-8: one transactional state
 T(<<st(<<0,0>>), lens(1,"e1"), lens(1,"e2")>>, wno(<<1,2,3>>)),
 T(<<st(<<0,0>>), lens(1,"e1"), map(2,"par"), map(3,"inc")>>, wno(<<3,4,4>>)),
 T(<<st(<<0,0>>), lens(1,"e1"), lens(1,"e2"), map2(2,3,"sum")>>, wno(<<2,3,4>>)),
 T(<<st(<<0,0>>), map(1,"fst"), map(1,"sum"), map2(2,3,"dif"), map(4,"par")>>, wno(<<1,4,5>>)),
 T(<<st(<<0,0>>), lens(1,"e1"), xinc(2), xupd(1)>>, wno(<<3,4>>)),
 T(<<st(<<0,0>>), lens(1,"inc"), lens(2,"e2"), map(2,"sum")>>, wno(<<3,4>>)),
 T(<<st(<<1,2>>), lens(1,"e1"), lens(1,"e2"), lens2(2,3,"cat"), lens2(3,2,"l2")>>, wno(<<1,4,5>>)),
 T(<<st(<<0,1>>), lens(1,"e1"), lens(1,"e2"), merge(2,3), map(4,"sum"), lens(4,"e2")>>, wno(<<4,5,6>>)),
 \* 9-14: two or three states
 T(<<st(<<0>>), st(<<0>>), map2(1,2,"sum"), lens2(1,2,"cat")>>, wno(<<1,2,3,4>>)),
 T(<<st(<<0>>), st(<<1>>), merge(1,2), map(3,"dif"), map(1,"inc")>>, wno(<<2,3,4,5>>)),
 T(<<st(<<0,0>>), st(<<1>>), x2map(1,2), x2upd(1,2), map2(3,1,"sum")>>, wno(<<3,4,5>>)),
 T(<<st(<<0>>), sa(<<0>>), map2(1,2,"sum"), map(2,"par")>>, wno(<<1,2,3,4>>)),
 T(<<sa(<<0>>), sa(<<0>>), map2(1,2,"dif"), lens(1,"inc"), map2(4,3,"sum")>>, wno(<<1,3,5>>)),
 T(<<st(<<0>>), st(<<0>>), st(<<0>>), map2(1,2,"eq"), map2(4,3,"sum")>>, wno(<<3,4,5>>)),
 \* 15-19: automatic states
 T(<<sa(<<0,0>>), lens(1,"e1"), lens(1,"e2"), map2(2,3,"sum")>>, wno(<<1,2,4>>)),
 T(<<sa(<<0,0>>), lens(1,"e1"), map(1,"sum")>>, <<<<2,<<"clamp",2>>>>, <<2,no>>, <<3,no>>>>),
 T(<<sa(<<0>>), sa(<<0>>), map2(1,2,"sum")>>, <<<<1,<<"set",2,<<1>>>>>>, <<3,no>>, <<2,no>>>>),
 T(<<sa(<<0>>), map(1,"inc"), map(1,"par")>>, <<<<2,no>>, <<1,<<"clamp",1>>>>, <<1,no>>, <<3,no>>>>),
 T(<<sa(<<0>>), st(<<0>>), map2(1,2,"sum")>>, <<<<1,<<"setc",2,<<2>>>>>>, <<3,no>>, <<2,<<"set",1,<<1>>>>>>>>),
 \* 20-24: filters
 T(<<st(<<0,0>>), filt(1,"even"), map(2,"sum")>>, wno(<<1,2,3>>)),
 T(<<st(<<1,0>>), filt(1,"even"), map(2,"fst"), filt(3,"nz")>>, wno(<<2,3,4>>)),
 T(<<st(<<0>>), st(<<1>>), filt2(1,2,"ne"), map(3,"sum")>>, wno(<<3,4>>)),
 T(<<sa(<<0,0>>), lens(1,"e1"), filt(2,"no2"), map2(3,1,"sum")>>, wno(<<3,4>>)),
 T(<<st(<<1,1>>), ch1(1,<<<<"m","inc">>,<<"f","even">>>>), ch1(1,<<<<"f","nz">>,<<"m","sum">>>>)>>, wno(<<2,3>>)),
 \* 25-29: sensors and constants
 T(<<se, map(1,"par"), map(1,"inc")>>, wno(<<1,2,3>>)),
 T(<<se, st(<<0>>), map2(1,2,"sum"), map(3,"par")>>, wno(<<1,3,4>>)),
 T(<<co(<<1>>), st(<<0>>), map2(1,2,"sum"), map(1,"inc")>>, wno(<<1,3,4>>)),
 T(<<se, se, map2(1,2,"dif"), map2(1,2,"sum")>>, wno(<<2,3,4>>)),
 T(<<se, sa(<<0>>), co(<<2>>), map2(1,3,"sum"), map2(4,2,"dif")>>, wno(<<4,5>>)),
 \* 30-37: setters
 T(<<st(<<0,0>>), map(1,"id"), sua(1,"store"), lens(3,"e1"), map(3,"sum")>>, wno(<<1,3,5>>)),
 T(<<sa(<<0>>), sua(1,"store"), map(2,"inc")>>, wno(<<1,2,3>>)),
 T(<<sa(<<0>>), sua(1,"clamp"), map(2,"par")>>, wno(<<1,2,3>>)),
 T(<<sa(<<0>>), sua(1,"drop"), map(2,"inc")>>, wno(<<1,2,3>>)),
 T(<<st(<<0,0>>), sut(1,"store"), lens(2,"e2"), lens(2,"e1")>>, wno(<<1,2,3>>)),
 T(<<sa(<<0,0>>), sut(1,"store"), lens(2,"e1"), map(2,"sum")>>, wno(<<2,3,4>>)),
 T(<<st(<<0>>), sut(1,"drop"), map(2,"inc")>>, wno(<<1,2,3>>)),
 T(<<st(<<0,0>>), sa(<<1>>), sua(2,"else"), xinc(3)>>, wno(<<1,3,4>>)),
 \* 38-47: callbacks that change the graph
 T(<<st(<<0>>), map(1,"inc"), map(1,"par"), map(1,"id")>>, <<<<1,<<"drop",3>>>>, <<2,no>>, <<3,no>>, <<4,no>>>>),
 T(<<st(<<0>>), map(1,"inc"), map(1,"par"), map(1,"id")>>, <<<<2,<<"drop",3>>>>, <<3,no>>, <<4,<<"drop",2>>>>>>),
 T(<<st(<<0>>), map(1,"inc"), map(2,"par"), map(1,"id")>>, <<<<2,<<"mk",map(1,"sum")>>>>, <<3,no>>, <<4,no>>>>),
 T(<<st(<<0,0>>), lens(1,"e1"), map(2,"inc"), map(1,"sum")>>, <<<<1,<<"mk",map(2,"id")>>>>, <<2,<<"mk",lens(2,"inc")>>>>, <<4,no>>>>),
 T(<<sa(<<0>>), map(1,"inc"), map(1,"par"), map(1,"id")>>, <<<<2,<<"mkdrop",map(1,"sum"),3>>>>, <<3,no>>, <<4,<<"clamp",1>>>>>>),
 T(<<st(<<0>>), st(<<0>>), map2(1,2,"sum"), map(1,"inc")>>, <<<<1,<<"set",2,<<1>>>>>>, <<2,no>>, <<3,no>>, <<4,no>>>>),
 T(<<st(<<0>>), st(<<0>>), map2(1,2,"sum"), map(1,"inc")>>, <<<<1,<<"setc",2,<<1>>>>>>, <<2,no>>, <<3,no>>, <<4,no>>>>),
 T(<<st(<<0>>), st(<<0>>), map(1,"inc"), map(2,"id")>>, <<<<3,<<"com",2>>>>, <<2,<<"drop",4>>>>, <<4,no>>>>),
 T(<<st(<<0>>), map(1,"inc"), map(1,"par"), map(1,"id"), map(1,"sum")>>, <<<<2,<<"setc",1,<<2>>>>>>, <<3,<<"drop",4>>>>, <<4,no>>, <<5,no>>>>),
 T(<<st(<<0>>), map(1,"inc"), map(1,"par")>>, <<<<1,<<"mkdrop",map(2,"sum"),2>>>>, <<2,no>>, <<3,<<"mk",map2(1,3,"sum")>>>>>>),
 \* 48-: deeper mixes
 T(<<st(<<0,1>>), lens(1,"e1"), map(1,"id"), lens2(3,2,"l1e1"), map2(1,2,"sum"), filt(5,"nz")>>, wno(<<4,5,6>>)),
 T(<<st(<<0,0>>), lens(1,"e1"), map(2,"par"), map(3,"id"), map2(4,1,"sum"), map2(5,2,"dif")>>, wno(<<4,5,6>>)),
 \* 50-53: callbacks that leave writes for the next commit
 T(<<st(<<0>>), map(1,"inc"), map(1,"par")>>, <<<<1,<<"set",1,<<2>>>>>>, <<1,no>>, <<2,no>>, <<2,no>>, <<3,no>>>>),
 T(<<st(<<0,0>>), lens(1,"e1"), lens(1,"e2"), map(2,"inc")>>, <<<<2,<<"set",3,<<1>>>>>>, <<1,no>>, <<2,no>>, <<3,no>>, <<4,no>>>>),
 T(<<st(<<0>>), st(<<1>>), map(1,"inc"), map2(1,2,"sum")>>, <<<<3,<<"set",2,<<0>>>>>>, <<3,no>>, <<4,<<"set",1,<<1>>>>>>, <<4,no>>, <<2,no>>>>),
 T(<<st(<<0,0>>), lens(1,"e1"), map(2,"par"), filt(1,"even")>>, <<<<2,<<"clamp",2>>>>, <<2,no>>, <<3,no>>, <<4,no>>, <<1,no>>>>),
 \* 54-57: three sources
 T(<<st(<<0>>), st(<<1>>), st(<<0>>), map3(1,2,3,"sum"), lens3(3,1,2), map(5,"fst")>>, wno(<<3,4,5,6>>)),
 T(<<st(<<0,1>>), st(<<1>>), lens(1,"e2"), lens(1,"e1"), lens3(4,2,3), map3(2,3,5,"par")>>, wno(<<4,5,6>>)),
 T(<<st(<<0>>), se, st(<<1>>), map3(1,2,3,"sum"), filt3(3,2,1,"even"), map(5,"sum")>>, wno(<<1,4,6>>)),
 T(<<st(<<0,0>>), sa(<<1>>), lens(1,"e1"), map3(3,2,1,"inc"), map3(2,4,3,"sum")>>, wno(<<2,4,5>>)),
 \* 58-59: four and five sources
 T(<<st(<<0>>), st(<<1>>), st(<<0>>), st(<<1>>), mapn(<<1,2,3,4>>,"sum"), map2(5,4,"dif")>>, wno(<<5,6,4>>)),
 T(<<st(<<0,1>>), lens(1,"e1"), lens(1,"e2"), sa(<<1>>), mapn(<<3,1,4,2,4>>,"sum"), mapn(<<2,3,4,2>>,"par")>>, wno(<<5,6,3>>)),
 \* 60-61: one source several times
 T(<<st(<<0,1>>), lens(1,"e1"), map2(2,2,"sum"), filt2(1,1,"nz"), map(4,"sum"), map3(2,1,2,"dif")>>, wno(<<3,4,5,6>>)),
 T(<<sa(<<1>>), map2(1,1,"dif"), filt2(1,1,"even"), map3(1,1,1,"sum"), ch2(1,1,<<<<"m","inc">>>>)>>, wno(<<2,3,4,5>>)),
 \* 62-63: views that forget something of what is written or refuse some writes
 T(<<st(<<2,1>>), lens(1,"e1"), xmod(2,"low"), xmod(1,"sel"), lens(4,"e1")>>, wno(<<2,3,4,5>>)),
 T(<<sa(<<2>>), xmod(1,"low"), xmod(2,"sel"), map(3,"inc")>>, wno(<<1,2,3>>))
>>

\* nodes that the action derive can add to any of the topologies
DeriveSet == { map(1,"sum"), lens(2,"e1"), map2(1,2,"sum"), filt(1,"even"),
               map(3,"inc"), map2(1,1,"par") }
\* the pipelines of steps explored as expressions
Chains == { <<a, b>> : a \in {<<"z", "e1">>, <<"z", "e2">>, <<"m", "sum">>, <<"f", "nz">>, <<"x", "inc">>},
                       b \in {<<"z", "inc">>, <<"m", "par">>, <<"f", "even">>, <<"x", "inc">>} }
          \cup { <<a, b, c>> : a \in {<<"z", "e1">>, <<"z", "inc">>, <<"m", "inc">>, <<"f", "no2">>, <<"x", "inc">>},
                               b \in {<<"z", "inc">>, <<"m", "sum">>, <<"f", "even">>, <<"x", "inc">>, <<"z", "id">>},
                               c \in {<<"z", "e1">>, <<"m", "inc">>, <<"f", "nz">>, <<"x", "inc">>} }
\* reader expressions have no xform with two arguments
ReadOnlyChain(c, wr) ==
  TLCEval([i \in 1..Len(c) |->
     IF c[i][1] = "x" /\ (~wr \/ \E j \in 1..(i - 1) : c[j][1] \in {"m", "f"})
     THEN <<"m", c[i][2]>> ELSE c[i]])

\* all of them, over one cursor, one reader, and two cursors
ChainSet ==
  { T(<<st(<<1, 1>>), ch1(1, c)>>, wno(<<1, 2>>)) :
      c \in {ReadOnlyChain(c0, TRUE) : c0 \in Chains} }
  \cup { T(<<sa(<<1, 1>>), map(1, "id"), ch1(2, c)>>, wno(<<1, 3>>)) :
      c \in {ReadOnlyChain(c0, FALSE) : c0 \in Chains} }
  \cup { T(<<st(<<1>>), st(<<1>>), ch2(1, 2, c)>>, wno(<<1, 2, 3>>)) :
      c \in {ReadOnlyChain(c0, TRUE) : c0 \in Chains} }
  \* over cursors that are not the sources themselves, which may have been
  \* written to since they were last recomputed
  \cup { T(<<st(<<1, 1>>), lens(1, "inc"), ch1(2, c)>>, wno(<<1, 3>>)) :
      c \in {c0 \in Chains : ChainWritable(c0)} }
  \cup { T(<<st(<<1, 1>>), lens(1, "e1"), lens(1, "e2"), ch2(2, 3, c)>>, wno(<<1, 4>>)) :
      c \in {c0 \in Chains : ChainWritable(c0)} }
=============================================================================
