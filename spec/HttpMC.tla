-------------------------------- MODULE HttpMC -------------------------------
(* The HTTP interface of the linear debugger: C27.                           *)
(* The actions of the debugger arrive as POST requests (DebugMC); after each *)
(* step the state is also read with GET requests.  Other requests change     *)
(* nothing.                                                                  *)
EXTENDS DebugMC

\* method, target, and result: the contents of a file, an error, or anything
Reqs == {
  <<"GET", "/", "I">>, <<"GET", "/index.html", "I">>, <<"GET", "/a.js", "J">>,
  <<"GET", "/sub/b.css", "K">>, <<"GET", "/nope", "error">>,
  <<"GET", "/../secret.txt", "error">>, <<"GET", "/sub/../../secret.txt", "error">>,
  <<"GET", "../secret.txt", "error">>, <<"GET", "/sub/../../../deep.txt", "error">>,
  <<"GET", "/%2e%2e/secret.txt", "error">>, <<"GET", "//../secret.txt", "error">>,
  <<"GET", "/./.././secret.txt", "error">>, <<"GET", "/..", "error">>,
  <<"GET", "/api/undo", "error">>, <<"GET", "/api/pause", "error">>,
  <<"GET", "/api/goto/0", "error">>, <<"GET", "/api/step/", "error">>,
  <<"GET", "/api/step/x", "error">>, <<"GET", "/api/step/-1", "error">>,
  <<"GET", "/api/step/18446744073709551616", "error">>,
  <<"GET", "/api/step/99", "error">>,
  <<"POST", "/", "error">>, <<"POST", "/api", "error">>, <<"POST", "/api/step/0", "error">>,
  <<"POST", "/api/goto/", "error">>, <<"POST", "/api/goto/x", "error">>,
  <<"POST", "/api/goto/-1", "error">>, <<"POST", "/index.html", "error">>,
  <<"POST", "/api/goto/18446744073709551616", "error">>,
  <<"POST", "/api/goto/99999999999999999999999", "error">>,
  <<"POST", "/api/goto/18446744073709551615", "any">>,
  <<"POST", "/api/goto/4294967296", "any">>, <<"POST", "/api/goto/4294967297", "any">>,
  <<"POST", "/api/goto/65536", "any">>, <<"POST", "/api/goto/65537", "any">>,
  <<"POST", "/api/goto/256", "any">>, <<"POST", "/api/goto/257", "any">>,
  <<"PUT", "/api/undo", "error">>, <<"DELETE", "/api/goto/0", "error">>,
  <<"POST", "/api/undo/1", "error">>, <<"POST", "/api/undox", "error">> }

Req(r) == DStep([op |-> "req", x |-> r], S0)
\* a request to go where there is no step is also posted to the loop
ReqGoto(r) == DStep([op |-> "req", x |-> r],
                    DispatchD(P, S0, <<"goto", 1000>>).s)
DoReq(r) == IF r[3] = "any" THEN ReqGoto(r) ELSE Req(r)

HNext == \/ DNext
         \/ "req" \in Ops /\ Len(h) = MaxLen - 1 /\ \E r \in Reqs : DoReq(r)
HSpec == DInit /\ [][HNext]_vars
HSimAct == \E z \in R(1..8) : \E r \in R(Reqs) :
             IF z = 1 THEN S.gen > 0 /\ Len(h) < MaxLen /\ DoReq(r) ELSE DSimAct
HSimSpec == DSimInit /\ [][DSimGen \/ HSimAct \/ Retry]_vars
PropReq == [][ (Len(h') > Len(h) /\ h'[Len(h')].a.op = "req") =>
                 (S'.D.h = S.D.h /\ S'.D.c = S.D.c /\ S'.D.paused = S.D.paused) ]_vars
=============================================================================
