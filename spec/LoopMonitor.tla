----------------------------- MODULE LoopMonitor -----------------------------
(* What may be observed of an event loop that several threads use: C22, C23. *)
(* Events, in the order in which they were seen:                             *)
(*  [e |-> "pb", t, k]  thread t starts to post function k (k is unique)      *)
(*  [e |-> "pe", t, k]  that call returned                                   *)
(*  [e |-> "sb", k], [e |-> "se", x]  the owner (thread 0) enters the loop, and  *)
(*                      leaves it, with the exception of function x (0: none); *)
(*                      k = 0: everything posted before has to be run by then *)
(*  [e |-> "r", t, k]   function k starts to run in thread t                 *)
(*  [e |-> "re", k]     function k is over                                   *)
(*  [e |-> "ab", t, k]  thread t calls async() with function k               *)
(*  [e |-> "ar", t, k]  function k of an async() runs in thread t             *)
(*  [e |-> "fin"]       finish() is called: the loop ends                     *)
(*  [e |-> "all"]       a long time passed in which the loop could run        *)
(*  [e |-> "pz"], [e |-> "rs"]  the owner paused the loop, or will resume it  *)
(*  [e |-> "hd"]        the loop calls a handler of native events or a tick   *)
(*  [e |-> "end"]       nothing more will happen                             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

MonInit == [posts |-> [t \in 0..9 |-> <<>>], begun |-> {}, done |-> {}, ran |-> {},
            over |-> {}, cur |-> 0, in |-> FALSE, open |-> FALSE, must |-> {},
            asy |-> {}, fin |-> FALSE, paused |-> FALSE, bad |-> ""]
Bad(M, w) == [M EXCEPT !.bad = IF @ = "" THEN w ELSE @]
Range(s) == {s[i] : i \in 1..Len(s)}

\* the functions that the same thread posted before k
Before(M, k) == UNION {LET s == M.posts[t] IN
    IF k \in Range(s)
    THEN {s[i] : i \in {i \in 1..Len(s) : \E j \in (i + 1)..Len(s) : s[j] = k}}
    ELSE {} : t \in DOMAIN M.posts}

MonStep(M, e) ==
  CASE e.e = "pb" ->
         IF e.k \in M.begun THEN Bad(M, "harness: number used twice")
         ELSE [M EXCEPT !.posts[e.t] = Append(@, e.k), !.begun = @ \cup {e.k},
                        !.open = IF e.t = 0 THEN TRUE ELSE @]
    [] e.e = "pe" -> [M EXCEPT !.done = @ \cup {e.k}, !.open = IF e.t = 0 THEN FALSE ELSE @]
    [] e.e = "sb" -> [M EXCEPT !.in = TRUE, !.must = IF e.k = 0 THEN M.done \ M.ran ELSE {}]
    [] e.e = "se" ->
         IF e.x = 0
         THEN IF M.cur # 0 THEN Bad(M, "the loop returns while a function runs")
              ELSE IF ~M.fin /\ ~(M.must \subseteq M.ran)
              THEN Bad(M, "a function posted before the step was not run by it")
              ELSE [M EXCEPT !.in = FALSE]
         ELSE IF M.cur # e.x THEN Bad(M, "an exception of another function")
              ELSE [M EXCEPT !.in = FALSE, !.cur = 0, !.over = @ \cup {e.x}]
    [] e.e = "r" ->
         IF e.k \notin M.begun THEN Bad(M, "a function runs that was not posted")
         ELSE IF e.k \in M.ran THEN Bad(M, "a function runs twice")
         ELSE IF e.t # 0 THEN Bad(M, "a function runs in another thread")
         ELSE IF ~M.in THEN Bad(M, "a function runs outside of the loop")
         ELSE IF M.open THEN Bad(M, "a function runs inside of post()")
         ELSE IF M.cur # 0 THEN Bad(M, "a function runs inside of another one")
         ELSE IF ~(Before(M, e.k) \subseteq M.ran)
         THEN Bad(M, "a function runs before one that the same thread posted earlier")
         ELSE [M EXCEPT !.ran = @ \cup {e.k}, !.cur = e.k]
    [] e.e = "re" -> IF M.cur # e.k THEN Bad(M, "harness: re")
                     ELSE [M EXCEPT !.cur = 0, !.over = @ \cup {e.k}]
    [] e.e = "ab" -> [M EXCEPT !.asy = @ \cup {e.k}]
    [] e.e = "ar" -> IF e.k \notin M.asy THEN Bad(M, "an async function runs twice, or uncalled")
                     ELSE IF e.t = 0 THEN Bad(M, "an async function runs in the thread of the loop")
                     ELSE [M EXCEPT !.asy = @ \ {e.k}]
    [] e.e = "fin" -> [M EXCEPT !.fin = TRUE]
    [] e.e = "all" -> IF M.done \subseteq M.ran THEN M
                      ELSE Bad(M, "a function is not run by the loop")
    [] e.e = "pz" -> [M EXCEPT !.paused = TRUE]
    [] e.e = "rs" -> [M EXCEPT !.paused = FALSE]
    [] e.e = "hd" -> IF M.paused THEN Bad(M, "the loop handles events while paused")
                     ELSE IF M.cur # 0
                     THEN Bad(M, "the loop handles events while a function runs")
                     ELSE M
    [] e.e = "end" -> IF ~M.fin /\ M.ran # M.begun THEN Bad(M, "a function was lost")
                      ELSE IF M.asy # {} THEN Bad(M, "an async function was lost")
                      ELSE IF M.in THEN Bad(M, "the loop does not end")
                      ELSE M
=============================================================================
