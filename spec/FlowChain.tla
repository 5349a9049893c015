------------------------------ MODULE FlowChain ------------------------------
(* Composed expressions: FlowMC over all the pipelines of ChainSet.  The    *)
(* replay builds each pipeline with every subset of its intermediate        *)
(* expressions made into actual cursors, all of which have to behave alike. *)
EXTENDS FlowMC

Passes(t) == ChainGet(t.nodes[Len(t.nodes)].f, 1, <<1, 1>>) # NoVal
CInit == \E t \in {t \in ChainSet : Passes(t)} :
           ti = t /\ S = Build(t) /\ h = <<>>
CSpec == CInit /\ [][Next]_vars
=============================================================================
