----------------------------- MODULE Trace_User ------------------------------
(* Traces of expressions over universes with user-defined algebras           *)
EXTENDS Trace_Expr, UserAlgebra
UMayRefuse(ty, W) == \/ ty \in Integral /\ \E w \in W : HalfMeet(w)
                     \/ Unrepresentable(ty) /\ UsesUser(W)
=============================================================================
