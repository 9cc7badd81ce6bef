-------------------------------- MODULE Deep --------------------------------
(* Deep(x) is x.  The Java class of the same name makes TLC evaluate x       *)
(* completely at once, instead of keeping functions as unevaluated lambdas.  *)
Deep(x) == x
=============================================================================
