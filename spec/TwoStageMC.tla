------------------------------ MODULE TwoStageMC ------------------------------
(* The builder for every function from the code space to the values and every  *)
(* block size that divides it.                                                  *)
EXTENDS TwoStageBuilder
=============================================================================
