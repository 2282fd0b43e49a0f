------------------------------ MODULE CgCover ------------------------------
(* What is generated at every place of the notation: the modules of Plan,
   translated by CodeGen.                                                      *)
EXTENDS CodeGen, Plan

Undone == tab = NoTable /\ pos = 1 /\ decls = <<>> /\ err = FALSE /\ gray = FALSE /\ uses = {} /\ ph = "derive"
PlanInit == PInit /\ Undone
PlanDerive == ph = "derive" /\ stk # <<>> /\ PNext /\ UNCHANGED <<tab, pos, decls, err, gray, uses, ph>>
PlanNext == PlanDerive \/ (Begin /\ Still) \/ (Translate /\ Still) \/ (Write /\ Still)
PlanSpec == PlanInit /\ [][PlanNext]_<<cvars, pvars>>
=============================================================================
