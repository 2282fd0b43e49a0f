----------------------------- MODULE WireCover -----------------------------
(* Values of the modules of Plan and what they are on the wire.               *)
EXTENDS Wire, Plan

PlanInit == PInit /\ tab = NoTable /\ pos = 1 /\ decls = <<>> /\ err = FALSE /\ gray = FALSE /\ uses = {} /\ ph = "derive"
PlanDerive == ph = "derive" /\ stk # <<>> /\ PNext /\ UNCHANGED <<tab, pos, decls, err, gray, uses, ph>>
PlanNext == PlanDerive \/ (Prepare /\ Still) \/ (BeginW /\ Still) \/ (Translate /\ Still) \/ (WireWrite /\ Still)
PlanSpec == PlanInit /\ [][PlanNext]_<<cvars, pvars>>
=============================================================================
