----------------------------- MODULE MC_Secrecy -----------------------------
(* Generator: one behaviour per program form, listing all programs of it.     *)
EXTENDS Secrecy, Json, SequencesExt
VARIABLE f
Init == f \in Forms
Next == UNCHANGED f
Emit == PrintT(ToJson(SetToSeq({<<f, h[1], h[2]>> : h \in Holes(f) \cup Control(f)})))
=============================================================================
