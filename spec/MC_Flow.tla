------------------------------- MODULE MC_Flow -------------------------------
(* Closure of the typing discipline: a value that starts secret and goes      *)
(* through any number of accepted programs is public only after an explicit   *)
(* conversion or declassification, and becomes an index only from a byte or   *)
(* by declassification.                                                       *)
EXTENDS Secrecy
VARIABLES ty, route, via
Explicitly == Convert \cup {"declassify", "display", "debug", "lowerhex"}
Implicit == Coerce \cup ConstantPub
Init == ty \in Secret /\ route = {} /\ via = ty
Go(f, b) == /\ ty' = b /\ via' = ty
            /\ route' = route \cup (IF f \in Convert THEN {"conversion"} ELSE IF f \in Explicitly THEN {f} ELSE {})
Next == /\ ty \in Secret
        /\ \/ \E f \in Constant : <<ty, ty>> \in Holes(f) /\ Verdict(f, ty, ty) # "no" /\ Go("constant", ty)
           \/ \E b \in Secret : Go("recast", b)                       \* between secret types
           \/ \E f \in Implicit, b \in Public : <<ty, b>> \in Holes(f) /\ Verdict(f, ty, b) # "no" /\ Go(f, b)
           \/ \E f \in Convert \cup {"declassify"}, b \in Public : <<ty, b>> \in Holes(f) /\ Verdict(f, ty, b) # "no" /\ Go(f, b)
           \/ \E f \in {"display", "debug", "lowerhex"} : Verdict(f, ty, ty) # "no" /\ Go(f, "bool")
Spec == Init /\ [][Next]_<<ty, route, via>>
NoLeak == ty \in Public => route # {}
Indexing == (ty = "usize" /\ "declassify" \notin route) => via = "U8"
Widths == (ty \in PubInt /\ "declassify" \notin route) => Width(ty) >= Width(via) /\ via \in Unsigned
=============================================================================
