----------------------------- MODULE RealsCheck -------------------------------
(* The constants of Digits.tla are those that Reals.tla defines. *)
EXTENDS Reals, TLC
VARIABLE k
Def == CASE k = "pi" -> PiDef(CDigits) [] k = "ln10" -> Ln10Def(CDigits) [] k = "e" -> EDef(CDigits)
Lit == CASE k = "pi" -> PiC [] k = "ln10" -> Ln10C [] k = "e" -> EC
Init == k \in {"pi", "ln10", "e"}
Next == UNCHANGED k
Same == Def = Lit \/ ~PrintT(<<"DIFFERS", k, Def>>)
Spec == Init /\ [][Next]_k
=============================================================================
