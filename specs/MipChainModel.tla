--------------------------- MODULE MipChainModel ---------------------------
(* The chain of levels, built level by level as a state machine for two       *)
(* elements with any custom images, against its closed form.                  *)
EXTENDS MipChain, TLC
CONSTANT Levels
VARIABLES m, customs, src, shown
vars == <<m, customs, src, shown>>
Elements == {1, 2}
Level == 1..(Levels - 1)
\* a custom image is named by its place
Choices == {"none", "once", "continue"}

Init == /\ customs \in [Elements \X Level -> Choices]
        /\ m = 1 /\ src = [e \in Elements |-> <<e, 0>>] /\ shown = [e \in Elements |-> <<<<e, 0>>>>]
Step == /\ m < Levels
        /\ shown' = [e \in Elements |-> Append(shown[e], IF customs[<<e, m>>] = "none" THEN src[e] ELSE <<e, m>>)]
        /\ src' = [e \in Elements |-> IF customs[<<e, m>>] = "continue" THEN <<e, m>> ELSE src[e]]
        /\ m' = m + 1 /\ UNCHANGED customs
Next == Step
Spec == Init /\ [][Next]_vars

\* the closed form: the own custom image, else the last continuing one, else the element's first level
Latest(e, k) == LET c == {j \in Level : j < k /\ customs[<<e, j>>] = "continue"} IN IF c = {} THEN 0 ELSE MaxSet(c)
Closed(e, k) == IF k > 0 /\ customs[<<e, k>>] # "none" THEN <<e, k>> ELSE <<e, Latest(e, k)>>
ClosedForm == \A e \in Elements : \A k \in 0..(Len(shown[e]) - 1) : shown[e][k + 1] = Closed(e, k)
OwnElement == \A e \in Elements : \A k \in 1..Len(shown[e]) : shown[e][k][1] = e
\* the recursive operator used on the traces is this machine
Customs(e) == [k \in {j \in Level : customs[<<e, j>>] # "none"} |-> [c |-> <<e, k>>, once |-> customs[<<e, k>>] = "once"]]
Operator == m = Levels => \A e \in Elements : shown[e] = Shown(<<e, 0>>, Levels, Customs(e), Flatly)
\* every slice is covered by some slice, and each covers at least one
ASSUME \A n \in 1..24 : LET k == SizeAt(n, 1) IN
            /\ \A z \in 0..(k - 1) : Covered(n, k, z) # {} /\ Covered(n, k, z) \subseteq Support(n, k, z)
            /\ UNION {Covered(n, k, z) : z \in 0..(k - 1)} = 0..(n - 1)
=============================================================================
