----------------------------- MODULE ResizeModel -----------------------------
(* Laws of the kernels of Resize.tla for all lengths in bounds: every result  *)
(* pixel covers something, the kernels are symmetric, whole reductions by a   *)
(* box partition the source, and means of equal values are that value.        *)
EXTENDS Resize
CONSTANT N
VARIABLES n, m, x, filter
Init == n \in 1..N /\ m \in 1..N /\ x \in 0..(N - 1) /\ x < m /\ filter \in {Box, Linear}
Next == UNCHANGED <<n, m, x, filter>>
Spec == Init /\ [][Next]_<<n, m, x, filter>>
Covers == Covered(filter, n, m, x) # {}
Symmetric == \A j \in 0..(n - 1) : Weight(filter, n, m, x, j) = Weight(filter, n, m, m - 1 - x, n - 1 - j)
Whole == filter = Box /\ n % m = 0 => /\ Covered(Box, n, m, x) = (x*(n \div m))..((x + 1)*(n \div m) - 1) /\ ~Edge(Box, n, m, x)
Replicates == (filter = Box /\ m % n = 0 /\ ~Edge(Box, n, m, x)) => Covered(Box, n, m, x) = {x \div (m \div n)}
Contiguous == \A i, j \in Covered(filter, n, m, x) : \A k \in i..j : k \in Covered(filter, n, m, x)
Constant == Mean(filter, n, m, x, [j \in 1..n |-> 777]) = 777
\* a ramp keeps its direction
Monotone == x + 1 < m => Mean(filter, n, m, x, [j \in 1..n |-> 1000*j]) <= Mean(filter, n, m, x + 1, [j \in 1..n |-> 1000*j])
=============================================================================
