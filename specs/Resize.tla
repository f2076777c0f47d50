------------------------------- MODULE Resize -------------------------------
(* C19: resizing.  Pixels are quadruples of fixed point numbers as read; for  *)
(* sRGB images they are compared and averaged as linear light.                *)
EXTENDS ImageFormats, Srgb

Box == 0  Linear == 1
\* formats that only know the box and linear filters
Plain == {Int16, Int32, UInt32, DoubleF, ComplexF}
Succeeds(f, filter, w, h, dw, dh) == dw > 0 /\ dh > 0 /\ (<<w, h>> = <<dw, dh>> \/ f \notin Plain \/ filter \in {Box, Linear})

Light(cs, c, v) == IF cs = 0 \/ c = 4 THEN v ELSE (Lin24(v) + 128) \div 256
Step(f, c) == CASE Bits(f, c) = 5 -> 2115 [] Bits(f, c) = 6 -> 1041 [] Bits(f, c) = 8 -> 257 [] OTHER -> 2
\* precision of a result: rounding of two passes, and for sRGB storing light and colours in the format
Tol(f, cs, c) ==
    CASE Kind(f) = "norm" -> (IF cs = 0 \/ c = 4 THEN Step(f, c) ELSE 3*Step(f, c)) + (IF Bits(f, c) < 8 THEN Step(f, c) ELSE 0) + 6
      [] Kind(f) \in {"int", "uint"} -> Unit + 4
      [] OTHER -> IF cs = 0 THEN 6 ELSE 12

\* how much source pixel j (from 0) contributes to pixel x when n pixels become m: a tent as wide as a source or result pixel, or a box
Distance(n, m, x, j) == Abs((2*j + 1)*m - (2*x + 1)*n)
Weight(filter, n, m, x, j) ==
    LET d == Distance(n, m, x, j) r == Max(n, m) IN
    IF filter = Box THEN (IF d <= r THEN 1 ELSE 0) ELSE Max(2*r - d, 0)
Covered(filter, n, m, x) == {j \in 0..(n - 1) : Weight(filter, n, m, x, j) > 0}
\* a pixel is covered to its very edge: its weight is a matter of rounding
Edge(filter, n, m, x) == filter = Box /\ \E j \in 0..(n - 1) : Distance(n, m, x, j) = Max(n, m)

RECURSIVE WeightSum(_, _, _, _, _)
WeightSum(filter, n, m, x, j) == IF j = n THEN 0 ELSE Weight(filter, n, m, x, j) + WeightSum(filter, n, m, x, j + 1)
RECURSIVE Weighted(_, _, _, _, _, _)
Weighted(filter, n, m, x, v, j) == IF j = n THEN 0 ELSE Weight(filter, n, m, x, j)*v[j + 1] + Weighted(filter, n, m, x, v, j + 1)
\* mean of the values v of n pixels as seen from pixel x of m
Mean(filter, n, m, x, v) == Weighted(filter, n, m, x, v, 0) \div WeightSum(filter, n, m, x, 0)
\* plane: rows of light of one channel
Mean2(filter, plane, dw, dh, x, y) ==
    LET h == Len(plane) w == Len(plane[1]) IN
    Mean(filter, h, dh, y, [i \in 1..h |-> IF Weight(filter, h, dh, y, i - 1) = 0 THEN 0 ELSE Mean(filter, w, dw, x, plane[i])])

SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b

\* channel c of pixel <<x, y>> (from 0) is `out`
ChannelOK(f, cs, filter, plane, dw, dh, c, x, y, out) ==
    LET h == Len(plane) w == Len(plane[1])
        tol == Tol(f, cs, c)
        l == Light(cs, c, out)
        near == {plane[j + 1][i + 1] : j \in Covered(filter, h, dh, y), i \in Covered(filter, w, dw, x)}
        all == UNION {{plane[j][i] : i \in 1..w} : j \in 1..h}
        one == SetMin(all)
        uniform == Cardinality(all) = 1
    IN CASE uniform -> Abs(l - one) <= (IF cs = 0 \/ c = 4 THEN (IF Kind(f) = "float" THEN 2 ELSE 0) ELSE tol)
         [] filter \in {Box, Linear} ->
              /\ l >= SetMin(near) - tol /\ l <= SetMax(near) + tol
              /\ Edge(filter, w, dw, x) \/ Edge(filter, h, dh, y) \/ Abs(l - Mean2(filter, plane, dw, dh, x, y)) <= tol + 4
         [] OTHER -> TRUE
=============================================================================
