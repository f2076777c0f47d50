------------------------------ MODULE MipGrain ------------------------------
(* C02: the pixels of every level of a texture after mip generation with the  *)
(* box or linear filter.  A volume is [channel][slice][row][column], every    *)
(* value an interval <<lo, hi>> in units of 2^-16.  Halving an axis with the  *)
(* box filter is the exact average of both pixels; all other reductions are   *)
(* convex combinations of the pixels the filter reaches.  On linear values    *)
(* the linear filter weighs a pixel by its distance: a triangle that reaches  *)
(* one pixel of the smaller level to either side, normalised at the edges.    *)
EXTENDS MipChain, TLC

Hull(v, S) == <<MinSet({v[i + 1][1] : i \in S}), MaxSet({v[i + 1][2] : i \in S})>>
RECURSIVE Weighted(_, _, _, _, _, _)
Weighted(v, n, k, z, S, e) ==
    IF S = {} THEN <<0, 0>>
    ELSE LET i == CHOOSE i \in S : TRUE
             r == Weighted(v, n, k, z, S \ {i}, e)
             u == 2*n - Distance(n, k, z, i)
         IN  <<r[1] + u*v[i + 1][e], r[2] + u>>
Tent(v, n, k, z) ==
    LET lo == Weighted(v, n, k, z, Support(n, k, z), 1)
        hi == Weighted(v, n, k, z, Support(n, k, z), 2)
    IN  <<lo[1] \div lo[2], (hi[1] + hi[2] - 1) \div hi[2]>>
\* exact: on linear values
Axis(v, k, box, exact) ==
    LET n == Len(v) IN
    IF n = k THEN v
    ELSE IF exact /\ box /\ n = 2*k THEN [z \in 1..k |-> <<(v[2*z - 1][1] + v[2*z][1]) \div 2, (v[2*z - 1][2] + v[2*z][2] + 1) \div 2>>]
    ELSE IF exact /\ ~box THEN [z \in 1..k |-> Tent(v, n, k, z - 1)]
    ELSE [z \in 1..k |-> Hull(v, IF box THEN Covered(n, k, z - 1) ELSE Support(n, k, z - 1))]

AlongX(p, w, box, exact) == TLCEval([z \in 1..Len(p) |-> [y \in 1..Len(p[z]) |-> Axis(p[z][y], w, box, exact)]])
AlongY(p, h, box, exact) ==
    TLCEval([z \in 1..Len(p) |->
        LET cols == TLCEval([x \in 1..Len(p[z][1]) |-> Axis(TLCEval([y \in 1..Len(p[z]) |-> p[z][y][x]]), h, box, exact)])
        IN  [y \in 1..h |-> [x \in 1..Len(p[z][1]) |-> cols[x][y]]]])
AlongZ(p, d, box, exact) ==
    IF Len(p) = d THEN p
    ELSE LET H == Len(p[1]) W == Len(p[1][1])
             cols == TLCEval([y \in 1..H |-> [x \in 1..W |-> Axis(TLCEval([z \in 1..Len(p) |-> p[z][y][x]]), d, box, exact)]])
         IN  TLCEval([z \in 1..d |-> [y \in 1..H |-> [x \in 1..W |-> cols[y][x][z]]]])

\* how: [box, srgb]; size: [w, h, d]
ReducedVolume(v, size, how) ==
    [c \in 1..4 |-> LET e == (c = 4 \/ ~how.srgb)
                    IN  AlongZ(AlongY(AlongX(v[c], size.w, how.box, e), size.h, how.box, e), size.d, how.box, e)]

\* a custom image of channel c that is larger than its level
ReducedPlane(v, c, size, how) ==
    LET e == c = 4 \/ ~how.srgb
    IN  AlongY(AlongX(<<v>>, size.w, how.box, e), size.h, how.box, e)[1]

RECURSIVE GrainChain(_, _, _, _, _, _)
GrainChain(src, m, n, sizes, customs, how) ==
    IF m >= n THEN <<>>
    ELSE LET gen == TLCEval(ReducedVolume(src, sizes[m + 1], how))
             has == m \in DOMAIN customs
             shown == IF has THEN customs[m].c ELSE gen
             cont == IF has /\ ~customs[m].once THEN customs[m].c ELSE gen
         IN  <<shown>> \o GrainChain(cont, m + 1, n, sizes, customs, how)
GrainShown(base, n, sizes, customs, how) == <<base>> \o GrainChain(base, 1, n, sizes, customs, how)
=============================================================================
