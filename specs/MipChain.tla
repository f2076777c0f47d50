------------------------------ MODULE MipChain ------------------------------
(* C02: what every level of a texture shows after mip generation.             *)
(* A channel value is an interval <<lo, hi>> in units of 2^-16: images of one *)
(* colour have exactly known values, and the mixture of depth slices for 3D   *)
(* textures is known up to the filter's weights.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

One == 65536
SizeAt(n, m) == IF n \div 2^m < 1 THEN 1 ELSE n \div 2^m

----------------------------------------------------------------------------
(* depth: n slices become k                                                   *)
Distance(n, k, z, i) == LET x == (2*i + 1)*k - (2*z + 1)*n IN IF x < 0 THEN -x ELSE x   \* in units of 1/(2k) slices
Between(n, a, b) == (IF a < 0 THEN 0 ELSE a)..(IF b > n - 1 THEN n - 1 ELSE b)
Covered(n, k, z) == {i \in Between(n, (z*n) \div k - 1, ((z + 1)*n) \div k + 1) : Distance(n, k, z, i) <= n}     \* at least partly inside of the slice
Support(n, k, z) == {i \in Between(n, ((2*z - 1)*n) \div (2*k) - 1, ((2*z + 3)*n) \div (2*k) + 1) : Distance(n, k, z, i) < 2*n}    \* the reach of the wider filters

MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumOver(_, _, _)
SumOver(S, v, e) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN v[i + 1][e] + SumOver(S \ {i}, v, e)

\* sRGB value of the linear average of a and b, where that is known without computing powers
SrgbMean(a, b) == IF a = b THEN <<TRUE, a>> ELSE IF {a, b} = {0, One} THEN <<TRUE, 48192>> ELSE <<FALSE, 0>>

\* v: the channel's intervals of all slices
Mix(v, n, k, z, box, srgb) ==
    LET S == IF box THEN Covered(n, k, z) ELSE Support(n, k, z)
        range == <<MinSet({v[i + 1][1] : i \in S}), MaxSet({v[i + 1][2] : i \in S})>>
    IN  IF ~box \/ n # 2*k THEN range
        ELSE IF ~srgb THEN <<SumOver(S, v, 1) \div 2, (SumOver(S, v, 2) + 1) \div 2>>
        ELSE LET a == v[2*z + 1] b == v[2*z + 2] r == SrgbMean(a[1], b[1])
             IN  IF a[1] = a[2] /\ b[1] = b[2] /\ r[1] THEN <<r[2], r[2]>> ELSE range

\* px: for every slice the four channels
MixSlices(px, k, box, srgb) ==
    LET n == Len(px) IN
    LET Of(c) == TLCEval([i \in 1..n |-> px[i][c]])        \* (tuples, as functions within functions would be evaluated again and again)
        v == <<Of(1), Of(2), Of(3), Of(4)>>
    IN  TLCEval([z \in 1..k |-> <<Mix(v[1], n, k, z - 1, box, srgb), Mix(v[2], n, k, z - 1, box, srgb), Mix(v[3], n, k, z - 1, box, srgb), Mix(v[4], n, k, z - 1, box, FALSE)>>])
----------------------------------------------------------------------------
(* the chain of one array element and face, or of all slices of a 3D texture: *)
(* customs is a function from some levels to [c: value, once]; the result is  *)
(* the shown value of levels 0..n-1.  how: [solid, depth, box, srgb]          *)
Reduced(src, m, how) == IF how.solid THEN MixSlices(src, how.depth[m + 1], how.box, how.srgb) ELSE src
RECURSIVE Chain(_, _, _, _, _)
Chain(src, m, n, customs, how) ==
    \* src: the image that continues the chain at level m - 1
    IF m >= n THEN <<>>
    ELSE LET gen == TLCEval(Reduced(src, m, how))
             has == m \in DOMAIN customs
             shown == IF has THEN customs[m].c ELSE gen
             cont == IF has /\ ~customs[m].once THEN customs[m].c ELSE gen
         IN  <<shown>> \o Chain(TLCEval(cont), m + 1, n, customs, how)
Shown(base, n, customs, how) == <<base>> \o Chain(base, 1, n, customs, how)

Flatly == [solid |-> FALSE]
=============================================================================
