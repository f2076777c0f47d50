----------------------------- MODULE RangeAdjust -----------------------------
(* C21: the range a texture type expects, from what an image held originally. *)
EXTENDS ImageMemory

SNormT == 1  UIntT == 2  IntT == 3
\* bits of channel c of the original format; a missing alpha is as wide as the colours of 8 and 16 bit formats
OrigBits(o, c) == IF c <= Channels(o) THEN Bits(o, c)
                  ELSE IF c < 4 THEN Bits(o, 1)          \* gray spread over colours
                  ELSE IF o \in {RGB5, RGB565} THEN 0 ELSE Bits(o, 1)
Adjusts(o, t, i) == /\ t \in {SNormT, UIntT, IntT} /\ Kind(o) = "norm" /\ Kind(i) # "int" /\ Kind(i) # "uint"
\* the format afterwards: floating point with the image's channels
After(i) == CASE i = ComplexF -> RGBF [] Channels(i) = 1 -> FloatF [] Channels(i) = 3 -> RGBF [] OTHER -> RGBAF

RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
\* bits of a float that is an integer below 2^24
FloatIsInt(h, n) == h = (IF n = 0 THEN <<0, 0>> ELSE LET p == Log2(Abs(n)) m == Abs(n)*2^(23 - p) - 8388608 IN <<m % 65536, (IF n < 0 THEN 32768 ELSE 0) + 128*(p + 127) + (m \div 65536)>>)
             \/ (n = 0 /\ h = <<0, 32768>>)
\* channel value n/65536 in [0, 1] becomes the float with halves h; near ties both neighbours are right: products near 2^16 are rounded by up to 2^-9
Maps(t, bits, n, h) ==
    IF t = SNormT THEN Abs(FloatFix(h) - (2*n - Unit)) <= 2
    ELSE LET min == IF t = IntT THEN -(2^(bits - 1)) ELSE 0
             M == 2^bits - 1
             near == IF bits = 16 THEN {n - 1, n, n + 1} ELSE {(n*M) \div 65536, (n*M) \div 65536 + 1}
             err(k) == IF bits = 16 THEN Abs((k - n)*32768 + n \div 2) ELSE Abs(k*65536 - n*M) \div 2    \* in 1/131072
         IN \E k \in near : k >= 0 /\ k <= M /\ err(k) <= 16384 + (IF bits = 16 THEN 66 ELSE 8) /\ FloatIsInt(h, k + min)
\* code k of the original format exactly
Code(t, bits, k, h) ==
    IF t = SNormT THEN LET M == 2^bits - 1 IN
        Abs(FloatFix(h) - (IF bits = 16 THEN 2*k + (IF k >= 32768 THEN 2 ELSE IF k >= 16384 THEN 1 ELSE 0) - Unit ELSE (131072*k) \div M - Unit)) <= 2
    ELSE FloatIsInt(h, k + (IF t = IntT THEN -(2^(bits - 1)) ELSE 0))
=============================================================================
