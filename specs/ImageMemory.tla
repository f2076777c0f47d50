---------------------------- MODULE ImageMemory ----------------------------
(* C11: an image as memory.  A colour channel v is <<hi, lo, fr>>, that is   *)
(* hi*65536 + lo + fr/65536, exactly.                                        *)
EXTENDS ImageFormats, Srgb

RECURSIVE SumBits(_)
SumBits(b) == IF b = <<>> THEN 0 ELSE Head(b) + 2*SumBits(Tail(b))

Fix(v) == IF v[1] > 0 \/ (v[1] = 0 /\ v[2] >= 16384) THEN Limit ELSE IF v[1] < -1 \/ (v[1] = -1 /\ v[2] < 49152) THEN -Limit ELSE (v[1]*65536 + v[2])*65536 + v[3]

----------------------------------------------------------------------------
(* Where a channel is: <<lowest bit, bits>> within the pixel's bytes.  For    *)
(* the formats with masks they are what the image advertises.                *)
Masked(f) == f \in {RGB5, RGB565, RGB8, RGBA8}
BitOf(half, i) == IF i < 16 THEN (half[2] \div 2^i) % 2 ELSE (half[1] \div 2^(i - 16)) % 2
MaskBits(half) == {i \in 0..31 : BitOf(half, i) = 1}
MasksOK(f, masks, shifts) ==
    /\ \A c \in 1..Channels(f) : MaskBits(masks[c]) = shifts[c]..(shifts[c] + Bits(f, c) - 1) /\ MaskBits(masks[c]) \subseteq 0..(PixelBits[f] - 1)
    /\ \A c, d \in 1..Channels(f) : c # d => MaskBits(masks[c]) \cap MaskBits(masks[d]) = {}
    /\ \A c \in (Channels(f) + 1)..4 : MaskBits(masks[c]) = {}
Place(f, shifts, c) == IF Masked(f) THEN <<shifts[c], Bits(f, c)>> ELSE <<(c - 1)*Bits(f, c), Bits(f, c)>>
RECURSIVE Field(_, _, _)
Field(b, at, n) == IF n = 0 THEN 0 ELSE ((b[(at \div 8) + 1] \div 2^(at % 8)) % 2) + 2*Field(b, at + 1, n - 1)
\* the word of a channel as 16-bit halves from the least significant one
Halves(f, shifts, c, b) == LET p == Place(f, shifts, c) IN [i \in 1..((p[2] + 15) \div 16) |-> Field(b, p[1] + 16*(i - 1), Min(16, p[2] - 16*(i - 1)))]
\* bits of the pixel that belong to no channel keep nothing
----------------------------------------------------------------------------
\* normalised: the nearest code (either one at a tie); 1/65536 granularity makes the 16-bit case a comparison
NormCode(v, bits, k) ==
    LET M == 2^bits - 1 IN
    IF v[1] < 0 THEN k = 0 ELSE IF v[1] > 0 \/ v[2] >= 1 THEN k = M
    ELSE IF bits = 16 THEN (k = v[3] /\ v[3] <= 32768) \/ (k = v[3] - 1 /\ v[3] >= 32768)
    ELSE Abs(k*65536 - v[3]*M) <= 32768
\* integers lose their fraction and saturate; as two's complement halves
Trunc(v) == IF v[1] < 0 /\ v[3] > 0 THEN (IF v[2] = 65535 THEN <<v[1] + 1, 0>> ELSE <<v[1], v[2] + 1>>) ELSE <<v[1], v[2]>>
IntHalves(f, v) ==
    LET t == Trunc(v) IN
    CASE f = Int16 -> IF t[1] >= 0 THEN (IF t[1] > 0 \/ t[2] > 32767 THEN <<32767>> ELSE <<t[2]>>) ELSE (IF t[1] < -1 \/ t[2] < 32768 THEN <<32768>> ELSE <<t[2]>>)
      [] f = UInt16 -> IF t[1] < 0 THEN <<0>> ELSE IF t[1] > 0 THEN <<65535>> ELSE <<t[2]>>
      [] f = Int32 -> IF t[1] >= 32768 THEN <<65535, 32767>> ELSE IF t[1] < -32768 THEN <<0, 32768>> ELSE <<t[2], IF t[1] < 0 THEN t[1] + 65536 ELSE t[1]>>
      [] f = UInt32 -> IF t[1] < 0 THEN <<0, 0>> ELSE IF t[1] > 65535 THEN <<65535, 65535>> ELSE <<t[2], t[1]>>
\* numbers as floating point: the magnitude has 32 bits before and 16 after the point
Magnitude(v) == IF v[1] >= 0 THEN v
                ELSE IF v[3] > 0 THEN <<-1 - v[1], 65535 - v[2], 65536 - v[3]>>
                ELSE IF v[2] > 0 THEN <<-1 - v[1], 65536 - v[2], 0>> ELSE <<-v[1], 0, 0>>
MagnitudeBit(m, i) == IF i < 0 THEN 0 ELSE (m[3 - (i \div 16)] \div 2^(i % 16)) % 2
TopBit(m) == CHOOSE i \in 0..47 : MagnitudeBit(m, i) = 1 /\ \A j \in (i + 1)..47 : MagnitudeBit(m, j) = 0
FloatHalves(v, wide) ==
    LET m == Magnitude(v) IN
    IF m = <<0, 0, 0>> THEN (IF wide THEN <<0, 0, 0, 0>> ELSE <<0, 0>>)
    ELSE LET p == TopBit(m)
             mb == IF wide THEN 52 ELSE 23     \* bits of mantissa
             eb == IF wide THEN 11 ELSE 8      \* and of the exponent
             e == p - 16 + 2^(eb - 1) - 1
             Pattern(i) == IF i < mb THEN MagnitudeBit(m, p - mb + i) ELSE IF i < mb + eb THEN (e \div 2^(i - mb)) % 2 ELSE IF v[1] < 0 THEN 1 ELSE 0
         IN  [q \in 1..(IF wide THEN 4 ELSE 2) |-> SumBits([i \in 1..16 |-> Pattern(16*(q - 1) + i - 1)])]
\* no bit is lost in the mantissa
Exact(v, wide) == LET m == Magnitude(v) IN v[1] < 65536 /\ v[1] >= -65535 /\ (wide \/ m = <<0, 0, 0>> \/ \A i \in 0..(TopBit(m) - 24) : MagnitudeBit(m, i) = 0)

\* floating point read as fixed point (towards zero, one unit off at most)
FloatFix(h) ==
    LET wide == Len(h) = 4
        top == h[Len(h)]
        neg == top >= 32768
        e == IF wide THEN ((top % 32768) \div 16) - 1023 ELSE ((top % 32768) \div 128) - 127
        m == IF wide THEN (top % 16)*524288 + h[3]*8 + (h[2] \div 8192) ELSE (top % 128)*65536 + h[1]
        n == IF e >= 14 THEN Limit ELSE IF e < -17 THEN 0 ELSE IF e >= 7 THEN (8388608 + m)*2^(e - 7) ELSE (8388608 + m) \div 2^(7 - e)
    IN IF neg THEN -n ELSE n

\* a floating point number that is a multiple of 2^-16 within 32 bits
Aligned(h) ==
    LET wide == Len(h) = 4
        mb == IF wide THEN 52 ELSE 23
        top == h[Len(h)] % 32768
        e == IF wide THEN (top \div 16) - 1023 ELSE (top \div 128) - 127
    IN  \/ \A i \in 1..Len(h) : h[i] = 0
        \/ e \in -16..31 /\ \A i \in 0..(mb - 1) : e - mb + i < -16 => (h[(i \div 16) + 1] \div 2^(i % 16)) % 2 = 0
\* what a channel word reads as
Reads(f, c, h, out) ==
    CASE Kind(f) = "norm" -> Abs(out - (IF Bits(f, c) = 16 THEN h[1] + (IF h[1] >= 32768 THEN 1 ELSE 0) ELSE (h[1]*65536 + (2^Bits(f, c) - 1) \div 2) \div (2^Bits(f, c) - 1))) <= 1
      [] f = Int16 -> out = Fix(<<IF h[1] >= 32768 THEN -1 ELSE 0, h[1], 0>>)
      [] f = UInt16 -> out = Fix(<<0, h[1], 0>>)
      [] f = Int32 -> out = Fix(<<IF h[2] >= 32768 THEN h[2] - 65536 ELSE h[2], h[1], 0>>)
      [] f = UInt32 -> out = (IF h[2] > 0 THEN Limit ELSE Fix(<<0, h[1], 0>>))
      [] OTHER -> Abs(out - FloatFix(h)) <= 1
\* ... and, exactly, with all of its bits
ReadsExactly(f, h, v) ==
    CASE f = Int16 -> v = <<IF h[1] >= 32768 THEN -1 ELSE 0, h[1], 0>>
      [] f = UInt16 -> v = <<0, h[1], 0>>
      [] f = Int32 -> v = <<IF h[2] >= 32768 THEN h[2] - 65536 ELSE h[2], h[1], 0>>
      [] f = UInt32 -> v = <<h[2], h[1], 0>>
      [] Kind(f) = "float" -> Aligned(h) => FloatHalves(v, Len(h) = 4) = h
      [] OTHER -> TRUE
ReadsPixelExactly(f, shifts, b, v) == \A c \in 1..Channels(f) : ReadsExactly(f, Halves(f, shifts, c, b), v[c])
ReadsPixel(f, shifts, b, out) ==
    /\ out = Full(f, out)
    /\ \A c \in 1..Channels(f) : Reads(f, c, Halves(f, shifts, c, b), out[c])

\* what a channel word may be after v was written
Writes(f, c, v, h) ==
    CASE Kind(f) = "norm" -> NormCode(v, Bits(f, c), h[1])
      [] Kind(f) \in {"int", "uint"} -> h = IntHalves(f, v)
      [] OTHER -> Exact(v, Bits(f, c) = 64) => h = FloatHalves(v, Bits(f, c) = 64)
Grayscale == {Gray8, Gray16, FloatF, DoubleF}
\* luminance, in linear light for sRGB images
Luminance(f, cs, v, h) ==
    LET x == <<Fix(v[1]), Fix(v[2]), Fix(v[3])>>
        g == Luma(x[1], x[2], x[3])
        l == Luma(Lin24(x[1]), Lin24(x[2]), Lin24(x[3]))
        s == IF Kind(f) = "norm" THEN (IF Bits(f, 1) = 16 THEN h[1] ELSE (h[1]*65536) \div 255) ELSE FloatFix(h)
        tol == Half(f, 1) + 3
    IN IF cs = 0 THEN (IF Kind(f) = "norm" THEN Abs(s - Clamp(f, g)) <= tol ELSE Abs(s - g) <= tol)
       ELSE /\ Lin24(s - tol) <= l + 200 \/ (Kind(f) = "norm" /\ s = 0)
            /\ Lin24(s + tol) >= l - 200 \/ (Kind(f) = "norm" /\ s >= 65535)
WritesPixel(f, cs, shifts, v, gray, b) ==
    IF gray /\ f \in Grayscale THEN Luminance(f, cs, v, Halves(f, shifts, 1, b))
    ELSE \A c \in 1..Channels(f) : Writes(f, c, v[c], Halves(f, shifts, c, b))

\* every code is the nearest of its own value, and of no other code's
ASSUME \A bits \in {5, 6, 8} : \A k, j \in 0..(2^bits - 1) :
          LET fr == (k*65536 + (2^bits - 1) \div 2) \div (2^bits - 1) IN
          NormCode(IF fr = 65536 THEN <<0, 1, 0>> ELSE <<0, 0, fr>>, bits, j) <=> j = k
\* floating point fields read back what was written
ASSUME \A v \in {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 65535>>, <<0, 1, 0>>, <<0, 1, 1>>, <<0, 300, 32768>>, <<-1, 65535, 65535>>, <<-1, 65535, 0>>, <<-1, 60000, 5>>} :
          \A w \in BOOLEAN : Aligned(FloatHalves(v, w)) /\ (Exact(v, FALSE) => FloatFix(FloatHalves(v, w)) = Fix(v))
\* 1, -2, 1.5 and 2^31 + 2^-16 as IEEE 754 wants them
ASSUME /\ FloatHalves(<<0, 1, 0>>, FALSE) = <<0, 16256>> /\ FloatHalves(<<-1, 65534, 0>>, FALSE) = <<0, 49152>> /\ FloatHalves(<<0, 1, 32768>>, FALSE) = <<0, 16320>>
       /\ FloatHalves(<<0, 1, 0>>, TRUE) = <<0, 0, 0, 16368>> /\ FloatHalves(<<32768, 0, 1>>, TRUE) = <<32, 0, 0, 16864>>
=============================================================================
