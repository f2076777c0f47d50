----------------------------- MODULE PixelCodec -----------------------------
(* Which codes a channel may hold for a given colour value, and which bytes a *)
(* pixel may consist of.                                                      *)
(*                                                                            *)
(* A colour value is one of                                                   *)
(*   <<"q", n, d>>     the rational n/d (d > 0; |n|, d <= 2^14)               *)
(*   <<"i", h, l, f>>  h*2^16 + l + f/16  (0 <= l < 2^16, 0 <= f < 16)        *)
(*   <<"b", hi, lo>>   the 32-bit float with these two halves                 *)
(* Wide words are always pairs of 16-bit halves: TLC's integers have 32 bits. *)
EXTENDS Formats

Two(n) == 2^n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

----------------------------------------------------------------------------
(* bits of a little-endian byte sequence (at most 16 at once)                 *)
ByteOr0(b, i) == IF i < Len(b) THEN b[i + 1] ELSE 0
Field(b, pos, n) ==
    LET k == pos \div 8
        v == ByteOr0(b, k) + 256*ByteOr0(b, k + 1) + 65536*ByteOr0(b, k + 2)
    IN  (v \div Two(pos % 8)) % Two(n)
SignedField(q, bits) == IF q >= Two(bits - 1) THEN q - Two(bits) ELSE q

----------------------------------------------------------------------------
(* normalised                                                                 *)
\* |q - n*M/d| <= 1/2, with a small allowance for single precision arithmetic
Nearest(q, n, d, M) == LET x == n*M IN LET y == q*d IN 2*(IF y > x THEN y - x ELSE x - y) <= d + d \div 128

UNormOK(v, bits, q) ==
    LET n == v[2] d == v[3] M == Two(bits) - 1 IN
    IF n <= 0 THEN q = 0 ELSE IF n >= d THEN q = M ELSE Nearest(q, n, d, M)

SNormOK(v, bits, q0) ==
    LET n == v[2] d == v[3] M == Two(bits - 1) - 1 q == SignedField(q0, bits) IN
    IF n <= -d THEN q = -M ELSE IF n >= d THEN q = M
    ELSE IF n >= 0 THEN q >= 0 /\ Nearest(q, n, d, M) ELSE q <= 0 /\ Nearest(-q, -n, d, M)

----------------------------------------------------------------------------
(* integers: the possible roundings of <<"i",h,l,f>> as pairs <<h,l>>         *)
Rounded(v) ==
    LET h == v[2] l == v[3] f == v[4]
        up == IF l = 65535 THEN <<h + 1, 0>> ELSE <<h, l + 1>>
    IN  IF f < 8 THEN {<<h, l>>} ELSE IF f > 8 THEN {up} ELSE {<<h, l>>, up}

\* unsigned, up to 16 bits
UIntOK(v, bits, q) ==
    \E r \in Rounded(v) :
        q = IF r[1] < 0 THEN 0 ELSE IF r[1] > 0 THEN Two(bits) - 1 ELSE Min2(r[2], Two(bits) - 1)
UInt32OK(v, qh, ql) ==
    \E r \in Rounded(v) :
        <<qh, ql>> = IF r[1] < 0 THEN <<0, 0>> ELSE IF r[1] > 65535 THEN <<65535, 65535>> ELSE r
IntOK(v, bits, q0) ==
    LET q == SignedField(q0, bits) lo == -Two(bits - 1) hi == Two(bits - 1) - 1 IN
    \E r \in Rounded(v) :
        q = IF r[1] > 0 THEN hi ELSE IF r[1] < -1 THEN lo
            ELSE Max2(lo, Min2(hi, r[1]*65536 + r[2]))
Int32OK(v, qh, ql) ==
    \E r \in Rounded(v) :
        <<qh, ql>> = IF r[1] < -32768 THEN <<32768, 0>> ELSE IF r[1] > 32767 THEN <<32767, 65535>>
                     ELSE <<r[1] % 65536, r[2]>>

----------------------------------------------------------------------------
(* floats                                                                     *)
FSign(v) == v[2] \div 32768
FExp(v)  == (v[2] % 32768) \div 128
FMant(v) == (v[2] % 128)*65536 + v[3]
IsNaN(v) == FExp(v) = 255 /\ FMant(v) # 0
IsInf(v) == FExp(v) = 255 /\ FMant(v) = 0
Sig(v)   == FMant(v) + 8388608            \* 24-bit significand of a normal number
Log2(v)  == FExp(v) - 127                 \* value = Sig * 2^(Log2 - 23)

FloatOK(v, qh, ql) ==
    IF IsNaN(v) THEN (qh % 32768) \div 128 = 255 /\ ((qh % 128) # 0 \/ ql # 0)
    ELSE qh = v[2] /\ ql = v[3]

\* s/2^k rounded to nearest; both neighbours at a tie
Shifted(s, k) ==
    IF k > 25 THEN {0}
    ELSE LET c == s \div Two(k) r == s % Two(k) IN
         IF k = 0 THEN {s} ELSE IF 2*r < Two(k) THEN {c} ELSE IF 2*r > Two(k) THEN {c + 1} ELSE {c, c + 1}

\* codes (exponent and mantissa, monotone in the magnitude) of a 5-bit-exponent
\* float with mb mantissa bits; a carry runs into the exponent as it should
SmallCodes(v, mb) ==
    LET x == Log2(v) IN
    IF FExp(v) = 0 THEN {0}
    ELSE IF x >= 16 THEN {31*Two(mb)}
    ELSE IF x >= -14 THEN {(x + 15)*Two(mb) + (c - Two(mb)) : c \in Shifted(Sig(v), 23 - mb)}
    ELSE Shifted(Sig(v), 23 - mb + (-14 - x))

HalfOK(v, q) ==
    LET mag == q % 32768 sgn == q \div 32768 inf == 31*1024 IN
    IF IsNaN(v) THEN mag > inf
    ELSE /\ IF IsInf(v) THEN mag = inf ELSE mag \in SmallCodes(v, 10)
         /\ mag # 0 => sgn = FSign(v)

\* unsigned 11- and 10-bit floats: negative gives 0, too large gives the largest finite value
UFloatOK(v, mb, q) ==
    LET inf == 31*Two(mb) IN
    IF IsNaN(v) THEN q > inf
    ELSE IF FSign(v) = 1 THEN q = 0
    ELSE IF IsInf(v) THEN q = inf
    ELSE q \in {Min2(c, inf - 1) : c \in SmallCodes(v, mb)}

\* shared exponent: <<significand, log2>> of a channel clamped to [0, 65408]
Clamped9(v) ==
    IF IsNaN(v) \/ FSign(v) = 1 \/ FExp(v) = 0 THEN <<0, -200>>
    ELSE IF IsInf(v) \/ Log2(v) > 15 \/ (Log2(v) = 15 /\ Sig(v) > 16744448) THEN <<16744448, 15>>
    ELSE <<Sig(v), Log2(v)>>
Larger(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
                ELSE IF a[2] > b[2] \/ (a[2] = b[2] /\ a[1] >= b[1]) THEN a ELSE b
\* channel / 2^(e-24) = sig * 2^(log2 + 1 - e)
Mant9(c, e) == IF c[1] = 0 THEN {0} ELSE Shifted(c[1], e - 1 - c[2])
SharedOK(vr, vg, vb, r, g, b, e) ==
    LET cr == Clamped9(vr) cg == Clamped9(vg) cb == Clamped9(vb)
        m == Larger(cr, Larger(cg, cb))
        e0 == IF m[1] = 0 THEN 0 ELSE Max2(-16, m[2]) + 16
        top == Mant9(m, e0)
        es == (IF \E c \in top : c <= 511 THEN {e0} ELSE {}) \cup (IF 512 \in top THEN {e0 + 1} ELSE {})
    IN  IF m[1] = 0 THEN <<r, g, b>> = <<0, 0, 0>>
        ELSE /\ e \in es
             /\ r \in Mant9(cr, e) /\ g \in Mant9(cg, e) /\ b \in Mant9(cb, e)

----------------------------------------------------------------------------
(* A pixel of format f and type t; px is the four channel values, b its bytes *)
ChannelOK(t, v, c, b) ==
    LET pos == c[2] bits == c[3] IN
    CASE t = UNorm -> UNormOK(v, bits, Field(b, pos, bits))
      [] t = SNorm -> SNormOK(v, bits, Field(b, pos, bits))
      [] t = UInt  -> IF bits = 32 THEN UInt32OK(v, Field(b, pos + 16, 16), Field(b, pos, 16)) ELSE UIntOK(v, bits, Field(b, pos, bits))
      [] t = SInt  -> IF bits = 32 THEN Int32OK(v, Field(b, pos + 16, 16), Field(b, pos, 16)) ELSE IntOK(v, bits, Field(b, pos, bits))
      [] t = Float -> IF bits = 32 THEN FloatOK(v, Field(b, pos + 16, 16), Field(b, pos, 16)) ELSE HalfOK(v, Field(b, pos, 16))
      [] t = UFloat -> UFloatOK(v, bits - 5, Field(b, pos, bits))

PixelOK(f, t, px, b) ==
    LET fm == Fmt(f) IN
    /\ Len(b) = fm.bytes
    /\ IF fm.name = "E5B9G9R9_UFloat"
       THEN SharedOK(px[1], px[2], px[3], Field(b, 0, 9), Field(b, 9, 9), Field(b, 18, 9), Field(b, 27, 5))
       ELSE \A i \in 1..Len(fm.ch) : ChannelOK(t, px[fm.ch[i][1]], fm.ch[i], b)
==============================================================================
