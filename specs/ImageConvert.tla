---------------------------- MODULE ImageConvert ----------------------------
(* C20: the pixel that a conversion makes of a pixel.                         *)
EXTENDS ImageFormats, Srgb

Grayscale == {Gray8, Gray16, FloatF, DoubleF}

\* one step between neighbouring codes, rounded up
Step(f, c) == CASE Bits(f, c) = 5 -> 2115 [] Bits(f, c) = 6 -> 1041 [] Bits(f, c) = 8 -> 258 [] OTHER -> 2
Narrow(f) == Kind(f) = "norm" /\ \A c \in 1..Channels(f) : Bits(f, c) <= 8
\* v becomes out.  Formats of 8 bits and less are within one step, with the ends of the range exact; others are the nearest.
Becomes(df, c, v, out, tol) ==
    IF Narrow(df) THEN LET w == Clamp(df, v) IN Abs(out - w) < Step(df, c) + tol /\ (tol = 0 /\ w \in {0, Unit} => out = w)
    ELSE Stored(df, c, v, out, tol + (IF Kind(df) = "norm" THEN 2 ELSE 1))
\* narrow sources may have their luminance taken with 8 bits
LumaStep(f) == IF Narrow(f) THEN 258 ELSE 0

StoredLight(f, l, s, tol) ==
    LET h == (IF Narrow(f) THEN Step(f, 1) ELSE Half(f, 1)) + tol
        norm == Kind(f) = "norm"
    IN /\ (norm /\ s <= 0) \/ Lin24(s - h) <= l + 200
       /\ (norm /\ s >= Unit) \/ Lin24(s + h) >= l - 200
\* in range of the table of the transfer function
InTable(px) == \A c \in 1..3 : px[c] > -131000 /\ px[c] < 129000

\* gray: luminance is wanted; complex numbers have none
Luminance(sf, df, gray) == gray /\ df \in Grayscale /\ sf # ComplexF /\ Channels(sf) > 1
ConvertOK(sf, df, cs, gray, px, out) ==
    /\ out = Full(df, out)
    /\ IF sf = df THEN out = px
       ELSE IF Luminance(sf, df, gray)
       THEN LET tol == LumaStep(sf) + 3 IN
            IF cs = 0 THEN Becomes(df, 1, Luma(px[1], px[2], px[3]), out[1], tol)
            ELSE StoredLight(df, Luma(Lin24(px[1]), Lin24(px[2]), Lin24(px[3])), out[1], tol)
       ELSE \A c \in 1..Channels(df) : Becomes(df, c, px[c], out[c], 0)

\* every value of sf has its own value in df
Channel(f, c) == IF Kind(f) = "norm" THEN Bits(f, c) ELSE 24
Wider(sf, df) ==
    \/ sf = df
    \/ /\ sf # ComplexF /\ df # ComplexF
       /\ Kind(sf) = "norm" /\ Kind(df) \in {"norm", "float"} /\ Channels(df) >= Channels(sf)
       /\ (Channels(df) < 4 \/ TRUE)
       /\ \A c \in 1..Channels(sf) : (Kind(df) = "norm" /\ Bits(df, c) % Bits(sf, c) = 0) \/ Kind(df) = "float"
    \/ /\ Kind(sf) = "float" /\ Kind(df) = "float" /\ Channels(df) >= Channels(sf) /\ sf # DoubleF /\ sf # ComplexF
    \/ /\ <<sf, df>> \in {<<Int16, Int32>>, <<UInt16, Int32>>, <<UInt16, UInt32>>}
    \/ /\ Kind(sf) \in {"int", "uint"} /\ Bits(sf, 1) = 16 /\ Kind(df) = "float" 
    \/ /\ Kind(sf) \in {"int", "uint"} /\ df \in {DoubleF, ComplexF}

----------------------------------------------------------------------------
(* Integers exactly, as <<high half (signed for signed formats), low half>>. *)
HalfBytes(b, i) == b[2*i - 1] + 256*b[2*i]
Signed(h) == IF h >= 32768 THEN h - 65536 ELSE h
IntOf(f, b) == LET lo == HalfBytes(b, 1) IN
    CASE f = Int16 -> <<IF lo >= 32768 THEN -1 ELSE 0, lo>> [] f = UInt16 -> <<0, lo>>
      [] f = Int32 -> <<Signed(HalfBytes(b, 2)), lo>> [] OTHER -> <<HalfBytes(b, 2), lo>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Range(f) == CASE f = Int16 -> <<<<-1, 32768>>, <<0, 32767>>>> [] f = UInt16 -> <<<<0, 0>>, <<0, 65535>>>>
              [] f = Int32 -> <<<<-32768, 0>>, <<32767, 65535>>>> [] OTHER -> <<<<0, 0>>, <<65535, 65535>>>>
Saturated(f, v) == LET r == Range(f) IN IF Less(v, r[1]) THEN r[1] ELSE IF Less(r[2], v) THEN r[2] ELSE v
IntegersOK(sf, df, b, out) == IntOf(df, out) = Saturated(df, IntOf(sf, b))
=============================================================================
