----------------------------- MODULE ChannelOps -----------------------------
(* C13: what the channel operations make of a pixel.  Pixels are quadruples  *)
(* of fixed point numbers as they are read; `out` is what is read after.     *)
EXTENDS ImageFormats, Srgb

\* light l is stored as the sRGB colour s: compared in linear light, where the function is known
StoredLight(f, c, l, s, tol) ==
    LET h == Half(f, c) + tol + (IF Kind(f) \in {"int", "uint"} THEN Unit - 1 ELSE 0)
        lowEnd == Kind(f) # "float" /\ s <= Lowest(f)
        highEnd == Kind(f) = "norm" /\ s >= Unit
    IN /\ (Kind(f) \in {"int", "uint"} => s % Unit = 0)
       /\ lowEnd \/ Lin24(s - h) <= l + 136
       /\ highEnd \/ Lin24(s + h) >= l - 136

SwizzleOK(f, px, sel, out) ==
    \A c \in 1..Channels(f) : LET v == IF sel[c] < 4 THEN px[sel[c] + 1] ELSE IF c = 4 THEN Unit ELSE 0 IN
        IF Kind(f) # "norm" \/ (sel[c] < Channels(f) /\ Bits(f, sel[c] + 1) = Bits(f, c)) THEN out[c] = v
        ELSE Stored(f, c, v, out[c], 0)

Gray(px) == Luma(px[1], px[2], px[3])
FloatStep(v) == Abs(v) \div 4194304     \* large floating point values have coarser steps
Light(px) == <<Lin24(px[1]), Lin24(px[2]), Lin24(px[3])>>
Colours(f) == 1..Min(3, Channels(f))
AlphaKept(f, px, out) == Channels(f) = 4 => out[4] = px[4]

GrayOK(f, cs, px, out) ==
    /\ AlphaKept(f, px, out)
    /\ \A c \in Colours(f) :
         IF cs = 0 THEN Stored(f, c, Gray(px), out[c], 3 + FloatStep(Gray(px)))
         ELSE LET l == Light(px) IN StoredLight(f, c, Luma(l[1], l[2], l[3]), out[c], 3)

PremultiplyOK(f, cs, px, out) ==
    /\ AlphaKept(f, px, out)
    /\ \A c \in Colours(f) :
         IF Channels(f) < 4 THEN out[c] = px[c]
         ELSE IF cs = 0 THEN Stored(f, c, Times(px[c], px[4]), out[c], 2 + FloatStep(px[c]) + FloatStep(Times(px[c], px[4])))
         ELSE StoredLight(f, c, Times(Lin24(px[c]), px[4]), out[c], 2)

ColourSpaceOK(f, cs, to, px, out) ==
    IF cs = to THEN out = px
    ELSE /\ AlphaKept(f, px, out)
         /\ \A c \in Colours(f) :
              IF to = 0 THEN Stored(f, c, (Lin24(px[c]) + 128) \div 256, out[c], 4)
              ELSE StoredLight(f, c, px[c]*256, out[c], 2)
=============================================================================
