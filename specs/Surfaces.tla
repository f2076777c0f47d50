------------------------------ MODULE Surfaces ------------------------------
(* Textures whose image for every (face, level, depth) is a known function of *)
(* the position, so that every byte of every surface is determined.           *)
EXTENDS PixelCodec

Extent(n, m) == Max2(n \div Two(m), 1)

\* the image set for (face, level, depth): channel numerators at (x, y)
Offset(f, m, d) == (37*f + 11*m + 101*d) % 256
Numerators(o, x, y) == <<(x + o) % 256, (y + 3*o) % 256, (7*x + 13*y + o) % 256, (5*x + 3*y + 2*o) % 256>>

Log2Of(k) == CHOOSE e \in 0..8 : Two(e) <= k /\ k < Two(e + 1)
FloatBits(k) == IF k = 0 THEN <<"b", 0, 0>>
                ELSE LET e == Log2Of(k) m == (k - Two(e))*Two(23 - e)
                     IN  <<"b", (127 + e)*128 + m \div 65536, m % 65536>>
FloatTable == [k \in 0..255 |-> FloatBits(k)]

\* normalised types hold k/255, the others the number k
Value(t, k) == IF t \in {UNorm, SNorm} THEN <<"q", k, 255>> ELSE IF t \in {UInt, SInt} THEN <<"i", 0, k, 0>> ELSE FloatTable[k]
Colour(t, o, x, y) == LET n == Numerators(o, x, y) IN [c \in 1..4 |-> Value(t, n[c])]

\* the pixels of a w x h surface whose bytes are wrong (b starts at byte `at` + 1, rows are `stride` bytes apart)
WrongPixels(f, t, o, w, h, b, at, stride) ==
    LET n == Fmt(f).bytes IN
    {<<x, y>> \in (0..(w - 1)) \X (0..(h - 1)) :
        ~PixelOK(f, t, Colour(t, o, x, y), SubSeq(b, at + y*stride + x*n + 1, at + y*stride + (x + 1)*n))}
=============================================================================
