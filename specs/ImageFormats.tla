---------------------------- MODULE ImageFormats ----------------------------
(* The formats of images: what a pixel stores.                               *)
EXTENDS Integers, Sequences, FiniteSets

Gray8 == 1  Gray16 == 2  RGB5 == 3  RGB565 == 4  RGB8 == 5  RGB16 == 6  RGBF == 7  RGBA8 == 8  RGBA16 == 9  RGBAF == 10
Int16 == 11  UInt16 == 12  Int32 == 13  UInt32 == 14  FloatF == 15  DoubleF == 16  ComplexF == 17
ImageFormats == 1..17

Unit == 65536          \* fixed point one
\* kind of number, channels stored and bits of each
Fmts == <<
  [kind |-> "norm",  ch |-> 1, bits |-> <<8>>],              [kind |-> "norm", ch |-> 1, bits |-> <<16>>],
  [kind |-> "norm",  ch |-> 3, bits |-> <<5, 5, 5>>],        [kind |-> "norm", ch |-> 3, bits |-> <<5, 6, 5>>],
  [kind |-> "norm",  ch |-> 3, bits |-> <<8, 8, 8>>],        [kind |-> "norm", ch |-> 3, bits |-> <<16, 16, 16>>],
  [kind |-> "float", ch |-> 3, bits |-> <<32, 32, 32>>],
  [kind |-> "norm",  ch |-> 4, bits |-> <<8, 8, 8, 8>>],     [kind |-> "norm", ch |-> 4, bits |-> <<16, 16, 16, 16>>],
  [kind |-> "float", ch |-> 4, bits |-> <<32, 32, 32, 32>>],
  [kind |-> "int",   ch |-> 1, bits |-> <<16>>],             [kind |-> "uint", ch |-> 1, bits |-> <<16>>],
  [kind |-> "int",   ch |-> 1, bits |-> <<32>>],             [kind |-> "uint", ch |-> 1, bits |-> <<32>>],
  [kind |-> "float", ch |-> 1, bits |-> <<32>>],             [kind |-> "float", ch |-> 1, bits |-> <<64>>],
  [kind |-> "float", ch |-> 2, bits |-> <<64, 64>>] >>
Kind(f) == Fmts[f].kind
Channels(f) == Fmts[f].ch
Bits(f, c) == Fmts[f].bits[c]
PixelBits == <<8, 16, 16, 16, 24, 48, 96, 32, 64, 128, 16, 16, 32, 32, 32, 64, 128>>

\* channels that are read back from another one, or constant
Full(f, px) == \* px: the stored channels
    CASE Channels(f) = 1 -> <<px[1], px[1], px[1], Unit>>
      [] Channels(f) = 2 -> <<px[1], px[2], 0, Unit>>
      [] Channels(f) = 3 -> <<px[1], px[2], px[3], Unit>>
      [] OTHER -> px

\* half a step between neighbouring codes, rounded up
Half(f, c) == CASE Kind(f) # "norm" -> 0
               [] Bits(f, c) = 5 -> 1058 [] Bits(f, c) = 6 -> 521 [] Bits(f, c) = 8 -> 129 [] OTHER -> 1
Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
\* fixed point numbers end at 2^30 (16384); integers beyond are not distinguished by it
Limit == 1073741824
Lowest(f) == CASE Kind(f) \in {"norm", "uint"} -> 0 [] OTHER -> -Limit
Highest(f) == IF Kind(f) = "norm" THEN Unit ELSE Limit
Clamp(f, v) == Max(Lowest(f), Min(Highest(f), v))
\* v is stored as out: nearest code for normalised formats, integers lose their fraction
Stored(f, c, v, out, tol) ==
    CASE Kind(f) = "norm" -> Abs(out - Clamp(f, v)) <= Half(f, c) + tol
      [] Kind(f) \in {"int", "uint"} -> out % Unit = 0 /\ Abs(out - Clamp(f, v)) <= Unit - 1 + tol
      [] OTHER -> Abs(out - v) <= tol
=============================================================================
