------------------------------- MODULE Formats -------------------------------
(* The texture formats: which channels each stores, where, which types,      *)
(* colour spaces and files can hold it.                                      *)
EXTENDS Integers, Sequences, FiniteSets

UNorm == 0  SNorm == 1  UInt == 2  SInt == 3  UFloat == 4  Float == 5
Types == 0..5
DDS == 1  KTX == 2  PVR == 3
Linear == 0  sRGB == 1

R == 1  G == 2  B == 3  A == 4   \* channel numbers

\* A channel is <<channel, lowest bit, bits>>; bit 0 is the lowest bit of the first byte.
RECURSIVE PackFrom(_, _)
\* fields listed from the most significant one, as the packed names are
PackFrom(fields, pos) ==
    IF fields = <<>> THEN <<>>
    ELSE LET f == fields[Len(fields)]
         IN  Append(PackFrom(SubSeq(fields, 1, Len(fields) - 1), pos + f[2]), <<f[1], pos, f[2]>>)
Packed(fields) == PackFrom(fields, 0)
\* equal fields listed in memory order
Array(chans, bits) == [i \in 1..Len(chans) |-> <<chans[i], (i - 1)*bits, bits>>]

Norm8 == {UNorm, SNorm, UInt, SInt}
F(name, ch, bytes, types) == [name |-> name, ch |-> ch, bytes |-> bytes, types |-> types, bw |-> 1, bh |-> 1, mw |-> 1, mh |-> 1, alpha |-> \E i \in 1..Len(ch) : ch[i][1] = A]

Uncompressed == <<
  F("R4G4",         Packed(<<<<R,4>>,<<G,4>>>>), 1, {UNorm}),
  F("R4G4B4A4",     Packed(<<<<R,4>>,<<G,4>>,<<B,4>>,<<A,4>>>>), 2, {UNorm}),
  F("B4G4R4A4",     Packed(<<<<B,4>>,<<G,4>>,<<R,4>>,<<A,4>>>>), 2, {UNorm}),
  F("A4R4G4B4",     Packed(<<<<A,4>>,<<R,4>>,<<G,4>>,<<B,4>>>>), 2, {UNorm}),
  F("R5G6B5",       Packed(<<<<R,5>>,<<G,6>>,<<B,5>>>>), 2, {UNorm}),
  F("B5G6R5",       Packed(<<<<B,5>>,<<G,6>>,<<R,5>>>>), 2, {UNorm}),
  F("R5G5B5A1",     Packed(<<<<R,5>>,<<G,5>>,<<B,5>>,<<A,1>>>>), 2, {UNorm}),
  F("B5G5R5A1",     Packed(<<<<B,5>>,<<G,5>>,<<R,5>>,<<A,1>>>>), 2, {UNorm}),
  F("A1R5G5B5",     Packed(<<<<A,1>>,<<R,5>>,<<G,5>>,<<B,5>>>>), 2, {UNorm}),
  F("R8",           Array(<<R>>, 8), 1, Norm8),
  F("R8G8",         Array(<<R,G>>, 8), 2, Norm8),
  F("R8G8B8",       Array(<<R,G,B>>, 8), 3, Norm8),
  F("B8G8R8",       Array(<<B,G,R>>, 8), 3, {UNorm}),
  F("R8G8B8A8",     Array(<<R,G,B,A>>, 8), 4, Norm8),
  F("B8G8R8A8",     Array(<<B,G,R,A>>, 8), 4, {UNorm}),
  F("A8B8G8R8",     Array(<<A,B,G,R>>, 8), 4, {UNorm}),
  F("A2R10G10B10",  Packed(<<<<A,2>>,<<R,10>>,<<G,10>>,<<B,10>>>>), 4, {UNorm, UInt}),
  F("A2B10G10R10",  Packed(<<<<A,2>>,<<B,10>>,<<G,10>>,<<R,10>>>>), 4, {UNorm, UInt}),
  F("R16",          Array(<<R>>, 16), 2, Norm8 \cup {Float}),
  F("R16G16",       Array(<<R,G>>, 16), 4, Norm8 \cup {Float}),
  F("R16G16B16",    Array(<<R,G,B>>, 16), 6, Norm8 \cup {Float}),
  F("R16G16B16A16", Array(<<R,G,B,A>>, 16), 8, Norm8 \cup {Float}),
  F("R32",          Array(<<R>>, 32), 4, {UInt, SInt, Float}),
  F("R32G32",       Array(<<R,G>>, 32), 8, {UInt, SInt, Float}),
  F("R32G32B32",    Array(<<R,G,B>>, 32), 12, {UInt, SInt, Float}),
  F("R32G32B32A32", Array(<<R,G,B,A>>, 32), 16, {UInt, SInt, Float}),
  F("B10G11R11_UFloat", Packed(<<<<B,10>>,<<G,11>>,<<R,11>>>>), 4, {UFloat}),
  F("E5B9G9R9_UFloat",  Packed(<<<<B,9>>,<<G,9>>,<<R,9>>>>), 4, {UFloat}) >>

\* Compressed formats: name, block width, block height, bytes per block, has alpha, minimum extent.
\* They are not part of this build (their libraries are absent), so no type is valid for them.
C(name, bw, bh, bytes, alpha, mw, mh) == [name |-> name, ch |-> <<>>, bytes |-> bytes, types |-> {}, bw |-> bw, bh |-> bh, alpha |-> alpha, mw |-> mw, mh |-> mh]
Astc(name, bw, bh) == C(name, bw, bh, 16, TRUE, bw, bh)
Compressed == <<
  C("BC1_RGB", 4, 4, 8, FALSE, 4, 4), C("BC1_RGBA", 4, 4, 8, TRUE, 4, 4), C("BC2", 4, 4, 16, TRUE, 4, 4), C("BC3", 4, 4, 16, TRUE, 4, 4),
  C("BC4", 4, 4, 8, FALSE, 4, 4), C("BC5", 4, 4, 16, FALSE, 4, 4), C("BC6H", 4, 4, 16, FALSE, 4, 4), C("BC7", 4, 4, 16, TRUE, 4, 4),
  C("ETC1", 4, 4, 8, FALSE, 4, 4), C("ETC2_R8G8B8", 4, 4, 8, FALSE, 4, 4), C("ETC2_R8G8B8A1", 4, 4, 8, TRUE, 4, 4), C("ETC2_R8G8B8A8", 4, 4, 16, TRUE, 4, 4),
  C("EAC_R11", 4, 4, 8, FALSE, 4, 4), C("EAC_R11G11", 4, 4, 16, FALSE, 4, 4),
  Astc("ASTC_4x4", 4, 4), Astc("ASTC_5x4", 5, 4), Astc("ASTC_5x5", 5, 5), Astc("ASTC_6x5", 6, 5), Astc("ASTC_6x6", 6, 6),
  Astc("ASTC_8x5", 8, 5), Astc("ASTC_8x6", 8, 6), Astc("ASTC_8x8", 8, 8), Astc("ASTC_10x5", 10, 5), Astc("ASTC_10x6", 10, 6),
  Astc("ASTC_10x8", 10, 8), Astc("ASTC_10x10", 10, 10), Astc("ASTC_12x10", 12, 10), Astc("ASTC_12x12", 12, 12),
  C("PVRTC1_RGB_2BPP", 8, 4, 8, FALSE, 16, 8), C("PVRTC1_RGBA_2BPP", 8, 4, 8, TRUE, 16, 8), C("PVRTC1_RGB_4BPP", 4, 4, 8, FALSE, 8, 8),
  C("PVRTC1_RGBA_4BPP", 4, 4, 8, TRUE, 8, 8), C("PVRTC2_RGBA_2BPP", 8, 4, 8, TRUE, 16, 8), C("PVRTC2_RGBA_4BPP", 4, 4, 8, TRUE, 8, 8) >>

NumUncompressed == Len(Uncompressed)
NumFormats == NumUncompressed + Len(Compressed)
AllFormats == 1..NumFormats
Fmt(f) == IF f <= NumUncompressed THEN Uncompressed[f] ELSE Compressed[f - NumUncompressed]
FormatNo(name) == CHOOSE f \in AllFormats : Fmt(f).name = name

FormatValid(f, t) == f \in 1..NumUncompressed /\ t \in Uncompressed[f].types

NativeSrgbNames == {"R8G8B8", "B8G8R8", "R8G8B8A8", "B8G8R8A8", "A8B8G8R8"}
CompressedSrgb == {"BC1_RGB", "BC1_RGBA", "BC2", "BC3", "BC7", "ETC2_R8G8B8", "ETC2_R8G8B8A1", "ETC2_R8G8B8A8",
                   "PVRTC1_RGB_2BPP", "PVRTC1_RGBA_2BPP", "PVRTC1_RGB_4BPP", "PVRTC1_RGBA_4BPP", "PVRTC2_RGBA_2BPP", "PVRTC2_RGBA_4BPP"}
AstcNames == {Compressed[i].name : i \in {j \in 1..Len(Compressed) : Compressed[j].bytes = 16 /\ Compressed[j].alpha /\ j \in 15..28}}
NativeSrgb(f, t) == t = UNorm /\ Fmt(f).name \in NativeSrgbNames \cup CompressedSrgb \cup AstcNames

\* Formats that a file type cannot describe (README.md)
NoDds == {"R4G4B4A4", "B4G4R4A4", "B5G6R5", "R5G5B5A1", "B5G5R5A1", "R8G8B8", "B8G8R8", "A8B8G8R8", "A2R10G10B10", "R16G16B16"}
NoKtx == {"R4G4", "A4R4G4B4", "B8G8R8"}
FileHolds(f, t, file) ==
    /\ FormatValid(f, t)
    /\ CASE file = DDS -> Fmt(f).name \notin NoDds
         [] file = KTX -> Fmt(f).name \notin NoKtx
         [] file = PVR -> TRUE
         [] OTHER -> FALSE
==============================================================================
