------------------------------ MODULE DdsFile ------------------------------
(* C07: a reader of DDS files with a DX10 header.                             *)
EXTENDS FileBytes

\* DXGI formats: number, fields from the least significant one, type, sRGB
Fld(c, n) == <<c, n>>
All(cs, n) == [i \in 1..Len(cs) |-> <<cs[i], n>>]
RG == <<R, G>>  RGB == <<R, G, B>>  RGBA == <<R, G, B, A>>  BGRA == <<B, G, R, A>>
Dxgi == {
  <<2, All(RGBA, 32), Float, 0>>, <<3, All(RGBA, 32), UInt, 0>>, <<4, All(RGBA, 32), SInt, 0>>,
  <<6, All(RGB, 32), Float, 0>>, <<7, All(RGB, 32), UInt, 0>>, <<8, All(RGB, 32), SInt, 0>>,
  <<10, All(RGBA, 16), Float, 0>>, <<11, All(RGBA, 16), UNorm, 0>>, <<12, All(RGBA, 16), UInt, 0>>, <<13, All(RGBA, 16), SNorm, 0>>, <<14, All(RGBA, 16), SInt, 0>>,
  <<16, All(RG, 32), Float, 0>>, <<17, All(RG, 32), UInt, 0>>, <<18, All(RG, 32), SInt, 0>>,
  <<24, <<Fld(R, 10), Fld(G, 10), Fld(B, 10), Fld(A, 2)>>, UNorm, 0>>, <<25, <<Fld(R, 10), Fld(G, 10), Fld(B, 10), Fld(A, 2)>>, UInt, 0>>,
  <<26, <<Fld(R, 11), Fld(G, 11), Fld(B, 10)>>, UFloat, 0>>,
  <<28, All(RGBA, 8), UNorm, 0>>, <<29, All(RGBA, 8), UNorm, 1>>, <<30, All(RGBA, 8), UInt, 0>>, <<31, All(RGBA, 8), SNorm, 0>>, <<32, All(RGBA, 8), SInt, 0>>,
  <<34, All(RG, 16), Float, 0>>, <<35, All(RG, 16), UNorm, 0>>, <<36, All(RG, 16), UInt, 0>>, <<37, All(RG, 16), SNorm, 0>>, <<38, All(RG, 16), SInt, 0>>,
  <<41, All(<<R>>, 32), Float, 0>>, <<42, All(<<R>>, 32), UInt, 0>>, <<43, All(<<R>>, 32), SInt, 0>>,
  <<49, All(RG, 8), UNorm, 0>>, <<50, All(RG, 8), UInt, 0>>, <<51, All(RG, 8), SNorm, 0>>, <<52, All(RG, 8), SInt, 0>>,
  <<54, All(<<R>>, 16), Float, 0>>, <<56, All(<<R>>, 16), UNorm, 0>>, <<57, All(<<R>>, 16), UInt, 0>>, <<58, All(<<R>>, 16), SNorm, 0>>, <<59, All(<<R>>, 16), SInt, 0>>,
  <<61, All(<<R>>, 8), UNorm, 0>>, <<62, All(<<R>>, 8), UInt, 0>>, <<63, All(<<R>>, 8), SNorm, 0>>, <<64, All(<<R>>, 8), SInt, 0>>,
  <<67, <<Fld(R, 9), Fld(G, 9), Fld(B, 9)>>, UFloat, 0>>,
  <<85, <<Fld(B, 5), Fld(G, 6), Fld(R, 5)>>, UNorm, 0>>, <<86, <<Fld(B, 5), Fld(G, 5), Fld(R, 5), Fld(A, 1)>>, UNorm, 0>>,
  <<87, All(BGRA, 8), UNorm, 0>>, <<91, All(BGRA, 8), UNorm, 1>>,
  <<112, <<Fld(G, 4), Fld(R, 4)>>, UNorm, 0>>,      \* IA44 is the only format of two 4-bit fields
  <<115, <<Fld(B, 4), Fld(G, 4), Fld(R, 4), Fld(A, 4)>>, UNorm, 0>> }
Entry(n) == {e \in Dxgi : e[1] = n}
\* what a reader makes of the number
Describes(n, t) == \E e \in Entry(n) : LayoutOf(Upwards(e[2], 0)) = Layout(t.f) /\ e[3] = t.t /\ e[4] = t.cs

\* no number is ambiguous, and every format that DDS can hold has exactly one number
ASSUME \A e, g \in Dxgi : e[1] = g[1] => e = g
ASSUME \A f \in 1..NumUncompressed : \A t \in Uncompressed[f].types : \A cs \in {0, 1} :
          (cs = 1 => NativeSrgb(f, t)) =>
          (FileHolds(f, t, DDS) <=> Cardinality({e \in Dxgi : Describes(e[1], [f |-> f, t |-> t, cs |-> cs])}) = 1)

Order(t) == IF t.dim = 2 THEN Cat([m \in 1..t.mips |-> [d \in 1..DepthOf(t, m - 1) |-> <<0, m - 1, d - 1>>]])
            ELSE Cat([e \in 1..t.depth |-> Cat([f \in 1..t.faces |-> [m \in 1..t.mips |-> <<f - 1, m - 1, e - 1>>]])])

AlphaMode(t) == IF ~Fmt(t.f).alpha THEN {0, 3} ELSE {<<3, 1, 2, 4>>[t.alpha + 1]}

\* the set of things that are wrong with the file
DdsWrong(b, t, data) ==
  IF Len(b) < 148 THEN {"shorter than the headers"} ELSE
  LET flags == Word(b, 8) caps == Word(b, 108) caps2 == Word(b, 112)
      several == t.mips > 1 \/ t.faces = 6 \/ (t.isarr /\ t.depth > 1)
      end == PackedAt(t, b, Order(t), data, 148)
  IN Failed(<<
    <<"magic", Text(b, 0, 4) = <<68, 68, 83, 32>>>>,
    <<"header size", Word(b, 4) = 124>>,
    <<"required flags", \A x \in {1, 2, 4, 4096} : HasBit(flags, x)>>,
    <<"mip flag", t.mips > 1 => HasBit(flags, 131072)>>,
    <<"depth flag", HasBit(flags, 8388608) <=> t.dim = 2>>,
    <<"height", Word(b, 12) = t.h>>, <<"width", Word(b, 16) = t.w>>,
    <<"pitch", (HasBit(flags, 8) # HasBit(flags, 524288)) /\ Word(b, 20) = IF HasBit(flags, 8) THEN t.w*Fmt(t.f).bytes ELSE t.w*t.h*Fmt(t.f).bytes>>,
    <<"depth", IF t.dim = 2 THEN Word(b, 24) = t.depth ELSE Word(b, 24) \in {0, 1}>>,
    <<"mip count", Word(b, 28) = t.mips>>,
    <<"reserved", \A i \in 32..75 : Byte(b, i) = 0>>,
    <<"pixel format", Word(b, 76) = 32 /\ Word(b, 80) = 4 /\ Text(b, 84, 4) = <<68, 88, 49, 48>> /\ \A i \in 88..107 : Byte(b, i) = 0>>,
    <<"texture caps", HasBit(caps, 4096)>>,
    <<"mip caps", HasBit(caps, 4194304) <=> t.mips > 1>>,
    <<"complex caps", (several => HasBit(caps, 8)) /\ (HasBit(caps, 8) => several \/ t.isarr \/ t.dim = 2)>>,
    <<"other caps", caps - (IF HasBit(caps, 8) THEN 8 ELSE 0) - (IF t.mips > 1 THEN 4194304 ELSE 0) = 4096>>,
    <<"cube or volume", caps2 = IF t.faces = 6 THEN 65024 ELSE IF t.dim = 2 THEN 2097152 ELSE 0>>,
    <<"unused", \A i \in 116..127 : Byte(b, i) = 0>>,
    <<"DXGI format", Describes(Word(b, 128), t)>>,
    <<"resource dimension", Word(b, 132) = IF t.dim = 0 THEN 2 ELSE IF t.dim = 2 THEN 4 ELSE 3>>,
    <<"cube flag", Word(b, 136) = IF t.faces = 6 THEN 4 ELSE 0>>,
    <<"array size", Word(b, 140) = IF t.dim = 2 THEN 1 ELSE t.depth>>,
    <<"alpha mode", Word(b, 144) \in AlphaMode(t)>>,
    <<"surfaces", end # -1>>,
    <<"length", end # -1 => end = Len(b)>> >>)
=============================================================================
