------------------------------ MODULE KtxFile ------------------------------
(* C08: a reader of KTX version 1 files (OpenGL pixel transfer semantics).    *)
EXTENDS FileBytes

\* glFormat: components, integer
Components(f) ==
    CASE f = 6403 -> <<<<R>>, FALSE>> [] f = 33319 -> <<<<R, G>>, FALSE>> [] f = 6407 -> <<<<R, G, B>>, FALSE>>
      [] f = 6408 -> <<<<R, G, B, A>>, FALSE>> [] f = 32992 -> <<<<B, G, R>>, FALSE>> [] f = 32993 -> <<<<B, G, R, A>>, FALSE>>
      [] f = 36244 -> <<<<R>>, TRUE>> [] f = 33320 -> <<<<R, G>>, TRUE>> [] f = 36248 -> <<<<R, G, B>>, TRUE>>
      [] f = 36249 -> <<<<R, G, B, A>>, TRUE>> [] f = 36250 -> <<<<B, G, R>>, TRUE>> [] f = 36251 -> <<<<B, G, R, A>>, TRUE>>
      [] OTHER -> <<<<>>, FALSE>>

\* glType: bytes, bits of the components (first from the top, REV: from the bottom; <<>>: one word each), kind of number
TypeInfo(t) ==
    CASE t = 5120 -> <<1, <<>>, FALSE, "signed">> [] t = 5121 -> <<1, <<>>, FALSE, "unsigned">>
      [] t = 5122 -> <<2, <<>>, FALSE, "signed">> [] t = 5123 -> <<2, <<>>, FALSE, "unsigned">>
      [] t = 5124 -> <<4, <<>>, FALSE, "signed">> [] t = 5125 -> <<4, <<>>, FALSE, "unsigned">>
      [] t = 5126 -> <<4, <<>>, FALSE, "float">> [] t = 5131 -> <<2, <<>>, FALSE, "float">>
      [] t = 32819 -> <<2, <<4, 4, 4, 4>>, FALSE, "unsigned">> [] t = 33637 -> <<2, <<4, 4, 4, 4>>, TRUE, "unsigned">>
      [] t = 32820 -> <<2, <<5, 5, 5, 1>>, FALSE, "unsigned">> [] t = 33638 -> <<2, <<5, 5, 5, 1>>, TRUE, "unsigned">>
      [] t = 33635 -> <<2, <<5, 6, 5>>, FALSE, "unsigned">> [] t = 33636 -> <<2, <<5, 6, 5>>, TRUE, "unsigned">>
      [] t = 32821 -> <<4, <<8, 8, 8, 8>>, FALSE, "unsigned">> [] t = 33639 -> <<4, <<8, 8, 8, 8>>, TRUE, "unsigned">>
      [] t = 32822 -> <<4, <<10, 10, 10, 2>>, FALSE, "unsigned">> [] t = 33640 -> <<4, <<10, 10, 10, 2>>, TRUE, "unsigned">>
      [] t = 35899 -> <<4, <<11, 11, 10>>, TRUE, "ufloat">> [] t = 35902 -> <<4, <<9, 9, 9>>, TRUE, "ufloat">>
      [] OTHER -> <<0, <<>>, FALSE, "unknown">>
Zip(cs, bits) == [i \in 1..Len(cs) |-> <<cs[i], bits[i]>>]
MemoryLayout(type, format) ==
    LET cs == Components(format)[1] ti == TypeInfo(type) IN
    IF ti[2] = <<>> THEN LayoutOf(Upwards([i \in 1..Len(cs) |-> <<cs[i], 8*ti[1]>>], 0))
    ELSE IF Len(cs) # Len(ti[2]) THEN {}
    ELSE LayoutOf(IF ti[3] THEN Upwards(Zip(cs, ti[2]), 0) ELSE Packed(Zip(cs, ti[2])))
NumberOK(type, format, t) ==
    LET kind == TypeInfo(type)[4] int == Components(format)[2] IN
    CASE t.t = UNorm -> kind = "unsigned" /\ ~int [] t.t = SNorm -> kind = "signed" /\ ~int
      [] t.t = UInt -> kind = "unsigned" /\ int [] t.t = SInt -> kind = "signed" /\ int
      [] t.t = Float -> kind = "float" /\ ~int [] OTHER -> kind = "ufloat" /\ ~int
\* the size of one datum, as endianness conversion needs it
DatumBytes(type) == TypeInfo(type)[1]

\* sized internal formats for n channels of the same width: UNorm, SNorm, UInt, SInt, Float
Sized8  == <<<<33321, 36756, 33330, 33329, 0>>, <<33323, 36757, 33336, 33335, 0>>, <<32849, 36758, 36221, 36239, 0>>, <<32856, 36759, 36220, 36238, 0>>>>
Sized16 == <<<<33322, 36760, 33332, 33331, 33325>>, <<33324, 36761, 33338, 33337, 33327>>, <<32852, 36762, 36215, 36233, 34843>>, <<32859, 36763, 36214, 36232, 34842>>>>
Sized32 == <<<<0, 0, 33334, 33333, 33326>>, <<0, 0, 33340, 33339, 33328>>, <<0, 0, 36209, 36227, 34837>>, <<0, 0, 36208, 36226, 34836>>>>
Column(t) == CASE t = UNorm -> 1 [] t = SNorm -> 2 [] t = UInt -> 3 [] t = SInt -> 4 [] OTHER -> 5
Internal(t) ==
    LET fm == Fmt(t.f) n == Len(fm.ch) bits == {fm.ch[i][3] : i \in 1..n} IN
    CASE fm.name = "B10G11R11_UFloat" -> 35898 [] fm.name = "E5B9G9R9_UFloat" -> 35901
      [] bits = {8} -> IF t.cs = 1 THEN (IF n = 3 THEN 35905 ELSE 35907) ELSE Sized8[n][Column(t.t)]
      [] bits = {16} -> Sized16[n][Column(t.t)] [] bits = {32} -> Sized32[n][Column(t.t)]
      [] bits = {4} /\ n = 4 -> 32854 [] bits = {5, 6} -> 36194 [] bits = {5, 1} -> 32855
      [] bits = {10, 2} -> IF t.t = UNorm THEN 32857 ELSE 36975
      [] OTHER -> -2
Base(t) == LET n == Len(Fmt(t.f).ch) IN CASE n = 1 -> {6403, 6409} [] n = 2 -> {33319, 6410} [] n = 3 -> {6407, 32992} [] OTHER -> {6408, 32993}

----------------------------------------------------------------------------
Padded(n) == ((n + 3) \div 4)*4
RowBytes(t, m) == Ext(t.w, m)*Fmt(t.f).bytes
\* rows of one surface from byte `at`
RowsOK(t, b, at, m, data) ==
    LET n == RowBytes(t, m) p == Padded(n) IN
    /\ Len(data) = n*Ext(t.h, m) /\ at + p*Ext(t.h, m) <= Len(b)
    /\ \A y \in 0..(Ext(t.h, m) - 1) : Text(b, at + y*p, n) = SubSeq(data, y*n + 1, (y + 1)*n)
SurfaceFileBytes(t, m) == Padded(RowBytes(t, m))*Ext(t.h, m)
LevelOrder(t, m) == Cat([d \in 1..DepthOf(t, m) |-> [f \in 1..t.faces |-> <<f - 1, m, d - 1>>]])
LevelSize(t, m) == IF t.faces = 6 /\ ~t.isarr THEN SurfaceFileBytes(t, m) ELSE SurfaceFileBytes(t, m)*t.faces*DepthOf(t, m)
RECURSIVE Levels(_, _, _, _, _)
\* gives the end of the file, or why it is wrong
Levels(t, b, m, data, at) ==
    IF m = t.mips THEN <<at, "">>
    ELSE IF at + 4 > Len(b) THEN <<-1, "truncated">>
    ELSE IF Word(b, at) # LevelSize(t, m) THEN <<-1, "image size">>
    ELSE LET s == LevelOrder(t, m) n == SurfaceFileBytes(t, m) IN
         IF \A i \in 1..Len(s) : RowsOK(t, b, at + 4 + (i - 1)*n, m, data[s[i]])
         THEN Levels(t, b, m + 1, data, at + 4 + n*Len(s))
         ELSE <<-1, "surface bytes">>

KtxWrong(b, t, data) ==
  IF Len(b) < 64 THEN {"shorter than the header"} ELSE
  LET type == Word(b, 16) format == Word(b, 24)
      end == Levels(t, b, 0, data, 64)
  IN Failed(<<
    <<"identifier", Text(b, 0, 12) = <<171, 75, 84, 88, 32, 49, 49, 187, 13, 10, 26, 10>>>>,
    <<"endianness", Text(b, 12, 4) = <<1, 2, 3, 4>>>>,
    <<"pixel layout", MemoryLayout(type, format) = Layout(t.f)>>,
    <<"number type", NumberOK(type, format, t)>>,
    <<"type size", Word(b, 20) = DatumBytes(type)>>,
    <<"internal format", Word(b, 28) = Internal(t)>>,
    <<"base format", Word(b, 32) \in Base(t)>>,
    <<"width", Word(b, 36) = t.w>>, <<"height", Word(b, 40) = IF t.dim = 0 THEN 0 ELSE t.h>>,
    <<"depth", Word(b, 44) = IF t.dim = 2 THEN t.depth ELSE 0>>,
    <<"array elements", Word(b, 48) = IF t.isarr THEN t.depth ELSE 0>>,
    <<"faces", Word(b, 52) = t.faces>>, <<"mip count", Word(b, 56) = t.mips>>, <<"metadata size", Word(b, 60) = 0>>,
    <<"levels: " \o end[2], end[1] # -1>>,
    <<"length", end[1] # -1 => end[1] = Len(b)>> >>)
=============================================================================
