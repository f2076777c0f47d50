------------------------------ MODULE PvrFile ------------------------------
(* C09: a reader of PVR version 3 files.                                      *)
EXTENDS FileBytes

\* channel names of generic formats
Channel(c) == CASE c = 114 -> R [] c = 103 -> G [] c = 98 -> B [] c = 97 -> A [] OTHER -> 0
Fields(b, at) == [i \in 1..4 |-> <<Channel(Byte(b, at + i - 1)), Byte(b, at + 3 + i)>>]
Used(fs) == SelectSeq(fs, LAMBDA x : x[1] # 0)
\* names and bits are either both given or both zero, and used ones come first
WellFormed(b, at) == \A i \in 0..3 : /\ ((Byte(b, at + i) = 0) <=> (Byte(b, at + 4 + i) = 0))
                                    /\ (Byte(b, at + i) # 0 => Channel(Byte(b, at + i)) # 0)
                                    /\ ((i > 0 /\ Byte(b, at + i) # 0) => Byte(b, at + i - 1) # 0)
ByteWide(fs) == \E n \in {8, 16, 32} : \A i \in 1..Len(fs) : fs[i][2] = n
\* channels of whole bytes are listed in memory order, packed ones from the most significant
GenericLayout(fs) == LayoutOf(IF ByteWide(fs) THEN Upwards(fs, 0) ELSE Packed(fs))
SharedExponent == 19
PixelFormatOK(b, at, t) ==
    IF Fmt(t.f).name = "E5B9G9R9_UFloat" THEN Word(b, at) = SharedExponent /\ Word(b, at + 4) = 0
    ELSE WellFormed(b, at) /\ Used(Fields(b, at)) # <<>> /\ GenericLayout(Used(Fields(b, at))) = Layout(t.f)

\* bytes of the word a channel is read from
WordBytes(t) == LET fs == Fmt(t.f).ch IN IF \A i \in 1..Len(fs) : fs[i][3] \in {8, 16, 32} THEN fs[1][3] \div 8 ELSE Fmt(t.f).bytes
\* channel types: 4 for each width (normalised unsigned, signed, integer unsigned, signed), float 12, unsigned float 13
ChannelType(t) ==
    CASE t.t = Float -> 12 [] t.t = UFloat -> 13
      [] OTHER -> 4*(CASE WordBytes(t) = 1 -> 0 [] WordBytes(t) = 2 -> 1 [] OTHER -> 2) + (CASE t.t = UNorm -> 0 [] t.t = SNorm -> 1 [] t.t = UInt -> 2 [] OTHER -> 3)

\* metadata: blocks of developer code, key, size and data
RECURSIVE Blocks(_, _, _)
Blocks(b, at, end) ==
    IF at = end THEN <<>>
    ELSE IF at + 12 > end \/ Word(b, at + 8) < 0 \/ at + 12 + Word(b, at + 8) > end THEN <<<<0>>>>
    ELSE <<Text(b, at, 8)>> \o Blocks(b, at + 12 + Word(b, at + 8), end)
Ctfs == <<67, 84, 70, 83>>
Keys(t) == (IF t.isarr THEN {Ctfs \o <<65, 82, 82, 89>>} ELSE {}) \cup (IF t.dim = 0 THEN {Ctfs \o <<68, 73, 77, 49>>} ELSE {})

Order(t) == Cat([m \in 1..t.mips |-> Cat([d \in 1..DepthOf(t, m - 1) |-> [f \in 1..t.faces |-> <<f - 1, m - 1, d - 1>>]])])

PvrWrong(b, t, data) ==
  IF Len(b) < 52 THEN {"shorter than the header"} ELSE
  LET meta == Word(b, 48)
      start == 52 + meta
      fits == meta >= 0 /\ start <= Len(b)
      blocks == IF fits THEN Blocks(b, 52, start) ELSE <<>>
      end == IF fits THEN PackedAt(t, b, Order(t), data, start) ELSE -1
      flags == Word(b, 4)
  IN Failed(<<
    <<"version", Text(b, 0, 4) = <<80, 86, 82, 3>>>>,
    <<"pre-multiplied flag", flags \in (IF t.alpha = 2 THEN {2} ELSE {0}) \cup (IF t.alpha = 2 /\ ~Fmt(t.f).alpha THEN {0} ELSE {})>>,
    <<"pixel format", PixelFormatOK(b, 8, t)>>,
    <<"colour space", Word(b, 16) = t.cs>>,
    <<"channel type", Word(b, 20) = ChannelType(t)>>,
    <<"height", Word(b, 24) = t.h>>, <<"width", Word(b, 28) = t.w>>,
    <<"depth", Word(b, 32) = IF t.dim = 2 THEN t.depth ELSE 1>>,
    <<"surfaces", Word(b, 36) = IF t.dim = 2 THEN 1 ELSE t.depth>>,
    <<"faces", Word(b, 40) = t.faces>>, <<"mip count", Word(b, 44) = t.mips>>,
    <<"metadata", fits /\ {blocks[i] : i \in 1..Len(blocks)} = Keys(t) /\ Len(blocks) = Cardinality(Keys(t))>>,
    <<"data", end # -1>>,
    <<"length", end # -1 => end = Len(b)>> >>)
=============================================================================
