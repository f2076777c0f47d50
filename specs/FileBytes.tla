----------------------------- MODULE FileBytes -----------------------------
(* Reading little-endian fields, and the layout of surfaces in a file.        *)
EXTENDS Formats, TLC

\* byte `at` is counted from 0; words beyond 2^31 give -1 (no field needs them)
Byte(b, at) == b[at + 1]
Word(b, at) == IF Byte(b, at + 3) >= 128 THEN -1 ELSE Byte(b, at) + 256*Byte(b, at + 1) + 65536*Byte(b, at + 2) + 16777216*Byte(b, at + 3)
Text(b, at, n) == SubSeq(b, at + 1, at + n)
HasBit(x, bit) == (x \div bit) % 2 = 1

Ext(n, m) == IF n \div 2^m < 1 THEN 1 ELSE n \div 2^m

(* What the texture is: t is [f, t, cs, dim, w, h, depth, isarr, mips, faces, alpha] *)
DepthOf(t, m) == IF t.dim = 2 THEN Ext(t.depth, m) ELSE t.depth
SurfaceBytes(t, m) == Ext(t.w, m)*Ext(t.h, m)*Fmt(t.f).bytes

\* bit layout of a format, as a set of <<channel, lowest bit, bits>>
Layout(f) == {Fmt(f).ch[i] : i \in 1..Len(Fmt(f).ch)}
LayoutOf(ch) == {ch[i] : i \in 1..Len(ch)}
\* fields listed from the least significant one
RECURSIVE Upwards(_, _)
Upwards(fields, pos) == IF fields = <<>> THEN <<>> ELSE <<<<fields[1][1], pos, fields[1][2]>>>> \o Upwards(Tail(fields), pos + fields[1][2])

\* sequences of all values of Op over a range, concatenated
RECURSIVE Cat(_)
Cat(s) == IF Len(s) = 0 THEN <<>> ELSE IF Len(s) = 1 THEN s[1]
          ELSE LET h == Len(s) \div 2 IN Cat(SubSeq(s, 1, h)) \o Cat(SubSeq(s, h + 1, Len(s)))

\* the surfaces of `order` (a sequence of <<face, level, depth>>) lie one after the other from byte `at`; data maps them to their bytes
RECURSIVE PackedAt(_, _, _, _, _)
PackedAt(t, b, order, data, at) ==
    IF at < 0 \/ order = <<>> THEN at
    ELSE IF Len(order) > 1 THEN LET h == Len(order) \div 2 IN PackedAt(t, b, SubSeq(order, h + 1, Len(order)), data, PackedAt(t, b, SubSeq(order, 1, h), data, at))
    ELSE LET s == order[1] n == SurfaceBytes(t, s[2]) IN
         IF at + n > Len(b) \/ Text(b, at, n) # data[s] \/ Len(data[s]) # n THEN -1
         ELSE at + n

\* surfaces of an event, as a function of <<face, level, depth>>
RECURSIVE Gathered(_, _, _)
Gathered(s, i, j) == IF i > j THEN <<>> ELSE IF i = j THEN <<s[i].f, s[i].m, s[i].d>> :> s[i].b
                     ELSE LET h == (i + j) \div 2 IN Gathered(s, i, h) @@ Gathered(s, h + 1, j)

Failed(checks) == {checks[i][1] : i \in {j \in 1..Len(checks) : ~checks[j][2]}}
=============================================================================
