------------------------------ MODULE ToolFile ------------------------------
(* The texture files that the tool writes, read by the specifications of the  *)
(* file formats.                                                               *)
EXTENDS ToolGrammar

D == INSTANCE DdsFile
K == INSTANCE KtxFile
V == INSTANCE PvrFile

\* the surfaces as the file itself has them (so that only the description and the extents are judged)
RECURSIVE Slices(_, _, _, _)
Slices(t, b, order, at) ==
    IF order = <<>> THEN <<>>
    ELSE LET n == SurfaceBytes(t, order[1][2]) IN
         IF at + n > Len(b) THEN <<>> ELSE (order[1] :> Text(b, at, n)) @@ Slices(t, b, Tail(order), at + n)
RECURSIVE KtxSlices(_, _, _, _)
KtxSlices(t, b, m, at) ==
    IF m = t.mips THEN <<>>
    ELSE LET s == K!LevelOrder(t, m) n == K!SurfaceFileBytes(t, m) p == K!Padded(K!RowBytes(t, m)) end == at + 4 + n*Len(s) IN
         IF end > Len(b) THEN <<>>
         ELSE [x \in {s[i] : i \in 1..Len(s)} |-> LET i == IndexIn(x, s) IN Cat([y \in 1..Ext(t.h, m) |-> Text(b, at + 4 + (i - 1)*n + (y - 1)*p, K!RowBytes(t, m))])]
              @@ KtxSlices(t, b, m + 1, end)
\* data: the surfaces, or <<>> to take them as the file has them
FileWrong(b, t, type, data) ==
    LET Or(x) == IF data = <<>> THEN x ELSE data IN
    IF type = DDS THEN (IF Len(b) < 148 THEN {"too short"} ELSE D!DdsWrong(b, t, Or(Slices(t, b, D!Order(t), 148))))
    ELSE IF type = KTX THEN (IF Len(b) < 64 THEN {"too short"} ELSE K!KtxWrong(b, t, Or(KtxSlices(t, b, 0, 64))))
    ELSE IF Len(b) < 52 \/ Word(b, 48) < 0 THEN {"too short"} ELSE V!PvrWrong(b, t, Or(Slices(t, b, V!Order(t), 52 + Word(b, 48))))
\* the surfaces as the file has them
SurfacesIn(b, t, type) == IF type = DDS THEN Slices(t, b, D!Order(t), 148) ELSE IF type = KTX THEN KtxSlices(t, b, 0, 64)
                          ELSE Slices(t, b, V!Order(t), 52 + Word(b, 48))
=============================================================================
