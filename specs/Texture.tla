------------------------------ MODULE Texture ------------------------------
(* The life of a texture: what every public call does to it and returns.      *)
(* A texture value is NoTexture, Moved (the value was moved away: it may only *)
(* be assigned, reset, initialised or destroyed) or a record with             *)
(*   dim, cs, w, h, d    as initialised (d = 0: no array)                     *)
(*   mips                number of levels                                     *)
(*   imgs[m][d][f]       tag of each image (1-based); None if there is none   *)
(*   conv                converted data is held                               *)
(*   fmt, type, alpha, mask   of the last conversion                          *)
(*   from[m][d][f]       tags of the images the data was converted from       *)
EXTENDS Formats

None == 0            \* no image
Unknown == -1        \* an image whose content this specification does not know

Dim1D == 0  Dim2D == 1  Dim3D == 2  DimCube == 3
SaveOk == 0  SaveInvalid == 1  SaveUnknown == 2  SaveUnsupported == 3
AutoType == 0

NoTexture == [kind |-> "none"]
Moved == [kind |-> "moved"]
Valid(T) == T.kind = "texture"

MaxOf(a, b) == IF a > b THEN a ELSE b
MinOf(a, b) == IF a < b THEN a ELSE b
RECURSIVE BitLength(_)
BitLength(n) == IF n = 0 THEN 0 ELSE 1 + BitLength(n \div 2)
MaxMips(dim, w, h, d) == BitLength(MaxOf(w, MaxOf(h, IF dim = Dim3D THEN d ELSE 1)))
Shrink(n, m) == MaxOf(n \div 2^m, 1)

Faces(dim) == IF dim = DimCube THEN 6 ELSE 1
DepthOf(dim, d, m) == IF dim = Dim3D THEN Shrink(d, m) ELSE MaxOf(d, 1)

HasLevel(T, m) == Valid(T) /\ m >= 0 /\ m < T.mips
Width(T, m)  == IF HasLevel(T, m) THEN Shrink(T.w, m) ELSE 0
Height(T, m) == IF HasLevel(T, m) THEN Shrink(T.h, m) ELSE 0
Depth(T, m)  == IF HasLevel(T, m) THEN DepthOf(T.dim, T.d, m) ELSE 0
Exists(T, f, m, d) == HasLevel(T, m) /\ d >= 0 /\ d < Depth(T, m) /\ f >= 0 /\ f < Faces(T.dim)

\* one value for each surface
Each(T, mips, Op(_, _, _)) ==
    [m \in 1..mips |-> [d \in 1..DepthOf(T.dim, T.d, m - 1) |-> [f \in 1..Faces(T.dim) |-> Op(m - 1, d - 1, f - 1)]]]
Complete(T) == Valid(T) /\ \A m \in 1..T.mips : \A d \in 1..Len(T.imgs[m]) : \A f \in 1..Len(T.imgs[m][d]) : T.imgs[m][d][f] # None

----------------------------------------------------------------------------
(* Calls: each gives <<texture afterwards, result>>                           *)
Initialize(dim, w, h, d, mips, cs) ==
    IF w = 0 \/ h = 0 \/ (dim = Dim3D /\ d = 0) \/ (dim = Dim1D /\ h # 1) THEN <<NoTexture, FALSE>>
    ELSE LET T == [kind |-> "texture", dim |-> dim, w |-> w, h |-> h, d |-> d, cs |-> cs,
                   mips |-> MinOf(MaxOf(mips, 1), MaxMips(dim, w, h, d)), imgs |-> <<>>,
                   conv |-> FALSE, fmt |-> 0, type |-> UNorm, alpha |-> 1, mask |-> 15, from |-> <<>>]
             Blank(m, e, f) == None
         IN  <<[T EXCEPT !.imgs = Each(T, T.mips, Blank)], TRUE>>

\* the image has extent w x h (0 x 0: no image) and tag afterwards; onFace: the overload with a face
SetImage(T, onFace, f, m, d, w, h, tag) ==
    LET face == IF onFace THEN f ELSE 0
        ok == /\ Exists(T, face, m, d) /\ w = Width(T, m) /\ h = Height(T, m)
              /\ ~onFace => Faces(T.dim) = 1
    IN  IF ok THEN <<[T EXCEPT !.imgs[m + 1][d + 1][face + 1] = tag], TRUE>> ELSE <<T, FALSE>>

\* customs: set of [f, m, d, ok, once]; ok: it refers to an image
CustomAt(customs, f, m, d) == {c \in customs : c.f = f /\ c.m = m /\ c.d = d}
Consistent3D(T, levels, customs) ==
    \A m \in 1..(levels - 1) : LET n == DepthOf(T.dim, T.d, m) IN
        \A d \in 1..(n - 1) :
            LET a == CustomAt(customs, 0, m, 0) b == CustomAt(customs, 0, m, d) IN
            /\ (a = {}) <=> (b = {})
            /\ \A x \in a, y \in b : x.once = y.once
GenerateMipmaps(T, levels0, customs) ==
    IF ~Valid(T) THEN <<T, FALSE>> ELSE
    LET levels == MinOf(MaxOf(levels0, 1), MaxMips(T.dim, T.w, T.h, T.d))
        ok == /\ \A d \in 1..Len(T.imgs[1]) : \A f \in 1..Len(T.imgs[1][d]) : T.imgs[1][d][f] # None
              /\ \A c \in customs : c.ok
              /\ T.dim = Dim3D => Consistent3D(T, levels, customs)
        Content(m, d, f) == IF m = 0 THEN T.imgs[1][d + 1][f + 1] ELSE Unknown
    IN  IF ~ok THEN <<T, FALSE>>
        ELSE <<[T EXCEPT !.mips = levels, !.imgs = Each(T, levels, Content),
                         !.conv = FALSE, !.fmt = IF T.conv THEN 0 ELSE T.fmt, !.from = <<>>], TRUE>>

ConvertibleTo(T, f, t) == Complete(T) /\ FormatValid(f, t) /\ (T.cs = sRGB => NativeSrgb(f, t))
Convert(T, f, t, alpha, mask) ==
    IF ~ConvertibleTo(T, f, t) THEN <<T, FALSE>>
    ELSE LET Blank(m, e, k) == None
         IN  <<[T EXCEPT !.conv = TRUE, !.fmt = f, !.type = t, !.alpha = alpha, !.mask = mask,
                         !.from = T.imgs, !.imgs = Each(T, T.mips, Blank)], TRUE>>

SaveResult(T, file, named) ==
    IF ~Valid(T) \/ ~T.conv \/ ~named THEN SaveInvalid
    ELSE IF file \notin {DDS, KTX, PVR} THEN SaveUnknown
    ELSE IF FileHolds(T.fmt, T.type, file) THEN SaveOk ELSE SaveUnsupported

DataSize(T, f, m, d) == IF T.conv THEN Width(T, m)*Height(T, m)*Fmt(T.fmt).bytes ELSE 0

----------------------------------------------------------------------------
(* Everything that can be asked of a texture, except the image contents       *)
Observe(T) ==
    IF Valid(T)
    THEN [valid |-> TRUE, boolop |-> TRUE, dim |-> T.dim, cs |-> T.cs, arr |-> T.dim # Dim3D /\ T.d > 0, mips |-> T.mips, faces |-> Faces(T.dim),
          complete |-> Complete(T), conv |-> T.conv, fmt |-> T.fmt, type |-> T.type, alpha |-> T.alpha, mask |-> T.mask,
          ext |-> [i \in 1..(T.mips + 1) |-> <<Width(T, i - 1), Height(T, i - 1), Depth(T, i - 1)>>], far |-> TRUE, edge |-> TRUE]
    ELSE [valid |-> FALSE, boolop |-> FALSE, dim |-> Dim2D, cs |-> Linear, arr |-> FALSE, mips |-> 0, faces |-> 0,
          complete |-> FALSE, conv |-> FALSE, fmt |-> 0, type |-> UNorm, alpha |-> 0, mask |-> 15,
          ext |-> <<<<0, 0, 0>>>>, far |-> TRUE, edge |-> TRUE]
ObservedKeys == {"valid", "boolop", "dim", "cs", "arr", "mips", "faces", "complete", "conv", "fmt", "type", "alpha", "mask", "ext", "far", "edge"}
=============================================================================
