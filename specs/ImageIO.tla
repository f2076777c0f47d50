------------------------------ MODULE ImageIO ------------------------------
(* C15: what an encoded picture means as an image, and which file formats    *)
(* hold which images without loss.                                           *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x
\* image formats
Gray8 == 1  Gray16 == 2  RGB5 == 3  RGB565 == 4  RGB8 == 5  RGB16 == 6  RGBF == 7  RGBA8 == 8  RGBA16 == 9  RGBAF == 10
Int16 == 11  UInt16 == 12  Int32 == 13  UInt32 == 14  FloatF == 15  DoubleF == 16  Complex == 17
Formats == 1..17

\* A channel code as a value in 1/65536.  kind: "norm" code of `max`, "int" the number itself, "float" in 1/65536
ValueOf(kind, code, max) ==
    CASE kind = "float" -> code
      [] kind = "int" -> code*65536
      [] max = 65535 -> code + (IF code >= 32768 THEN 1 ELSE 0)
      [] OTHER -> (2*code*65536 + max) \div (2*max)
\* 16-bit codes are told apart exactly
Near(kind, a, b, max) == IF kind = "norm" /\ max = 65535 THEN a = b ELSE Abs(a - b) <= 1
\* integers and floating-point gray levels have no alpha: it reads as one
AlphaOf(kind, code, max) == IF kind = "int" THEN 65536 ELSE ValueOf(kind, code, max)
PixelOK(kind, max, code, px) ==
    /\ \A c \in 1..3 : Near(kind, px[c], ValueOf(kind, code[c], max[c]), max[c])
    /\ Near(kind, px[4], AlphaOf(kind, code[4], max[4]), max[4])

\* pic: [w, h, px (rows from the top, pixels from the left), mx, kind]
PictureWrong(pic, px) == {<<x, y>> \in (1..pic.w) \X (1..pic.h) : ~PixelOK(pic.kind, pic.mx, pic.px[y][x], px[y][x])}

----------------------------------------------------------------------------
\* The formats each file type holds without loss and without changing the format
Lossless(ext) ==
    CASE ext = "png" -> {Gray8, Gray16, RGB8, RGB16, RGBA8, RGBA16}
      [] ext = "bmp" -> {Gray8, RGB5, RGB565, RGB8, RGBA8}
      [] ext = "tga" -> {Gray8, RGB5, RGB8, RGBA8}
      [] ext \in {"tif", "tiff"} -> Formats \ {RGB5, RGB565, UInt16}
      [] ext \in {"ppm", "pgm", "pbm"} -> {Gray8, Gray16, RGB8, RGB16}
      [] ext = "pfm" -> {FloatF, RGBF}
      [] ext = "gif" -> {Gray8}
      [] OTHER -> {}
\* file types that are lossless: an image they do not hold is refused or kept all the same.
\* (16-bit 565 images in TGA files are read as 555 by the codec library.)
LosslessTypes == {"png", "bmp", "tga", "tif", "tiff", "ppm", "pgm", "pbm", "pfm", "gif"}
Kept(ext, f) == ext \in LosslessTypes /\ ~(ext = "tga" /\ f = RGB565) /\ f # UInt16
\* known extensions; others are no image format
KnownTypes == LosslessTypes \cup {"hdr", "exr", "jpg", "jp2", "webp", "xpm", "jng"}
\* images that lossy file types accept
Accepted2(ext) == CASE ext = "jpg" -> {Gray8, RGB8} [] ext = "webp" -> {RGB8, RGBA8} [] ext = "hdr" -> {RGBF} [] ext = "exr" -> {FloatF, RGBF, RGBAF} [] ext = "xpm" -> {RGB8} [] ext = "jng" -> {Gray8, RGB8} [] OTHER -> {}
\* the answer of saving to a sink that takes everything
MustSave(ext, f) == f \in Lossless(ext) \cup Accepted2(ext)
MustRefuse(ext, f) == f = 0 \/ ext \notin KnownTypes

SamePixels(a, b) == Len(a) = Len(b) /\ \A y \in 1..Len(a) : Len(a[y]) = Len(b[y]) /\ \A x \in 1..Len(a[y]) : a[y][x] = b[y][x]
=============================================================================
