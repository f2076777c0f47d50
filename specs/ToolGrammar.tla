----------------------------- MODULE ToolGrammar -----------------------------
(* C16: the command language of the tool.  A command line is a sequence of    *)
(* tokens; a token carries its text `s`, its lower case text `lo`, and what    *)
(* the text is when read as a number or name:                                  *)
(*   idx  an index (-1: isn't one)        int   a whole integer (BOOLEAN)      *)
(*   quarter clockwise quarter turns of an angle (-1: no multiple of 90)       *)
(*   size a positive size (0: isn't one)  num   a whole number (BOOLEAN)       *)
(*   swz  four channels 0..4 or <<>>      fmt   a format's number or 0         *)
(* Env tells what is on the disk: files (loadable images and their sizes),     *)
(* lists (image lists), miplists, outs (what happens when a path is written).  *)
EXTENDS FileBytes

None == "<none>"
Unset == -1
AllLevels == -2

Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Two31 == [i \in 1..31 |-> 2^(i - 1)]      \* powers of two

In(x, s) == \E i \in 1..Len(s) : s[i] = x
IndexIn(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
Faces == <<"+x", "-x", "+y", "-y", "+z", "-z">>
Filters == <<"box", "linear", "cubic", "catmull-rom", "b-spline">>      \* numbered from 0
TypeNames == <<"unorm", "snorm", "uint", "int", "ufloat", "float">>
AlphaNames == <<"none", "standard", "pre-multiplied", "encoded">>
QualityNames == <<"lowest", "low", "normal", "high", "highest">>
FileNames == <<"dds", "ktx", "pvr">>
ListKinds == <<"image", "array", "cube", "cube-array">>
Wraps == <<"wrapx", "wrapy", "wrap">>
Po2 == <<"", "-nextpo2", "-nearestpo2">>
SizeWords == {"nextpo2", "nearestpo2"} \cup {b \o Po2[i] : b \in {"width", "height", "min", "max"}, i \in 1..3}

\* the meaning of a command line
Start == [ok |-> TRUE, help |-> FALSE, log |-> "normal", kind |-> "image", listed |-> FALSE, imgs |-> <<>>,
          w |-> [word |-> "", n |-> 0], h |-> [word |-> "", n |-> 0], rfilter |-> 3, mips |-> Unset, mfilter |-> 3, customs |-> <<>>,
          flipx |-> FALSE, flipy |-> FALSE, turns |-> 0, normal |-> FALSE, wrap |-> "", nheight |-> "1", gray |-> FALSE,
          swz |-> <<>>, srgb |-> FALSE, premul |-> FALSE, dim |-> 1, fmt |-> 0, type |-> Unset, alpha |-> Unset, quality |-> 2,
          out |-> None, ftype |-> 0, mkdir |-> FALSE]
Fail(st) == [st EXCEPT !.ok = FALSE]

\* the sequence with x at position k (from 1), extended by empty names
Put(s, k, x) == [i \in 1..Max2(Len(s), k) |-> IF i = k THEN x ELSE IF i <= Len(s) THEN s[i] ELSE ""]
At(s, k) == IF k <= Len(s) THEN s[k] ELSE ""
Custom(st, level, depth, face, once, file) ==
    IF \E i \in 1..Len(st.customs) : st.customs[i].level = level /\ st.customs[i].depth = depth /\ st.customs[i].face = face THEN Fail(st)
    ELSE [st EXCEPT !.customs = Append(@, [level |-> level, depth |-> depth, face |-> face, once |-> once, file |-> file])]

\* level [depth] [face] [replace] file, from token i of T: where the file is, and the rest
MipArgs(T, i) ==
    LET n == Len(T)
        hasDepth == i + 1 <= n /\ T[i + 1].idx >= 0
        j == IF hasDepth THEN i + 1 ELSE i
        hasFace == j + 1 <= n /\ In(T[j + 1].lo, Faces)
        k == IF hasFace THEN j + 1 ELSE j
        hasRepl == k + 1 <= n /\ T[k + 1].lo \in {"once", "continue"}
        m == IF hasRepl THEN k + 1 ELSE k
    IN  [level |-> T[i].idx, depth |-> IF hasDepth THEN T[i + 1].idx ELSE 0, face |-> IF hasFace THEN IndexIn(T[j + 1].lo, Faces) - 1 ELSE 0,
         once |-> hasRepl /\ T[k + 1].lo = "once", file |-> m + 1]

\* a line of a custom mip list: the rest of the line is the file's name
RECURSIVE MipLines(_, _)
MipLines(lines, st) ==
    IF lines = <<>> \/ ~st.ok THEN st
    ELSE LET T == lines[1].toks a == MipArgs(T, 1) IN
         IF T = <<>> THEN MipLines(Tail(lines), st)
         ELSE IF T[1].idx < 0 \/ a.file > Len(T) THEN Fail(st)
         ELSE MipLines(Tail(lines), Custom(st, a.level, a.depth, a.face, a.once, lines[1].rest[a.file]))

\* one option, from token i of T; the result's .at is the next option
Then(st, at) == [st |-> st, at |-> at]
Stop(st) == [st |-> Fail(st), at |-> 0]
Option(T, i, st, Env) ==
    LET o == T[i].s
        n == Len(T)
        rest == n - i                              \* tokens behind the option
        a1 == T[i + 1]
        Is(s, g) == o = s \/ o = g
        Keep == st.kind
        Ready(kind) == st.imgs = <<>> \/ (st.kind = kind /\ ~st.listed)
        Choice(names, field) == IF rest < 1 \/ ~In(a1.lo, names) THEN Stop(st) ELSE Then([st EXCEPT ![field] = IndexIn(a1.lo, names) - 1], i + 2)
    IN
    CASE Is("-j", "--jobs") -> Then(st, IF rest >= 1 /\ T[i + 1].int THEN i + 2 ELSE i + 1)
      [] Is("-q", "--quiet") -> Then([st EXCEPT !.log = "quiet"], i + 1)
      [] Is("-v", "--verbose") -> Then([st EXCEPT !.log = "verbose"], i + 1)
      [] Is("-i", "--input") ->
            IF st.imgs # <<>> \/ rest < 1 THEN Stop(st) ELSE Then([st EXCEPT !.imgs = <<a1.s>>, !.kind = "image"], i + 2)
      [] Is("-a", "--array") ->
            IF ~Ready("array") \/ rest < 1 THEN Stop(st)
            ELSE LET given == rest >= 2 /\ a1.idx >= 0
                     k == IF given THEN a1.idx ELSE Len(st.imgs)
                     f == IF given THEN i + 2 ELSE i + 1 IN
                 IF k > n \/ At(st.imgs, k + 1) # "" THEN Stop(st)
                 ELSE Then([st EXCEPT !.imgs = Put(@, k + 1, T[f].s), !.kind = "array"], f + 1)
      [] Is("-c", "--cube") ->
            IF ~Ready("cube") \/ rest < 2 \/ ~In(a1.lo, Faces) THEN Stop(st)
            ELSE LET f == IndexIn(a1.lo, Faces) IN
                 IF At(st.imgs, f) # "" THEN Stop(st)
                 ELSE Then([st EXCEPT !.imgs = Put(Put(@, 6, At(@, 6)), f, T[i + 2].s), !.kind = "cube"], i + 3)
      [] Is("-C", "--cube-array") ->
            IF ~Ready("cube-array") \/ rest < 3 \/ a1.idx < 0 \/ ~In(T[i + 2].lo, Faces) \/ a1.idx > n THEN Stop(st)
            ELSE LET f == a1.idx*6 + IndexIn(T[i + 2].lo, Faces) last == a1.idx*6 + 6 IN
                 IF At(st.imgs, f) # "" THEN Stop(st)
                 ELSE Then([st EXCEPT !.imgs = Put(Put(@, last, At(@, last)), f, T[i + 3].s), !.kind = "cube-array"], i + 4)
      [] Is("-I", "--input-list") ->
            IF st.imgs # <<>> \/ rest < 2 \/ ~In(a1.lo, ListKinds) \/ T[i + 2].s \notin DOMAIN Env.lists THEN Stop(st)
            ELSE Then([st EXCEPT !.imgs = Env.lists[T[i + 2].s], !.kind = a1.lo, !.listed = TRUE], i + 3)
      [] Is("-r", "--resize") ->
            IF rest < 2 THEN Stop(st)
            ELSE LET Valid(t) == t.lo \in SizeWords \/ t.size > 0
                     Size(t) == IF t.lo \in SizeWords THEN [word |-> t.lo, n |-> 0] ELSE [word |-> "", n |-> t.size]
                     filter == rest >= 3 /\ In(T[i + 3].lo, Filters) IN
                 IF ~Valid(a1) \/ ~Valid(T[i + 2]) THEN Stop(st)
                 ELSE Then([st EXCEPT !.w = Size(a1), !.h = Size(T[i + 2]), !.rfilter = IF filter THEN IndexIn(T[i + 3].lo, Filters) - 1 ELSE @],
                           IF filter THEN i + 4 ELSE i + 3)
      [] Is("-m", "--mipmap") ->
            LET given == rest >= 1 /\ T[i + 1].idx >= 0
                j == IF given THEN i + 2 ELSE i + 1
                filter == j <= n /\ In(T[j].lo, Filters) IN
            Then([st EXCEPT !.mips = IF given THEN T[i + 1].idx ELSE AllLevels, !.mfilter = IF filter THEN IndexIn(T[j].lo, Filters) - 1 ELSE @],
                 IF filter THEN j + 1 ELSE j)
      [] Is("-M", "--custom-mip") ->
            IF rest < 2 \/ a1.idx < 0 THEN Stop(st)
            ELSE LET a == MipArgs(T, i + 1) IN
                 IF a.file > n THEN Stop(st) ELSE Then(Custom(st, a.level, a.depth, a.face, a.once, T[a.file].s), a.file + 1)
      [] o = "--custom-mip-list" ->
            IF rest < 1 \/ T[i + 1].s \notin DOMAIN Env.miplists THEN Stop(st) ELSE Then(MipLines(Env.miplists[T[i + 1].s], st), i + 2)
      [] o = "--flipx" -> Then([st EXCEPT !.flipx = TRUE], i + 1)
      [] o = "--flipy" -> Then([st EXCEPT !.flipy = TRUE], i + 1)
      [] o = "--rotate" -> IF rest < 1 \/ T[i + 1].quarter < 0 THEN Stop(st) ELSE Then([st EXCEPT !.turns = T[i + 1].quarter], i + 2)
      [] Is("-n", "--normalmap") ->
            LET wrap == rest >= 1 /\ In(T[i + 1].lo, Wraps)
                j == IF wrap THEN i + 2 ELSE i + 1
                height == j <= n /\ T[j].num IN
            Then([st EXCEPT !.normal = TRUE, !.wrap = IF wrap THEN T[i + 1].lo ELSE @, !.nheight = IF height THEN T[j].s ELSE @],
                 IF height THEN j + 1 ELSE j)
      [] Is("-g", "--grayscale") -> Then([st EXCEPT !.gray = TRUE], i + 1)
      [] Is("-s", "--swizzle") -> IF rest < 1 \/ T[i + 1].swz = <<>> THEN Stop(st) ELSE Then([st EXCEPT !.swz = a1.swz], i + 2)
      [] o = "--srgb" -> Then([st EXCEPT !.srgb = TRUE], i + 1)
      [] o = "--pre-multiply" -> Then([st EXCEPT !.premul = TRUE], i + 1)
      [] Is("-d", "--dimension") -> IF rest < 1 \/ ~In(T[i + 1].s, <<"1", "2", "3">>) THEN Stop(st) ELSE Then([st EXCEPT !.dim = IndexIn(a1.s, <<"1", "2", "3">>) - 1], i + 2)
      [] Is("-f", "--format") -> IF rest < 1 \/ T[i + 1].fmt = 0 THEN Stop(st) ELSE Then([st EXCEPT !.fmt = a1.fmt], i + 2)
      [] Is("-t", "--type") -> Choice(TypeNames, "type")
      [] o = "--alpha" -> Choice(AlphaNames, "alpha")
      [] Is("-Q", "--quality") -> Choice(QualityNames, "quality")
      [] Is("-o", "--output") -> IF rest < 1 \/ st.out # None THEN Stop(st) ELSE Then([st EXCEPT !.out = a1.s], i + 2)
      [] o = "--file-format" -> IF rest < 1 \/ ~In(T[i + 1].lo, FileNames) THEN Stop(st) ELSE Then([st EXCEPT !.ftype = IndexIn(a1.lo, FileNames)], i + 2)
      [] o = "--create-dir" -> Then([st EXCEPT !.mkdir = TRUE], i + 1)
      [] OTHER -> Stop(st)

RECURSIVE Options(_, _, _, _)
Options(T, i, st, Env) == IF ~st.ok \/ i > Len(T) THEN st ELSE LET r == Option(T, i, st, Env) IN Options(T, r.at, r.st, Env)
AsksHelp(T) == \E i \in 1..Len(T) : T[i].s \in {"-h", "--help"}
Parse(T, Env) == IF T = <<>> \/ AsksHelp(T) THEN [Start EXCEPT !.ok = FALSE, !.help = TRUE] ELSE Options(T, 1, Start, Env)

----------------------------------------------------------------------------
\* defaults that depend on other options
TypeOf(a) == IF a.type # Unset THEN a.type ELSE IF Fmt(a.fmt).name \in {"B10G11R11_UFloat", "E5B9G9R9_UFloat", "BC6H"} THEN UFloat ELSE UNorm
AlphaOf(a) == IF a.alpha # Unset THEN a.alpha
              ELSE IF a.swz # <<>> /\ a.swz[4] = 4 THEN 0
              ELSE IF a.premul THEN 2 ELSE 1
\* what the name of the output says when no file format is given (Env.ext maps it to 0..3)
FileTypeOf(a, Env) == IF a.ftype # 0 THEN a.ftype ELSE Env.ext[a.out]
IsCube(a) == a.kind \in {"cube", "cube-array"}
DimOf(a) == IF IsCube(a) THEN 3 ELSE a.dim
SrgbOf(a) == IF a.srgb /\ NativeSrgb(a.fmt, TypeOf(a)) THEN 1 ELSE 0
ElementsOf(a) == IF IsCube(a) THEN Len(a.imgs) \div 6 ELSE Len(a.imgs)
Halved(n, m) == IF m > 30 THEN 1 ELSE Ext(n, m)
DepthAt(a, m) == IF DimOf(a) = 2 THEN Halved(ElementsOf(a), m) ELSE ElementsOf(a)
LevelsWanted(a) == IF a.mips = Unset THEN 1 ELSE IF a.mips = AllLevels THEN 32 ELSE a.mips

ArgumentsOK(a, Env) ==
    /\ a.ok
    /\ a.imgs # <<>> /\ \A i \in 1..Len(a.imgs) : a.imgs[i] # ""
    /\ CASE a.kind = "image" -> Len(a.imgs) = 1 [] a.kind = "cube" -> Len(a.imgs) = 6 /\ a.dim = 1
         [] a.kind = "cube-array" -> Len(a.imgs) % 6 = 0 /\ a.dim = 1 [] OTHER -> TRUE
    /\ a.fmt # 0 /\ a.out # None
    /\ FileTypeOf(a, Env) # 0
    /\ TypeOf(a) \in Fmt(a.fmt).types /\ FileHolds(a.fmt, TypeOf(a), FileTypeOf(a, Env))
    /\ (a.customs # <<>> => LevelsWanted(a) > 1)
    /\ \A i \in 1..Len(a.customs) : LET c == a.customs[i] IN
          /\ c.level > 0 /\ c.depth < DepthAt(a, c.level)
          \* all slices of a level of a 3D texture or none
          /\ (DimOf(a) = 2 => Cardinality({j \in 1..Len(a.customs) : a.customs[j].level = c.level}) = DepthAt(a, c.level))
          \* and of the same kind
          /\ (DimOf(a) = 2 => \A j \in 1..Len(a.customs) : a.customs[j].level = c.level => a.customs[j].once = c.once)

----------------------------------------------------------------------------
\* sizes
NextPo2(n) == CHOOSE p \in {Two31[i] : i \in 1..Len(Two31)} : p >= n /\ (p = 1 \/ p \div 2 < n)
NearestPo2(n) == LET next == NextPo2(n) prev == next \div 2 IN IF prev = 0 THEN next ELSE IF next - n < n - prev THEN next ELSE prev
Rounded(word, n) == IF word = "nextpo2" THEN NextPo2(n) ELSE IF word = "nearestpo2" THEN NearestPo2(n) ELSE n
\* size option s of an extent n of a w x h image
Extent(s, n, w, h) ==
    IF s.word = "" THEN (IF s.n = 0 THEN n ELSE s.n)
    ELSE IF s.word \in {"nextpo2", "nearestpo2"} THEN Rounded(s.word, n)
    ELSE LET base == CASE s.word \in {"width", "width-nextpo2", "width-nearestpo2"} -> w [] s.word \in {"height", "height-nextpo2", "height-nearestpo2"} -> h
                       [] s.word \in {"min", "min-nextpo2", "min-nearestpo2"} -> (IF w < h THEN w ELSE h) [] OTHER -> (IF w > h THEN w ELSE h)
             how == CASE s.word \in {"width-nextpo2", "height-nextpo2", "min-nextpo2", "max-nextpo2"} -> "nextpo2"
                      [] s.word \in {"width-nearestpo2", "height-nearestpo2", "min-nearestpo2", "max-nearestpo2"} -> "nearestpo2" [] OTHER -> ""
         IN  Rounded(how, base)
Loadable(f, Env) == f \in DOMAIN Env.files
\* the size every image is brought to, from the first image; and the texture's, turned
BaseW(a, Env) == LET f == Env.files[a.imgs[1]] IN Extent(a.w, f.w, f.w, f.h)
BaseH(a, Env) == LET f == Env.files[a.imgs[1]] IN Extent(a.h, f.h, f.w, f.h)
TexW(a, Env) == IF a.turns % 2 = 1 THEN BaseH(a, Env) ELSE BaseW(a, Env)
TexH(a, Env) == IF a.turns % 2 = 1 THEN BaseW(a, Env) ELSE BaseH(a, Env)
MaxLevels(w, h, d) == CHOOSE k \in 1..31 : Two31[k] <= Max2(w, Max2(h, d)) /\ (k = 31 \/ Two31[k + 1] > Max2(w, Max2(h, d)))
LevelsOf(a, Env) == LET most == MaxLevels(BaseW(a, Env), BaseH(a, Env), IF DimOf(a) = 2 THEN Len(a.imgs) ELSE 1)
                    IN  Max2(1, Min2(LevelsWanted(a), most))

InputsOK(a, Env) ==
    /\ \A i \in 1..Len(a.imgs) : Loadable(a.imgs[i], Env)
    /\ \A i \in 1..Len(a.customs) : LET c == a.customs[i] IN
          /\ c.level < LevelsOf(a, Env) /\ (c.face # 0 => IsCube(a)) /\ Loadable(c.file, Env)

\* a 3D texture needs an array of slices, a 1D texture images of one row
ConvertOK(a, Env) == /\ (DimOf(a) = 2 => a.kind = "array")
                     /\ (DimOf(a) = 0 => TexH(a, Env) = 1)
WriteOK(a, Env) == \/ Env.outs[a.out].kind = "writable"
                   \/ Env.outs[a.out].kind = "nodir" /\ a.mkdir

ExitCode(a, Env) == IF ~ArgumentsOK(a, Env) THEN 1 ELSE IF ~InputsOK(a, Env) THEN 2 ELSE IF ~ConvertOK(a, Env) \/ ~WriteOK(a, Env) THEN 3 ELSE 0

\* the texture a successful run writes, as the file readers know it
TextureOf(a, Env) ==
    [f |-> a.fmt, t |-> TypeOf(a), cs |-> SrgbOf(a), dim |-> DimOf(a), w |-> TexW(a, Env), h |-> TexH(a, Env),
     depth |-> IF a.kind \in {"array", "cube-array"} THEN ElementsOf(a) ELSE 1,
     isarr |-> a.kind \in {"array", "cube-array"} /\ DimOf(a) # 2, mips |-> LevelsOf(a, Env),
     faces |-> IF IsCube(a) THEN 6 ELSE 1, alpha |-> AlphaOf(a)]

\* what a command line means, up to the order of custom mips
Meaning(a, Env) ==
    IF ExitCode(a, Env) = 1 THEN [code |-> 1]
    ELSE [code |-> ExitCode(a, Env),
          args |-> [a EXCEPT !.customs = {a.customs[i] : i \in 1..Len(a.customs)}, !.type = TypeOf(a), !.alpha = AlphaOf(a), !.ftype = FileTypeOf(a, Env)]]
=============================================================================
