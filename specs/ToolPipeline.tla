---------------------------- MODULE ToolPipeline ----------------------------
(* C17: what a command line makes of its images.  Steps gives the documented  *)
(* operations of one image in the documented order; Program turns a command   *)
(* line into calls of the library; Exactly computes the texels of a texture   *)
(* directly where every step only moves texels and channels around.           *)
EXTENDS ToolGrammar

\* the operations of an image that becomes level m of the texture (m > 0: a custom mip);
\* Env.files[f] has the size and the pixel format of a picture
Steps(a, Env, f, m) ==
    LET p == Env.files[f]
        w0 == BaseW(a, Env) h0 == BaseH(a, Env)
        w1 == Halved(w0, m) h1 == Halved(h0, m)
        \* normal maps are made of the image at its full size
        w == IF a.normal THEN w0 ELSE w1 h == IF a.normal THEN h0 ELSE h1
        turned == a.turns % 2 = 1
        When(c, s) == IF c THEN <<s>> ELSE <<>>
        none == [do |-> ""]
    IN  <<[do |-> "load", file |-> f, srgb |-> IF a.srgb THEN 1 ELSE 0], [do |-> "float"]>>
        \o When(a.srgb /\ SrgbOf(a) = 0, [do |-> "linear"])
        \o When(p.w # w \/ p.h # h, [do |-> "resize", w |-> w, h |-> h, filter |-> a.rfilter])
        \o When(a.turns # 0, [do |-> "rotate", turns |-> a.turns])
        \o When(a.gray, [do |-> "gray"])
        \o When(a.normal, [do |-> "normal", height |-> a.nheight,
                           options |-> (IF TypeOf(a) \in {SNorm, SInt, Float} THEN 1 ELSE 0) + (IF a.wrap \in {"wrap", "wrapx"} THEN 2 ELSE 0) + (IF a.wrap \in {"wrap", "wrapy"} THEN 4 ELSE 0)])
        \o When(a.normal /\ (w # w1 \/ h # h1), [do |-> "resize", w |-> IF turned THEN h1 ELSE w1, h |-> IF turned THEN w1 ELSE h1, filter |-> a.rfilter])
        \o When(a.flipx, [do |-> "flipx"])
        \o When(a.flipy, [do |-> "flipy"])
        \o When(a.swz # <<>>, [do |-> "swizzle", c |-> a.swz])
        \o When(a.premul, [do |-> "premultiply"])
        \o <<[do |-> "range", type |-> TypeOf(a), from |-> IF a.normal THEN "made" ELSE f]>>

\* the steps in the order of the documentation
Documented == <<"load", "float", "linear", "resize", "rotate", "gray", "normal", "resize", "flipx", "flipy", "swizzle", "premultiply", "range">>
RECURSIVE InOrder(_, _)
InOrder(s, names) == IF s = <<>> THEN TRUE ELSE IF names = <<>> THEN FALSE
                     ELSE IF s[1].do = names[1] THEN InOrder(Tail(s), Tail(names)) ELSE InOrder(s, Tail(names))

\* where image i goes: face, depth
FaceOf(a, i) == IF IsCube(a) THEN (i - 1) % 6 ELSE 0
SliceOf(a, i) == IF a.kind = "cube-array" THEN (i - 1) \div 6 ELSE IF a.kind = "array" THEN i - 1 ELSE 0

\* channels that are written: all but those a swizzle leaves out
Written(a) == IF a.swz = <<>> THEN <<1, 1, 1, 1>> ELSE [i \in 1..4 |-> IF a.swz[i] = 4 THEN 0 ELSE 1]

----------------------------------------------------------------------------
\* as calls of the library (harness/cfh.cpp)
RECURSIVE Join(_)
Join(words) == IF words = <<>> THEN "" ELSE IF Len(words) = 1 THEN words[1] ELSE words[1] \o " " \o Join(Tail(words))
N(n) == ToString(n)
Line(words) == Join(words)
RGBAF == 10
Call(s, Env) ==
    CASE s.do = "load" -> Line(<<"iload", "0", "file", s.file, N(s.srgb)>>)
      [] s.do = "float" -> Line(<<"iconv", "0", "0", N(RGBAF), "0">>)
      [] s.do = "linear" -> "ics 0 0"
      [] s.do = "resize" -> Line(<<"iresize", "0", "0", N(s.w), N(s.h), N(s.filter)>>)
      [] s.do = "rotate" -> Line(<<"irotate", "0", "0", N(s.turns - 1)>>)
      [] s.do = "gray" -> "igray 0"
      [] s.do = "normal" -> Line(<<"inormal", "0", "0", N(s.options), s.height, N(7)>>)
      [] s.do = "flipx" -> "iflipx 0"
      [] s.do = "flipy" -> "iflipy 0"
      [] s.do = "swizzle" -> Line(<<"iswz", "0", N(s.c[1]), N(s.c[2]), N(s.c[3]), N(s.c[4])>>)
      [] s.do = "premultiply" -> "ipremul 0"
      [] s.do = "range" -> Line(<<"iadjust", "0", N(s.type), N(IF s.from = "made" THEN 7 ELSE Env.files[s.from].format)>>)
Calls(a, Env, f, m) == LET s == Steps(a, Env, f, m) IN [i \in 1..Len(s) |-> Call(s[i], Env)]

Surfaces(a, Env) == LET t == TextureOf(a, Env) IN
    Cat([m \in 1..t.mips |-> Cat([d \in 1..(IF t.dim = 2 THEN Halved(t.depth, m - 1) ELSE t.depth) |-> [f \in 1..t.faces |-> <<f - 1, m - 1, d - 1>>]])])
Program(a, Env) ==
    LET t == TextureOf(a, Env)
        kept == Written(a)
        images == Cat([i \in 1..Len(a.imgs) |-> Calls(a, Env, a.imgs[i], 0) \o
                       <<Line(<<"tset", "0", IF IsCube(a) THEN "fc" ELSE "c", "0", N(FaceOf(a, i)), "0", N(SliceOf(a, i))>>)>>])
        customs == Cat([i \in 1..Len(a.customs) |-> Calls(a, Env, a.customs[i].file, a.customs[i].level) \o
                       <<Line(<<"cmown", N(i), "0", IF a.customs[i].once THEN "0" ELSE "1">>)>>])
        given == Cat([i \in 1..Len(a.customs) |-> <<N(a.customs[i].face), N(a.customs[i].level), N(a.customs[i].depth), N(i)>>])
        levels == LevelsWanted(a)
        s == Surfaces(a, Env)
    IN  <<Line(<<"tctor", "0", N(t.dim), N(t.w), N(t.h), N(IF a.kind \in {"array", "cube-array"} THEN ElementsOf(a) ELSE 0), "1", N(t.cs)>>)>>
        \o images \o customs
        \o (IF levels > 1 THEN <<Line(<<"tgen", "0", N(a.mfilter), N(levels)>> \o given)>> ELSE <<>>)
        \o <<Line(<<"tconv", "0", N(t.f), N(t.t), N(a.quality), N(t.alpha), N(kept[1] + 2*kept[2] + 4*kept[3] + 8*kept[4]), "1">>)>>
        \o [i \in 1..Len(s) |-> Line(<<"tdata", "0", N(s[i][1]), N(s[i][2]), N(s[i][3])>>)]

----------------------------------------------------------------------------
\* exactly: pictures of 8-bit codes (rows of texels of 4 codes), formats that keep the codes
Moves == {"load", "float", "rotate", "flipx", "flipy", "swizzle", "range"}
Movable(s) == \A i \in 1..Len(s) : s[i].do \in Moves
Rows(p) == Len(p)
Cols(p) == Len(p[1])
Turned(p) == LET w == Cols(p) h == Rows(p) IN [y \in 1..w |-> [x \in 1..h |-> p[h + 1 - x][y]]]      \* a clockwise quarter
RECURSIVE TurnedBy(_, _)
TurnedBy(p, n) == IF n = 0 THEN p ELSE TurnedBy(Turned(p), n - 1)
Mirrored(p) == [y \in 1..Rows(p) |-> [x \in 1..Cols(p) |-> p[y][Cols(p) + 1 - x]]]
UpsideDown(p) == [y \in 1..Rows(p) |-> p[Rows(p) + 1 - y]]
Channels(p, c) == [y \in 1..Rows(p) |-> [x \in 1..Cols(p) |-> [k \in 1..4 |-> IF c[k] = 4 THEN -1 ELSE p[y][x][c[k] + 1]]]]     \* -1: not decided
Move(p, s) == CASE s.do = "rotate" -> TurnedBy(p, s.turns) [] s.do = "flipx" -> Mirrored(p) [] s.do = "flipy" -> UpsideDown(p)
                [] s.do = "swizzle" -> Channels(p, s.c) [] OTHER -> p
RECURSIVE Moved(_, _)
Moved(p, s) == IF s = <<>> THEN p ELSE Moved(Move(p, s[1]), Tail(s))
\* order of the channels of a texel and the bytes of each
Keeping == [R8G8B8A8 |-> <<<<1, 2, 3, 4>>, 1>>, B8G8R8A8 |-> <<<<3, 2, 1, 4>>, 1>>, A8B8G8R8 |-> <<<<4, 3, 2, 1>>, 1>>,
            R8G8B8 |-> <<<<1, 2, 3>>, 1>>, B8G8R8 |-> <<<<3, 2, 1>>, 1>>, R8G8 |-> <<<<1, 2>>, 1>>, R8 |-> <<<<1>>, 1>>,
            R16G16B16A16 |-> <<<<1, 2, 3, 4>>, 2>>, R16G16B16 |-> <<<<1, 2, 3>>, 2>>, R16G16 |-> <<<<1, 2>>, 2>>, R16 |-> <<<<1>>, 2>>]
Exact(a, Env, f, m) ==
    /\ Fmt(a.fmt).name \in DOMAIN Keeping /\ TypeOf(a) = UNorm
    /\ f \in DOMAIN Env.exact /\ Movable(Steps(a, Env, f, m))
\* the bytes of a surface, -1 where the specification leaves them open
TexelBytes(c, how) == Cat([i \in 1..Len(how[1]) |-> LET v == c[how[1][i]] IN IF how[2] = 1 THEN <<v>> ELSE <<v, v>>])
ExactBytes(a, Env, f, m) ==
    LET p == Moved(Env.exact[f], Steps(a, Env, f, m)) how == Keeping[Fmt(a.fmt).name]
    IN  Cat([y \in 1..Rows(p) |-> Cat([x \in 1..Cols(p) |-> TexelBytes(p[y][x], how)])])
\* the picture that is surface s = <<face, level, slice>> as such, "" when the surface is computed from others
SourceOf(a, s) ==
    LET given == {i \in 1..Len(a.customs) : a.customs[i].level = s[2] /\ a.customs[i].face = s[1] /\ a.customs[i].depth = s[3]}
        base == {i \in 1..Len(a.imgs) : FaceOf(a, i) = s[1] /\ SliceOf(a, i) = s[3]}
    IN  IF s[2] = 0 THEN a.imgs[CHOOSE i \in base : TRUE]
        ELSE IF given # {} THEN a.customs[CHOOSE i \in given : TRUE].file ELSE ""
Agrees(b, want) == Len(b) = Len(want) /\ \A i \in 1..Len(b) : want[i] = -1 \/ b[i] = want[i]

----------------------------------------------------------------------------
\* facts about the moves: they tell every order of operations apart, and have the sizes the texture says
Grid(w, h) == [y \in 1..h |-> [x \in 1..w |-> <<x, y, x + 10*y, 5>>]]
Squares == {<<w, h>> : w \in 1..3, h \in 1..3}
MovesAgree == \A s \in Squares : LET p == Grid(s[1], s[2]) IN
    /\ TurnedBy(p, 4) = p /\ Mirrored(Mirrored(p)) = p /\ UpsideDown(UpsideDown(p)) = p
    /\ TurnedBy(p, 2) = Mirrored(UpsideDown(p))
    /\ Mirrored(Turned(p)) = TurnedBy(UpsideDown(p), 1) /\ UpsideDown(Turned(p)) = TurnedBy(Mirrored(p), 1)
    /\ Rows(Turned(p)) = s[1] /\ Cols(Turned(p)) = s[2]
    /\ Turned(p)[1][s[2]] = p[1][1]            \* the top left texel comes to the top right
=============================================================================
