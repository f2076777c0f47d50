-------------------------- MODULE TextureLifecycle --------------------------
(* C01: the state machine of up to two textures.  Model checked for its       *)
(* invariants, and the source of the behaviours replayed into the real code:  *)
(* every transition of the explored graph is printed with a shortest history  *)
(* that reaches it (ACTION_CONSTRAINT EmitTransition), and long random        *)
(* histories by simulation (INVARIANT EmitHistory).                           *)
EXTENDS Texture, TLC, Json, SequencesExt

CONSTANTS Universe,     \* "small": for exhaustive exploration; "wide": for simulation
          Slots,        \* set of texture slots
          Depth0        \* length of simulated histories

VARIABLES tex, hist, last   \* last: <<slot, texture before, result>>
vars == <<tex, hist, last>>
AllButHistory == tex

Small == Universe = "small"
Random(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})     \* (not a constant, which TLC would evaluate once)
Rare(n) == Random(1..n) = 1
Pick(S) == IF Small \/ S = {} THEN S ELSE {Random(S)}

\* dim, w, h, d
Shapes == IF Small THEN {<<0,2,1,0>>, <<0,1,1,2>>, <<1,2,2,0>>, <<1,2,1,2>>, <<2,2,2,2>>, <<2,1,1,3>>, <<3,1,1,0>>, <<3,2,2,0>>, <<1,3,2,1>>,
                         <<1,0,2,0>>, <<1,2,0,1>>, <<2,2,2,0>>, <<0,2,2,0>>}
          ELSE {<<dim, w, h, d>> : dim \in 0..3, w \in {0, 1, 2, 3, 5, 8}, h \in {0, 1, 2, 3, 7}, d \in {0, 1, 2, 3}}
MipChoices == IF Small THEN {0, 1, 2, 9} ELSE {0, 1, 2, 3, 4, 99}
Conversions == IF Small THEN {<<FormatNo("R8G8B8A8"), UNorm>>, <<FormatNo("R5G6B5"), UNorm>>, <<FormatNo("R8"), Float>>}
               ELSE {<<f, t>> : f \in {0, 1, 4, 9, 10, 12, 13, 14, 15, 16, 17, 19, 22, 26, 27, 28, 29, 40, 63}, t \in {0, 1, 2, 3, 4, 5}}
Kinds == IF Small THEN {"ok", "gray"} ELSE {"ok", "other", "gray", "srgb", "complex"}

Init == tex = [s \in Slots |-> NoTexture] /\ hist = <<>> /\ last = <<0, NoTexture, TRUE>>

Do(s, r, cmd) == /\ tex' = [tex EXCEPT ![s] = r[1]]
                 /\ last' = <<s, tex[s], r[2]>>
                 /\ hist' = Append(hist, <<s>> \o cmd)

InitAct(s) == \E sh \in Pick(Shapes), m \in Pick(MipChoices), cs \in Pick({Linear, sRGB}) :
    Do(s, Initialize(sh[1], sh[2], sh[3], sh[4], m, cs), <<"init", sh[1], sh[2], sh[3], sh[4], m, cs>>)
ResetAct(s) == Do(s, <<NoTexture, TRUE>>, <<"reset">>)

\* positions inside and just outside of the texture
Positions(T) == IF Small THEN {<<f, m, d>> \in {0, 1, 5} \X (0..T.mips) \X (0..2) :
                                 Exists(T, f, m, d) \/ <<f, m, d>> \in {<<0, T.mips, 0>>, <<0, 0, Depth(T, 0)>>} \/ (f = 1 /\ m = 0 /\ d = 0)}
                ELSE (0..5) \X (0..T.mips) \X (0..Depth(T, 0))
SetAct(s) == LET T == tex[s] IN Valid(T) /\ \E p \in Pick(Positions(T)), onFace \in Pick(BOOLEAN), kind \in Pick(Kinds), dw \in Pick(IF Small THEN {0, 1} ELSE {0, 0, 1}) :
    LET m == MinOf(p[2], T.mips - 1)
        w == Width(T, m) + dw
        h == Height(T, m) + (IF dw = 1 /\ p[3] % 2 = 1 THEN 1 ELSE 0)
        var == IF (p[1] + p[2] + p[3] + dw) % 2 = 0 THEN "c" ELSE "m"
    IN  /\ dw = 1 => kind = "ok"
        /\ ~onFace => p[1] = 0
        /\ Do(s, SetImage(T, onFace, p[1], p[2], p[3], w, h, 1), <<"set", onFace, var, kind, w, h, p[1], p[2], p[3]>>)
SetEmptyAct(s) == Valid(tex[s]) /\ Do(s, SetImage(tex[s], TRUE, 0, 0, 0, 0, 0, 0), <<"set", TRUE, "m", "empty", 0, 0, 0, 0, 0>>)
SetOnNothing(s) == ~Valid(tex[s]) /\ tex[s].kind # "moved" /\ \E onFace \in BOOLEAN : Do(s, SetImage(tex[s], onFace, 0, 0, 0, 1, 1, 1), <<"set", onFace, "c", "ok", 1, 1, 0, 0, 0>>)

Surfaces(T) == {p \in (0..5) \X (0..(T.mips - 1)) \X (0..(Depth(T, 0) - 1)) : Exists(T, p[1], p[2], p[3])}
Missing(T, levels) == {p \in Surfaces(T) : p[2] < levels /\ T.imgs[p[2] + 1][p[3] + 1][p[1] + 1] = None}
\* sets every image that is missing in the first levels
FillAct(s) == Valid(tex[s]) /\ \E levels \in Pick({1, tex[s].mips}) :
    LET T == tex[s] miss == Missing(T, levels)
        Filled(m, d, f) == IF m < levels THEN 1 ELSE T.imgs[m + 1][d + 1][f + 1]
    IN  /\ miss # {}
        /\ Do(s, <<[T EXCEPT !.imgs = Each(T, T.mips, Filled)], TRUE>>,
              <<"fill", SetToSeq({<<Width(T, p[2]), Height(T, p[2]), p[1], p[2], p[3]>> : p \in miss})>>)

Custom(f, m, d, ok, once) == [f |-> f, m |-> m, d |-> d, ok |-> ok, once |-> once]
CustomSets(T) ==
    LET n == Faces(T.dim)
        whole(m, once) == {Custom(0, m, d, TRUE, once) : d \in 0..(MaxOf(DepthOf(T.dim, T.d, m), 1) - 1)}
    IN  {{}, whole(1, TRUE), whole(1, FALSE), whole(1, TRUE) \cup whole(2, FALSE),
         {Custom(0, 1, 0, TRUE, TRUE)}, {Custom(n - 1, 1, 0, TRUE, FALSE)},
         {Custom(0, 1, 0, FALSE, TRUE)}, {Custom(0, 0, 0, TRUE, TRUE), Custom(0, 40, 0, TRUE, FALSE), Custom(0, 1, 7, TRUE, TRUE)},
         {Custom(0, 1, 0, TRUE, TRUE), Custom(0, 1, 1, TRUE, FALSE)}}
GenAct(s) == tex[s].kind # "moved" /\ \E levels \in Pick(IF Small THEN {0, 2, 9} ELSE {0, 1, 2, 3, 99}),
                 customs \in Pick(IF Valid(tex[s]) THEN CustomSets(tex[s]) ELSE {{}}) :
    LET r == GenerateMipmaps(tex[s], levels, customs)
        Tags(T) == [T EXCEPT !.imgs = [m \in 1..Len(T.imgs) |-> [d \in 1..Len(T.imgs[m]) |-> [f \in 1..Len(T.imgs[m][d]) |-> IF T.imgs[m][d][f] = None THEN None ELSE 1]]]]
    IN  Do(s, <<IF Valid(r[1]) THEN Tags(r[1]) ELSE r[1], r[2]>>, <<"gen", levels, SetToSeq(customs)>>)

ConvAct(s) == tex[s].kind # "moved" /\ \E c \in Pick(Conversions), am \in Pick(IF Small THEN {<<1, 15>>} ELSE {<<0, 15>>, <<2, 5>>, <<3, 8>>, <<1, 0>>}) :
    Do(s, Convert(tex[s], c[1], c[2], am[1], am[2]), <<"conv", c[1], c[2], am[1], am[2]>>)
ConvGood(s) == tex[s].kind # "moved" /\ \E f \in Pick(1..NumUncompressed) : \E t \in Pick(Uncompressed[f].types) :
    Do(s, Convert(tex[s], f, t, 1, 15), <<"conv", f, t, 1, 15>>)
SaveAct(s) == tex[s].kind # "moved" /\ \E file \in Pick(0..4) : Do(s, <<tex[s], TRUE>>, <<"save", file>>)

\* copies and moves between slots
CopyAct(a, b) == tex[b].kind # "moved" /\ tex' = [tex EXCEPT ![a] = tex[b]] /\ last' = <<a, tex[a], TRUE>> /\ \E how \in {"tcopy", "tassign"} : (a = b => how = "tassign") /\ hist' = Append(hist, <<a, how, b>>)
MoveAct(a, b) == a # b /\ tex[b].kind # "moved" /\ tex' = [tex EXCEPT ![a] = tex[b], ![b] = Moved] /\ last' = <<a, tex[a], TRUE>> /\ \E how \in {"tmove", "tmoveassign"} : hist' = Append(hist, <<a, how, b>>)

Next == \E s \in Slots : \/ InitAct(s) \/ ResetAct(s) \/ SetAct(s) \/ SetEmptyAct(s) \/ SetOnNothing(s) \/ FillAct(s) \/ GenAct(s) \/ ConvAct(s) \/ SaveAct(s)
                         \/ \E o \in Slots : CopyAct(s, o) \/ MoveAct(s, o)
\* simulation: calls on a texture more often than replacing it
NextSim == \E s \in Slots :
    \/ (~Valid(tex[s]) \/ Rare(6)) /\ InitAct(s)
    \/ Rare(12) /\ ResetAct(s)
    \/ SetAct(s) \/ FillAct(s) \/ GenAct(s) \/ ConvAct(s) \/ ConvGood(s) \/ SaveAct(s)
    \/ Rare(6) /\ (SetEmptyAct(s) \/ SetOnNothing(s))
    \/ Rare(3) /\ \E o \in Slots : CopyAct(s, o) \/ MoveAct(s, o)
Spec == Init /\ [][Next]_vars
SpecSim == Init /\ [][NextSim]_vars

----------------------------------------------------------------------------
Shape(T) == Valid(T) =>
    /\ T.w > 0 /\ T.h > 0 /\ (T.dim = Dim3D => T.d > 0) /\ (T.dim = Dim1D => T.h = 1)
    /\ T.mips \in 1..MaxMips(T.dim, T.w, T.h, T.d)
    /\ Len(T.imgs) = T.mips
    /\ \A m \in 1..T.mips : Len(T.imgs[m]) = Depth(T, m - 1) /\ \A d \in 1..Len(T.imgs[m]) : Len(T.imgs[m][d]) = Faces(T.dim)
    \* the last possible level is a single texel
    /\ T.mips = MaxMips(T.dim, T.w, T.h, T.d) => Width(T, T.mips - 1) = 1 /\ Height(T, T.mips - 1) = 1 /\ (T.dim = Dim3D => Depth(T, T.mips - 1) = 1)
Converted(T) == Valid(T) /\ T.conv =>
    /\ FormatValid(T.fmt, T.type) /\ (T.cs = sRGB => NativeSrgb(T.fmt, T.type))
    /\ Len(T.from) = T.mips
    /\ \A m \in 1..T.mips : Len(T.from[m]) = Depth(T, m - 1) /\ \A d \in 1..Len(T.from[m]) : \A f \in 1..Faces(T.dim) : T.from[m][d][f] # None
NotConverted(T) == Valid(T) /\ ~T.conv => T.fmt = 0 /\ T.from = <<>>
Outside(T) == Valid(T) => ~Exists(T, 0, T.mips, 0) /\ ~Exists(T, 0, 0, Depth(T, 0)) /\ ~Exists(T, Faces(T.dim), 0, 0)
Invariants == \A s \in Slots : Shape(tex[s]) /\ Converted(tex[s]) /\ NotConverted(tex[s]) /\ Outside(tex[s])
\* a call that fails leaves the texture as it was (initialising clears it first)
FailureKeeps == last[3] = FALSE /\ hist # <<>> /\ hist[Len(hist)][2] # "init" => tex[last[1]] = last[2]
SaveNeedsData == \A s \in Slots, file \in 0..4 : SaveResult(tex[s], file, TRUE) = SaveOk => Valid(tex[s]) /\ tex[s].conv

EmitTransition == PrintT("@@GEN " \o ToJson([h |-> hist', same |-> tex' = tex]))
EmitHistory == Len(hist) # Depth0 \/ PrintT("@@GEN " \o ToJson([h |-> hist, same |-> FALSE]))
=============================================================================
