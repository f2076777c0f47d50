---------------------------- MODULE TextureTrace ----------------------------
(* C01: recorded histories of public texture calls against Texture.tla: the   *)
(* result of each call and every observable after it.                         *)
EXTENDS Texture, TraceFrame

VARIABLES tex,     \* slot -> texture
          img,     \* slot -> what is known of an image
          cm,      \* slot -> custom mip image
          memo     \* <<image, format, type>> -> the data it was converted to
vars == <<frame, tex, img, cm, memo>>
state == <<tex, img, cm, memo>>

Slots == 0..3
RGBAF == 10
Fresh == tex' = [s \in Slots |-> NoTexture] /\ img' = <<>> /\ cm' = <<>> /\ memo' = <<>>
Arg(i) == E.a[i]
Put(f, k, v) == (k :> v) @@ f

\* a call on texture s: r is <<texture afterwards, result>>
Call(s, r) == IF Normal /\ E.ret = r[2]
              THEN Accept /\ tex' = [tex EXCEPT ![s] = r[1]] /\ UNCHANGED <<img, cm, memo>>
              ELSE Reject([call |-> E.a, expected |-> r[2], observed |-> IF Normal THEN E.ret ELSE "exception"]) /\ UNCHANGED state

ImageKnown == IsOp("ihash") /\ Accept /\ img' = Put(img, E.i, [E.st EXCEPT !.bpp = E.h]) /\ UNCHANGED <<tex, cm, memo>>
CustomKnown == More /\ ~skip /\ E.op \in {"cmref", "cmown"} /\ Accept /\ cm' = Put(cm, E.c, [ok |-> img[E.i].valid, once |-> E.r = 0]) /\ UNCHANGED <<tex, img, memo>>

TInit == IsOp("tinit") /\ Call(Arg(1), Initialize(Arg(2), Arg(3), Arg(4), Arg(5), Arg(6), Arg(7)))
TSet == IsOp("tset") /\
    LET T == tex[Arg(1)] im == img[Arg(3)]
        tag == IF im.fmt = RGBAF /\ Valid(T) /\ im.cs = T.cs THEN im.bpp ELSE Unknown
    IN  Call(Arg(1), SetImage(T, Arg(2) \in {"fc", "fm"}, Arg(4), Arg(5), Arg(6), im.w, im.h, tag))
Customs == {[f |-> Arg(4 + 4*k), m |-> Arg(5 + 4*k), d |-> Arg(6 + 4*k), ok |-> cm[Arg(7 + 4*k)].ok, once |-> cm[Arg(7 + 4*k)].once] : k \in 0..((Len(E.a) - 3) \div 4 - 1)}
TGen == IsOp("tgen") /\ Call(Arg(1), GenerateMipmaps(tex[Arg(1)], Arg(3), Customs))
TConv == IsOp("tconv") /\ Call(Arg(1), Convert(tex[Arg(1)], Arg(2), Arg(3), Arg(5), Arg(6)))
TSave == IsOp("tsave") /\ UNCHANGED state /\
    LET r == SaveResult(tex[Arg(1)], Arg(2), Arg(3) # "null")
    IN  Judge(Normal /\ E.res = r /\ (E.len > 0 <=> r = SaveOk), [call |-> E.a, expected |-> r])
TReset == IsOp("treset") /\ Accept /\ tex' = [tex EXCEPT ![Arg(1)] = NoTexture] /\ UNCHANGED <<img, cm, memo>>
TCopy == More /\ ~skip /\ E.op \in {"tcopy", "tassign"} /\ Accept /\ tex' = [tex EXCEPT ![Arg(1)] = tex[Arg(2)]] /\ UNCHANGED <<img, cm, memo>>
TMove == More /\ ~skip /\ E.op \in {"tmove", "tmoveassign"} /\ Accept /\ tex' = [tex EXCEPT ![Arg(1)] = tex[Arg(2)], ![Arg(2)] = Moved] /\ UNCHANGED <<img, cm, memo>>

\* images: same presence, and the known contents
SameImages(T, obs) ==
    /\ Len(obs) = T.mips
    /\ \A m \in 1..T.mips : /\ Len(obs[m]) = Len(T.imgs[m])
                            /\ \A d \in 1..Len(obs[m]) : /\ Len(obs[m][d]) = Len(T.imgs[m][d])
                                                         /\ \A f \in 1..Len(obs[m][d]) : LET e == T.imgs[m][d][f] o == obs[m][d][f] IN IF e = Unknown THEN o > 0 ELSE o = e
SameSizes(T, obs) ==
    /\ Len(obs) = T.mips
    /\ \A m \in 1..T.mips : /\ Len(obs[m]) = Depth(T, m - 1)
                            /\ \A d \in 1..Len(obs[m]) : /\ Len(obs[m][d]) = 2*Faces(T.dim)
                                                         /\ \A f \in 1..Faces(T.dim) : obs[m][d][2*f - 1] = DataSize(T, f - 1, m - 1, d - 1)
\* the data is a function of the image, format and type
Pairs(T, obs) == IF ~T.conv THEN {} ELSE
    UNION {UNION {{<<<<T.from[m][d][f], T.fmt, T.type>>, obs[m][d][2*f]>> : f \in {x \in 1..Faces(T.dim) : T.from[m][d][x] # Unknown}} : d \in 1..Len(obs[m])} : m \in 1..T.mips}
Functional(prs) == /\ \A p \in prs : p[1] \in DOMAIN memo => memo[p[1]] = p[2]
                   /\ \A p, q \in prs : p[1] = q[1] => p[2] = q[2]
Known(prs) == [k \in {p[1] : p \in prs} |-> (CHOOSE p \in prs : p[1] = k)[2]] @@ memo

THash == IsOp("thash") /\
    LET T == tex[E.t] o == E.st IN
    IF T.kind = "moved" THEN Accept /\ UNCHANGED state
    ELSE LET ob == Observe(T)
             wrong == IF ~Normal THEN {"exception"} ELSE {k \in ObservedKeys : o[k] # ob[k]}
             imgsOk == IF Valid(T) THEN SameImages(T, o.imgs) ELSE o.imgs = <<>>
             sizesOk == IF Valid(T) THEN SameSizes(T, o.data) ELSE o.data = <<>>
             prs == IF Valid(T) THEN Pairs(T, o.data) ELSE {}
         IN  IF wrong # {} THEN Reject([wrong |-> wrong, observed |-> o, expected |-> ob]) /\ UNCHANGED state
             ELSE IF ~imgsOk THEN Reject([images |-> o.imgs, expected |-> IF Valid(T) THEN T.imgs ELSE <<>>]) /\ UNCHANGED state
             ELSE IF ~sizesOk THEN Reject([data |-> o.data]) /\ UNCHANGED state
             ELSE IF ~Functional(prs) THEN Reject([contents |-> o.data, from |-> T.from]) /\ UNCHANGED state
             ELSE Accept /\ tex' = [tex EXCEPT ![E.t] = IF Valid(T) THEN [T EXCEPT !.imgs = o.imgs] ELSE T] /\ memo' = Known(prs) /\ UNCHANGED <<img, cm>>

Case == NewCase /\ Fresh
Skip == SkipStep /\ UNCHANGED state
Known1 == {"case", "ihash", "cmref", "cmown", "tinit", "tset", "tgen", "tconv", "tsave", "treset", "tcopy", "tassign", "tmove", "tmoveassign", "thash"}
Other == More /\ ~skip /\ E.op \notin Known1 /\ Reject("unexpected event") /\ UNCHANGED state

Init == FrameInit /\ tex = [s \in Slots |-> NoTexture] /\ img = <<>> /\ cm = <<>> /\ memo = <<>>
Next == Case \/ Skip \/ ImageKnown \/ CustomKnown \/ TInit \/ TSet \/ TGen \/ TConv \/ TSave \/ TReset \/ TCopy \/ TMove \/ THash \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
