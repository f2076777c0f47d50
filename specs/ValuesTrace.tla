---------------------------- MODULE ValuesTrace ----------------------------
(* C14: recorded histories of images, custom mip images and textures against *)
(* Values.tla.  A value is what is observed of the object: its state and its *)
(* contents.  After every operation all objects are observed; the result of  *)
(* an operation is a function of the values of its operands, so a copy also  *)
(* behaves like its source.                                                  *)
EXTENDS Values, TraceFrame

VARIABLES img, cm, tex,   \* number -> value
          memo            \* operation on values -> resulting value
vars == <<frame, img, cm, tex, memo>>
state == <<img, cm, tex, memo>>

Arg(i) == E.a[i]
None == 0..9
Fresh == /\ img' = [i \in None |-> Nothing] /\ tex' = [t \in None |-> Nothing] /\ cm' = [c \in None |-> Absent] /\ memo' = <<>>

\* just produced: observed next; want: "valid", "invalid" or "any"; at: <<>> or what is known of it
Pending(want, at, key) == [k |-> "new", v |-> [want |-> want, at |-> at, key |-> key]]
\* operands as text
Key(op, objects, args) == op \o ToString(args) \o ToString([q \in 1..Len(objects) |-> IF objects[q].k = "held" THEN <<objects[q].v.h, objects[q].v.tag>> ELSE <<objects[q].k, 0>>])

----------------------------------------------------------------------------
InvalidImage(o) == ~o.st.valid /\ ~o.st.boolop /\ o.st.fmt = 0 /\ o.st.w = 0 /\ o.st.h = 0 /\ o.st.bpp = 0 /\ o.h = 0
SoundImage(o) == o.st.valid /\ o.st.boolop /\ o.st.fmt \in 1..17 /\ o.st.w > 0 /\ o.st.h > 0 /\ o.h > 0
InvalidTexture(o) == ~o.st.valid /\ ~o.st.boolop /\ ~o.st.conv /\ o.st.imgs = <<>> /\ o.st.data = <<>> /\ o.st.mips = 0
SoundTexture(o) == o.st.valid /\ o.st.boolop /\ o.st.imgs # <<>> /\ o.st.edge

Wanted(want, invalid, sound) == CASE want = "valid" -> sound [] want = "invalid" -> invalid [] OTHER -> sound \/ invalid
ValueOf(invalid, o) == IF invalid THEN Nothing ELSE Held(o)

\* o: observation; p: what the object should hold
Settle(p, o, invalid, sound, at) ==
    IF p.k = "moved" THEN <<TRUE, p, memo>>
    ELSE IF p.k = "nothing" THEN <<invalid, p, memo>>
    ELSE IF p.k = "held" THEN <<o = p.v, p, memo>>
    ELSE LET v == ValueOf(invalid, o)
             ok == Wanted(p.v.want, invalid, sound) /\ (p.v.at = <<>> \/ at = p.v.at)
         IN <<ok /\ (p.v.key \in DOMAIN memo => memo[p.v.key] = v), v, (p.v.key :> v) @@ memo>>

ImageObs(e) == [st |-> e.st, h |-> e.h, tag |-> <<e.st.fmt, e.st.w, e.st.h, e.st.cs>>]
SeeImage == IsOp("ihash") /\
    LET o == ImageObs(E) p == img[E.i] s == Settle(p, o, InvalidImage(o), SoundImage(o), <<o.h>>) IN
    IF Normal /\ s[1] THEN Accept /\ img' = Put(img, E.i, s[2]) /\ memo' = s[3] /\ UNCHANGED <<cm, tex>>
    ELSE Reject([image |-> E.i, expected |-> p, observed |-> o]) /\ UNCHANGED state
SeeTexture == IsOp("thash") /\
    LET o == [st |-> E.st, h |-> E.h, tag |-> <<"texture">>]
        p == tex[E.t]
        at == IF p.k = "new" /\ p.v.at # <<>> THEN <<p.v.at[1], p.v.at[2], p.v.at[3], E.st.imgs[p.v.at[2] + 1][p.v.at[3] + 1][p.v.at[1] + 1]>> ELSE <<>>
        s == Settle(p, o, InvalidTexture(o), SoundTexture(o), at) IN
    IF Normal /\ s[1] THEN Accept /\ tex' = Put(tex, E.t, s[2]) /\ memo' = s[3] /\ UNCHANGED <<cm, img>>
    ELSE Reject([texture |-> E.t, expected |-> p, observed |-> E.st]) /\ UNCHANGED state

CustomOK(x) ==
    LET c == cm[x.c] v == Seen(img, c) IN
    IF x.moved THEN c.k = "moved"
    ELSE /\ Known(c) /\ x.r = c.r /\ x.own = (c.k = "own")
         /\ CASE v.k = "held" -> x.ok /\ x.h = v.v.h [] v.k = "nothing" -> ~x.ok /\ x.h = 0 [] OTHER -> TRUE
SeeCustoms == IsOp("cmstate") /\ UNCHANGED state /\
    LET wrong == {E.cm[q] : q \in {q \in 1..Len(E.cm) : ~CustomOK(E.cm[q])}}
        seen == {E.cm[q].c : q \in 1..Len(E.cm)}
    IN  Judge(Normal /\ wrong = {} /\ seen = {c \in None : cm[c].k # "absent"}, [customs |-> wrong, expected |-> [c \in {x.c : x \in wrong} |-> <<cm[c], Seen(img, cm[c])>>]])

----------------------------------------------------------------------------
SetI(i, v) == Accept /\ img' = Put(img, i, v) /\ UNCHANGED <<cm, tex, memo>>
SetT(t, v) == Accept /\ tex' = Put(tex, t, v) /\ UNCHANGED <<cm, img, memo>>
Fail(why) == Reject([call |-> E.a, why |-> why]) /\ UNCHANGED state

\* a new image: whatever was there before
GoodInit(a) == a[2] \in 1..17 /\ a[3] > 0 /\ a[4] > 0
\* (iinit and ictor only say what size and format the image has: its pixels are not set yet)
ImgInit == More /\ ~skip /\ E.op \in {"iinit", "ictor"} /\
    IF Normal /\ E.ret = GoodInit(E.a) /\ (GoodInit(E.a) => E.st.fmt = Arg(2) /\ E.st.w = Arg(3) /\ E.st.h = Arg(4) /\ E.st.cs = Arg(5))
    THEN SetI(E.i, Pending(IF GoodInit(E.a) THEN "valid" ELSE "invalid", <<>>, Key("init", <<>>, E.n))) ELSE Fail("init")
ImgMake == IsOp("iqv") /\ IF Normal THEN SetI(E.i, Pending("valid", <<>>, Key("make", <<>>, Tail(E.a)))) ELSE Fail("make")
\* P.good: the files that are images
ImgLoad == IsOp("iload") /\
    LET good == \E k \in DOMAIN P.good : P.good[k] = Arg(3) IN
    IF Normal /\ E.ret = good THEN SetI(E.i, Pending(IF good THEN "valid" ELSE "invalid", <<>>, Key("load", <<>>, <<Arg(3), Arg(4)>>))) ELSE Fail("load")
ImgReset == IsOp("ireset") /\ IF Normal THEN SetI(E.i, Nothing) ELSE Fail("reset")
InPlace == {"iset", "iflipx", "iflipy", "ipremul", "igray", "ics", "iswz", "iadjust", "iwrite"}
ImgChange == More /\ ~skip /\ E.op \in InPlace /\
    IF Normal THEN SetI(E.i, IF img[E.i].k = "held" THEN Pending("any", <<>>, Key(E.op, <<img[E.i]>>, Tail(E.a))) ELSE img[E.i]) ELSE Fail("change")
Deriving == {"iconv", "iresize", "irotate", "inormal"}
ImgDerive == More /\ ~skip /\ E.op \in Deriving /\
    IF Normal THEN SetI(E.i, Pending("any", <<>>, Key(E.op, <<img[E.src]>>, Tail(Tail(E.a))))) ELSE Fail("derive")
ImgCopy == More /\ ~skip /\ E.op \in {"icopy", "iassign"} /\ IF Normal THEN SetI(E.i, img[E.src]) ELSE Fail("copy")
ImgMove == More /\ ~skip /\ E.op \in {"imove", "imoveassign"} /\
    IF Normal THEN Accept /\ img' = Move(img, E.i, E.src) /\ UNCHANGED <<cm, tex, memo>> ELSE Fail("move")
ImgFromTex == IsOp("itex") /\
    IF ~Normal THEN Fail("image of texture")
    ELSE LET st == tex[E.t].v.st f == Arg(3) m == Arg(4) d == Arg(5)
             has == tex[E.t].k = "held" /\ m < st.mips /\ d < Len(st.imgs[m + 1]) /\ f < Len(st.imgs[m + 1][d + 1])
             h == IF has THEN st.imgs[m + 1][d + 1][f + 1] ELSE 0
         IN  SetI(E.i, Pending(IF h = 0 THEN "invalid" ELSE "valid", (IF h = 0 THEN <<>> ELSE <<h>>), Key("itex", <<tex[E.t]>>, <<f, m, d>>)))

CmNew == More /\ ~skip /\ E.op \in {"cmref", "cmown"} /\
    IF Normal THEN Accept /\ cm' = Put(cm, E.c, IF E.op = "cmref" THEN Refers(E.i, E.r) ELSE Owns(img[E.i], E.r)) /\ UNCHANGED <<img, tex, memo>> ELSE Fail("custom")
CmCopy == More /\ ~skip /\ E.op \in {"cmcopy", "cmassign"} /\ IF Normal THEN Accept /\ cm' = CustomCopy(cm, E.c, E.src) /\ UNCHANGED <<img, tex, memo>> ELSE Fail("custom copy")
CmMove == More /\ ~skip /\ E.op \in {"cmmove", "cmmoveassign"} /\ IF Normal THEN Accept /\ cm' = CustomMove(cm, E.c, E.src) /\ UNCHANGED <<img, tex, memo>> ELSE Fail("custom move")
CmDelete == IsOp("cmdel") /\ IF Normal THEN Accept /\ cm' = Put(cm, E.c, Absent) /\ UNCHANGED <<img, tex, memo>> ELSE Fail("custom delete")

GoodTex(a) == a[2] \in 0..3 /\ a[3] > 0 /\ (a[2] # 0 => a[4] > 0) /\ (a[2] = 2 => a[5] > 0)
TexInit == More /\ ~skip /\ E.op \in {"tinit", "tctor"} /\
    IF Normal /\ (E.op = "tinit" => E.ret = GoodTex(E.a)) THEN SetT(E.t, IF GoodTex(E.a) THEN Pending("valid", <<>>, Key("tinit", <<>>, Tail(E.a))) ELSE Nothing) ELSE Fail("texture")
TexReset == IsOp("treset") /\ IF Normal THEN SetT(E.t, Nothing) ELSE Fail("reset")
Change(op, objects, args, at) == IF Normal THEN SetT(E.t, IF tex[E.t].k = "held" THEN Pending("valid", at, Key(op, <<tex[E.t]>> \o objects, args)) ELSE tex[E.t]) ELSE Fail(op)
TexSet == IsOp("tset") /\
    LET im == img[Arg(3)]
        st == tex[E.t].v.st
        plain == Normal /\ E.ret /\ tex[E.t].k = "held" /\ im.k = "held" /\ im.v.st.fmt = 10 /\ im.v.st.cs = st.cs
    IN  Change("tset", <<im>>, <<Arg(4), Arg(5), Arg(6)>>, IF plain THEN <<Arg(4), Arg(5), Arg(6), im.v.h>> ELSE <<>>)
TexGen == IsOp("tgen") /\
    LET n == (Len(E.a) - 3) \div 4
        one(q) == <<Arg(4 + 4*q), Arg(5 + 4*q), Arg(6 + 4*q), cm[Arg(7 + 4*q)].r>>
    IN  Change("tgen", [q \in 1..n |-> Seen(img, cm[Arg(3 + 4*q)])], <<Arg(2), Arg(3), [q \in 1..n |-> one(q - 1)]>>, <<>>)
\* (the number of threads, the last argument, is not part of it)
TexConv == IsOp("tconv") /\ Change("tconv", <<>>, SubSeq(E.a, 2, 6), <<>>)
TexCopy == More /\ ~skip /\ E.op \in {"tcopy", "tassign"} /\ IF Normal THEN SetT(E.t, tex[E.src]) ELSE Fail("copy")
TexMove == More /\ ~skip /\ E.op \in {"tmove", "tmoveassign"} /\
    IF Normal THEN Accept /\ tex' = Move(tex, E.t, E.src) /\ UNCHANGED <<cm, img, memo>> ELSE Fail("move")

Ops == {"case", "ihash", "thash", "cmstate", "iinit", "ictor", "iqv", "iload", "ireset", "icopy", "iassign", "imove", "imoveassign", "itex", "cmref", "cmown", "cmcopy", "cmassign", "cmmove", "cmmoveassign",
        "cmdel", "tinit", "tctor", "treset", "tset", "tgen", "tconv", "tcopy", "tassign", "tmove", "tmoveassign"} \cup InPlace \cup Deriving
Other == More /\ ~skip /\ E.op \notin Ops /\ Reject([crash |-> E.op]) /\ UNCHANGED state

Init == FrameInit /\ img = [i \in None |-> Nothing] /\ tex = [t \in None |-> Nothing] /\ cm = [c \in None |-> Absent] /\ memo = <<>>
Next == \/ NewCase /\ Fresh
        \/ SkipStep /\ UNCHANGED state
        \/ SeeImage \/ SeeTexture \/ SeeCustoms
        \/ ImgInit \/ ImgMake \/ ImgLoad \/ ImgReset \/ ImgChange \/ ImgDerive \/ ImgCopy \/ ImgMove \/ ImgFromTex
        \/ CmNew \/ CmCopy \/ CmMove \/ CmDelete
        \/ TexInit \/ TexReset \/ TexSet \/ TexGen \/ TexConv \/ TexCopy \/ TexMove
        \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
