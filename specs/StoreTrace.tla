------------------------------ MODULE StoreTrace ------------------------------
(* C05: what a texture holds for an image it was given: the image's colours in *)
(* the texture's color space, as floating point; and that this is what it      *)
(* converts.  Slot 0 is the image given, slot 1 the image the texture holds.   *)
(* Parameters: fmt, cs (of the image), tcs (of the texture), w, h, hold.       *)
EXTENDS ChannelOps, TraceFrame

VARIABLES given,    \* the picture as read before, <<>> before it has been seen
          held,     \* the bytes of the held image, row by row
          set       \* the texture has the image
vars == <<frame, given, held, set>>

StateOK(f, cs) == E.st.valid /\ E.st.fmt = f /\ E.st.w = P.w /\ E.st.h = P.h /\ E.st.cs = cs
Grid == (1..P.w) \X (1..P.h)
\* px is held as out
HeldOK(px, out) ==
    IF P.cs = P.tcs THEN \A c \in 1..4 : Abs(out[c] - px[c]) <= 1
    ELSE /\ Abs(out[4] - px[4]) <= 1
         /\ \A c \in 1..3 : IF P.tcs = 0 THEN Abs(out[c] - (Lin24(px[c]) + 128) \div 256) <= 5
                            ELSE StoredLight(RGBAF, c, px[c]*256, out[c], 3)

Dump == /\ IsOp("idump") /\ Normal /\ UNCHANGED <<held, set>>
        /\ IF E.i = 0
           THEN IF given = <<>> THEN given' = E.px /\ Judge(StateOK(P.fmt, P.cs), "the image")
                ELSE UNCHANGED given /\ Judge(StateOK(P.fmt, P.cs) /\ E.px = given, "the image that was given changed")
           ELSE /\ UNCHANGED given
                /\ IF ~StateOK(RGBAF, P.tcs) THEN Reject([state |-> E.st])
                   ELSE LET wrong == {p \in Grid : ~HeldOK(given[p[2]][p[1]], E.px[p[2]][p[1]])} IN
                        IF wrong = {} THEN Accept
                        ELSE LET p == CHOOSE p \in wrong : TRUE IN
                             Reject([at |-> p, given |-> given[p[2]][p[1]], held |-> E.px[p[2]][p[1]], pixels |-> Cardinality(wrong)])
Raw == /\ IsOp("iraw") /\ Normal /\ UNCHANGED <<given, set>> /\ held' = E.rows /\ Judge(StateOK(RGBAF, P.tcs), [state |-> E.st])
Setup == /\ More /\ ~skip /\ E.op \in {"tinit", "tconv"} /\ UNCHANGED <<given, held, set>> /\ Judge(Normal /\ E.ret, "setup failed")
\* an image is accepted where it has the extent of the surface, whatever its format
Set == /\ IsOp("tset") /\ Normal /\ UNCHANGED <<given, held>> /\ set' = (set \/ E.ret)
       /\ Judge(E.ret, "an image of the right size was not accepted")
Take == /\ IsOp("itex") /\ Normal /\ UNCHANGED <<given, held, set>> /\ Judge(set, "protocol")
\* 32-bit floating point surfaces are the held image, byte for byte
Bytes == P.w*16
Data == /\ IsOp("tdata") /\ Normal /\ UNCHANGED <<given, held, set>>
        /\ IF Len(E.b) # Bytes*P.h THEN Reject([size |-> Len(E.b)])
           ELSE Judge(\A y \in 1..P.h : SubSeq(E.b, Bytes*(y - 1) + 1, Bytes*y) = held[y], "not the bytes of the held image")
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "idump", "iraw", "tinit", "tset", "tconv", "itex", "tdata"} \/ (E.op \notin {"case", "tinit", "tconv"} /\ ~Normal))
         /\ UNCHANGED <<given, held, set>> /\ Reject("unexpected event")

Init == FrameInit /\ given = <<>> /\ held = <<>> /\ set = FALSE
Next == \/ NewCase /\ given' = <<>> /\ held' = <<>> /\ set' = FALSE
        \/ SkipStep /\ UNCHANGED <<given, held, set>>
        \/ Dump \/ Raw \/ Setup \/ Set \/ Take \/ Data \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
