----------------------------- MODULE CodecTrace -----------------------------
(* C04: every stored pixel is a code the specification allows for its colour. *)
(* Case parameters: f, t, px = the colours of an n x 1 image.                 *)
EXTENDS PixelCodec, TraceFrame

PixelBytes(b, i, n) == SubSeq(b, (i - 1)*n + 1, i*n)
FirstWrong(b) ==
    LET n == Fmt(P.f).bytes
        wrong == {i \in 1..Len(P.px) : ~PixelOK(P.f, P.t, P.px[i], PixelBytes(b, i, n))}
    IN  IF Len(b) # n*Len(P.px) THEN [len |-> Len(b), expected |-> n*Len(P.px)]
        ELSE IF wrong = {} THEN [none |-> TRUE]
        ELSE LET i == CHOOSE i \in wrong : \A j \in wrong : i <= j
             IN  [pixel |-> i, of |-> Fmt(P.f).name, type |-> P.t, colour |-> P.px[i], bytes |-> PixelBytes(b, i, n), wrong |-> Cardinality(wrong)]

Convert == IsOp("tconv") /\ Judge(Normal /\ E.ret, "conversion to a valid format failed")
Data == IsOp("tdata") /\ LET w == IF Normal THEN FirstWrong(E.b) ELSE [exc |-> TRUE]
                         IN  Judge("none" \in DOMAIN w, w)
Setup == More /\ ~skip /\ E.op \in {"tinit", "tset"} /\ Judge(Normal /\ E.ret, "setup failed")
Other == More /\ ~skip /\ E.op \notin {"case", "tinit", "tset", "tconv", "tdata"} /\ Reject("unexpected event")

Init == FrameInit
Next == NewCase \/ SkipStep \/ Setup \/ Convert \/ Data \/ Other
Spec == Init /\ [][Next]_frame
=============================================================================
