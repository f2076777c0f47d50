----------------------------- MODULE RangeTrace -----------------------------
(* Recorded range adjustments: the memory before and after.                  *)
(* Parameters: w, h, cs, fmt (of the image), orig, type, codes (the codes of  *)
(* the original format channel by channel, or <<>>) or vals (1/65536ths).     *)
EXTENDS RangeAdjust, TraceFrame

VARIABLES before, adjusted
vars == <<frame, before, adjusted>>

Orig == IF P.orig = 0 THEN P.fmt ELSE P.orig
Applies == Adjusts(Orig, P.type, P.fmt)
Grid == (0..(P.w - 1)) \X (0..(P.h - 1))
StateOK(f) == E.st.valid /\ E.st.fmt = f /\ E.st.cs = P.cs /\ E.st.w = P.w /\ E.st.h = P.h
Words(rows, nb, x, y, c) == LET r == rows[y + 1] at == x*nb + (c - 1)*4 IN <<r[at + 1] + 256*r[at + 2], r[at + 3] + 256*r[at + 4]>>
\* the channel of the original that channel c of the image came from
Source(c) == IF Channels(Orig) = 1 /\ c < 4 THEN 1 ELSE c
ValueOK(p, c, h) ==
    LET bits == OrigBits(Orig, c)
        i == p[2]*P.w + p[1] + 1
    IN IF bits = 0 /\ P.type # SNormT THEN TRUE          \* the original has no such channel, and no depth for it
       ELSE IF P.fmt = ComplexF /\ c = 3 THEN TRUE
       ELSE IF c = 4 /\ Channels(Orig) < 4 THEN (IF P.type = SNormT THEN FloatFix(h) = Unit ELSE Code(P.type, bits, 2^bits - 1, h))
       ELSE IF "codes" \in DOMAIN P THEN Code(P.type, bits, P.codes[i][Source(c)], h)
       ELSE Maps(P.type, bits, P.vals[i][Source(c)], h)

Raw == /\ IsOp("iraw") /\ Normal /\ UNCHANGED adjusted
       /\ before' = E.rows
       /\ IF ~adjusted THEN Judge(StateOK(P.fmt), "the image")
          ELSE IF ~Applies THEN Judge(StateOK(P.fmt) /\ E.rows = before, [touched |-> E.st])
          ELSE LET f == After(P.fmt) n == Channels(f)
                   wrong == IF ~StateOK(f) \/ Len(E.rows) # P.h THEN {<<"state", E.st>>}
                            ELSE {<<p, c>> \in Grid \X (1..n) : ~ValueOK(p, c, Words(E.rows, 4*n, p[1], p[2], c))}
               IN Judge(wrong = {}, [wrong |-> wrong])
Adjust == IsOp("iadjust") /\ Normal /\ adjusted' = TRUE /\ UNCHANGED before /\ Judge(E.type = P.type /\ E.orig = P.orig, "arguments")
Convert == IsOp("iconv") /\ Normal /\ UNCHANGED <<before, adjusted>> /\ Judge(E.st.valid, "conversion")
Invalid == IsOp("istate") /\ Normal /\ UNCHANGED <<before, adjusted>> /\ Judge(~E.st.valid, "adjusting made an image valid")
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "iraw", "iadjust", "iconv", "istate"} \/ (E.op # "case" /\ ~Normal)) /\ UNCHANGED <<before, adjusted>> /\ Reject("unexpected event")

Init == FrameInit /\ before = <<>> /\ adjusted = FALSE
Next == \/ NewCase /\ before' = <<>> /\ adjusted' = FALSE
        \/ SkipStep /\ UNCHANGED <<before, adjusted>>
        \/ Raw \/ Adjust \/ Convert \/ Invalid \/ Other
Spec == Init /\ [][Next]_vars

=============================================================================
