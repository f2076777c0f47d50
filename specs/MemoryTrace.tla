---------------------------- MODULE MemoryTrace ----------------------------
(* Recorded accesses of an image.  The whole memory is recorded after every  *)
(* write, and has to be the old one except for the written pixel.            *)
EXTENDS ImageMemory, TraceFrame

VARIABLES mem,     \* rows of bytes, <<>> before they have been seen
          shifts,  \* advertised positions
          todo     \* the write whose effect has not been seen
vars == <<frame, mem, shifts, todo>>
None == [x |-> -1]

\* parameters: fmt, w, h, cs, valid
InRange(x, y) == P.valid /\ x >= 0 /\ x < P.w /\ y >= 0 /\ y < P.h
StateOK == IF P.valid THEN E.st.valid /\ E.st.boolop /\ E.st.fmt = P.fmt /\ E.st.cs = P.cs /\ E.st.w = P.w /\ E.st.h = P.h /\ E.st.bpp = PixelBits[P.fmt]
           ELSE ~E.st.valid /\ ~E.st.boolop /\ E.st.w = 0 /\ E.st.h = 0
NB == PixelBits[P.fmt] \div 8
At(rows, x, y) == SubSeq(rows[y + 1], x*NB + 1, (x + 1)*NB)
Shape(rows) == IF P.valid THEN Len(rows) = P.h /\ \A y \in 1..P.h : Len(rows[y]) = P.w*NB ELSE rows = <<>>
Grid == IF P.valid THEN (0..(P.w - 1)) \X (0..(P.h - 1)) ELSE {}

Create == IsOp("iinit") /\ Normal /\ UNCHANGED <<mem, shifts, todo>> /\ Judge(E.ret = P.valid /\ StateOK, [state |-> E.st])
State == /\ IsOp("istate") /\ Normal /\ UNCHANGED <<mem, todo>>
         /\ shifts' = <<E.rs, E.gs, E.bs, E.as>>
         /\ Judge(StateOK /\ E.scan /\ (P.valid /\ Masked(P.fmt) => MasksOK(P.fmt, <<E.rm, E.gm, E.bm, E.am>>, <<E.rs, E.gs, E.bs, E.as>>)), [event |-> E])
Raw == /\ IsOp("iraw") /\ Normal /\ mem' = E.rows /\ todo' = None /\ UNCHANGED shifts
       /\ LET wrong == IF ~StateOK \/ ~Shape(E.rows) THEN {<<-1, -1>>}
                       ELSE IF mem = <<>> THEN {}
                       ELSE {p \in Grid : IF p = <<todo.x, IF todo.x = -1 THEN 0 ELSE todo.y>>
                                          THEN ~WritesPixel(P.fmt, P.cs, shifts, todo.v, todo.gray, At(E.rows, p[1], p[2]))
                                          ELSE At(E.rows, p[1], p[2]) # At(mem, p[1], p[2])}
          IN Judge(wrong = {}, [wrong |-> wrong, write |-> todo])
Set == /\ IsOp("iset") /\ Normal /\ UNCHANGED <<mem, shifts>>
       /\ todo' = IF InRange(E.x, E.y) THEN [x |-> E.x, y |-> E.y, v |-> E.v, gray |-> E.a[8] = 1] ELSE None
       /\ Judge(E.ret = InRange(E.x, E.y), "wrong answer of a write")
Get == /\ IsOp("iget") /\ Normal /\ UNCHANGED <<mem, shifts, todo>>
       /\ IF InRange(E.x, E.y) THEN Judge(E.ret /\ ReadsPixel(P.fmt, shifts, At(mem, E.x, E.y), E.px) /\ ReadsPixelExactly(P.fmt, shifts, At(mem, E.x, E.y), E.v),
                                       [stored |-> At(mem, E.x, E.y), read |-> E.px, exactly |-> E.v])
          ELSE Judge(~E.ret /\ E.px = <<589824, 589824, 589824, 589824>>, "read outside of the image")
Dump == /\ IsOp("idump") /\ Normal /\ UNCHANGED <<mem, shifts, todo>>
        /\ Judge(StateOK /\ Len(E.px) = Len(mem) /\ \A p \in Grid : ReadsPixel(P.fmt, shifts, At(mem, p[1], p[2]), E.px[p[2] + 1][p[1] + 1]),
                 [wrong |-> {<<p, At(mem, p[1], p[2]), E.px[p[2] + 1][p[1] + 1]>> : p \in {q \in Grid : ~ReadsPixel(P.fmt, shifts, At(mem, q[1], q[2]), E.px[q[2] + 1][q[1] + 1])}}])
\* a write into a large image: the memory before is not recorded, but where it changed is
Probe == /\ IsOp("iprobe") /\ Normal /\ UNCHANGED <<mem, shifts, todo>>
         /\ IF InRange(E.x, E.y)
            THEN Judge(/\ StateOK /\ E.ret /\ E.got
                       /\ \A i \in 1..Len(E.changed) : E.changed[i] = <<E.x, E.y>>
                       /\ WritesPixel(P.fmt, P.cs, shifts, E.v, E.gray, E.b) /\ ReadsPixel(P.fmt, shifts, E.b, E.px), [changed |-> E.changed, stored |-> E.b, read |-> E.px])
            ELSE Judge(StateOK /\ ~E.ret /\ ~E.got /\ E.changed = <<>>, [outside |-> <<E.x, E.y>>, changed |-> E.changed])
Known == {"iprobe", "iinit", "istate", "iraw", "iset", "iget", "idump"}
Other == /\ More /\ ~skip /\ (E.op \notin Known \cup {"case"} \/ (E.op # "case" /\ ~Normal)) /\ UNCHANGED <<mem, shifts, todo>> /\ Reject("unexpected event")

Init == FrameInit /\ mem = <<>> /\ shifts = <<0, 0, 0, 0>> /\ todo = None
Next == \/ NewCase /\ mem' = <<>> /\ shifts' = <<0, 0, 0, 0>> /\ todo' = None
        \/ SkipStep /\ UNCHANGED <<mem, shifts, todo>>
        \/ Create \/ State \/ Raw \/ Set \/ Get \/ Probe \/ Dump \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
