--------------------------- MODULE SymmetryTrace ---------------------------
(* Recorded rotations and flips.  Every slot is a picture and an element of  *)
(* the group applied to it.                                                   *)
EXTENDS Symmetry, TraceFrame

VARIABLES rows,   \* bytes of the original picture, row by row
          slots   \* slot -> element applied to it so far
vars == <<frame, rows, slots>>

Has(i) == i \in DOMAIN slots
\* parameters: w, h, fmt, cs, bytes (per pixel)
StateOK(g) == /\ E.st.valid /\ E.st.boolop /\ E.st.fmt = P.fmt /\ E.st.cs = P.cs
              /\ <<E.st.w, E.st.h>> = Size(g, P.w, P.h)
Pixel(r, x, y) == SubSeq(r[y + 1], x*P.bytes + 1, (x + 1)*P.bytes)
RowsOK(g, r) == LET s == Size(g, P.w, P.h) IN
    /\ Len(r) = s[2] /\ \A y \in 1..s[2] : Len(r[y]) = s[1]*P.bytes
    /\ \A x \in 0..(P.w - 1), y \in 0..(P.h - 1) : LET q == Apply(g, P.w, P.h, x, y) IN Pixel(r, q[1], q[2]) = Pixel(rows, x, y)

First == /\ IsOp("iraw") /\ slots = <<>> /\ Normal
         /\ rows' = E.rows /\ slots' = (E.i :> Id)
         /\ Judge(StateOK(Id) /\ Len(E.rows) = P.h /\ \A y \in 1..P.h : Len(E.rows[y]) = P.w*P.bytes, "the picture")
Raw == /\ IsOp("iraw") /\ slots # <<>> /\ Normal /\ UNCHANGED <<rows, slots>>
       /\ Judge(Has(E.i) /\ StateOK(slots[E.i]) /\ RowsOK(slots[E.i], E.rows), [state |-> E.st, applied |-> slots[E.i]])
Flip(op, o) == /\ IsOp(op) /\ Normal /\ UNCHANGED rows
               /\ LET g == Then(slots[E.i], o) IN
                  /\ slots' = (E.i :> g) @@ slots
                  /\ Judge(E.ret /\ StateOK(g), [state |-> E.st])
Rotate == /\ IsOp("irotate") /\ Normal /\ UNCHANGED rows
          /\ LET g == Then(slots[E.src], Turn(E.ang)) IN
             /\ slots' = (E.i :> g) @@ slots
             /\ Judge(StateOK(g), [state |-> E.st])
\* operations on an image that is not valid fail
Nothing == /\ More /\ ~skip /\ E.op \in {"irotate", "iflipx", "iflipy"} /\ Normal /\ slots = <<>> /\ UNCHANGED <<rows, slots>>
           /\ Judge(~E.st.valid /\ (E.op # "irotate" => ~E.ret), "operation on an invalid image succeeded")
Known == {"iraw", "iflipx", "iflipy", "irotate"}
Other == /\ More /\ ~skip /\ (E.op \notin Known \cup {"case"} \/ (E.op \in Known /\ ~Normal)) /\ UNCHANGED <<rows, slots>> /\ Reject("unexpected event")

Init == FrameInit /\ rows = <<>> /\ slots = <<>>
Next == \/ NewCase /\ rows' = <<>> /\ slots' = <<>>
        \/ SkipStep /\ UNCHANGED <<rows, slots>>
        \/ First \/ Raw \/ (slots # <<>> /\ (Flip("iflipx", FlipX) \/ Flip("iflipy", FlipY) \/ Rotate)) \/ Nothing \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
