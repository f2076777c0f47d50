----------------------------- MODULE NormalModel -----------------------------
(* Laws of NormalMap.tla on all small height fields: flat areas point         *)
(* straight up, wrapping commutes with cyclic shifts, raising the whole field *)
(* changes nothing, and mirroring mirrors.                                    *)
EXTENDS NormalMap
CONSTANTS W, H, Heights
VARIABLES hf, o
Fields == [1..H -> [1..W -> Heights]]
Init == hf \in Fields /\ o \in 0..7
Next == UNCHANGED <<hf, o>>
Spec == Init /\ [][Next]_<<hf, o>>

Scale == 98304
At(f, x, y) == <<SlopeX(f, o, Scale, x, y), SlopeY(f, o, Scale, x, y)>>
Grid == (1..W) \X (1..H)
ShiftX(f) == [y \in 1..H |-> [x \in 1..W |-> f[y][IF x = 1 THEN W ELSE x - 1]]]
ShiftY(f) == [y \in 1..H |-> f[IF y = 1 THEN H ELSE y - 1]]
Shifts == /\ WrapX(o) => \A p \in Grid : At(ShiftX(hf), (p[1] % W) + 1, p[2]) = At(hf, p[1], p[2])
          /\ WrapY(o) => \A p \in Grid : At(ShiftY(hf), p[1], (p[2] % H) + 1) = At(hf, p[1], p[2])
Flat == (\A p, q \in Grid : hf[p[2]][p[1]] = hf[q[2]][q[1]]) => \A p \in Grid : At(hf, p[1], p[2]) = <<0, 0>>
Raised == \A p \in Grid : At([y \in 1..H |-> [x \in 1..W |-> hf[y][x] + 65536]], p[1], p[2]) = At(hf, p[1], p[2])
Mirror(f) == [y \in 1..H |-> [x \in 1..W |-> f[y][W + 1 - x]]]
Mirrored == \A p \in Grid : At(Mirror(hf), W + 1 - p[1], p[2]) = <<-At(hf, p[1], p[2])[1], At(hf, p[1], p[2])[2]>>
\* up and to the right is positive where the field falls
Falls == (W > 1 /\ hf[1][1] > hf[1][2] /\ ~WrapX(o)) => At(hf, 1, 1)[1] > 0
FallsUp == (H > 1 /\ hf[2][1] > hf[1][1] /\ ~WrapY(o)) => At(hf, 1, 1)[2] > 0
UnitLength == \A p \in Grid : LET n == UnitNormal(At(hf, p[1], p[2])[1], At(hf, p[1], p[2])[2]) IN Abs(Square(n[1]) + Square(n[2]) + Square(n[3]) - Unit) <= 12 /\ n[3] > 0
=============================================================================
