------------------------------ MODULE Symmetry ------------------------------
(* C12: rotations and flips as the symmetry group of the rectangle.  An       *)
(* element says which axes are mirrored and whether x and y are then swapped. *)
EXTENDS Integers, Sequences

Id == [sx |-> FALSE, sy |-> FALSE, swap |-> FALSE]
Elements == [sx : BOOLEAN, sy : BOOLEAN, swap : BOOLEAN]

\* where pixel <<x, y>> of a w x h image goes
Apply(g, w, h, x, y) ==
    LET x1 == IF g.sx THEN w - 1 - x ELSE x
        y1 == IF g.sy THEN h - 1 - y ELSE y
    IN IF g.swap THEN <<y1, x1>> ELSE <<x1, y1>>
Size(g, w, h) == IF g.swap THEN <<h, w>> ELSE <<w, h>>

\* first g, then o
Then(g, o) ==
    IF g.swap THEN [sx |-> (g.sx # o.sy), sy |-> (g.sy # o.sx), swap |-> ~o.swap]
              ELSE [sx |-> (g.sx # o.sx), sy |-> (g.sy # o.sy), swap |-> o.swap]

(* The documented operations, clockwise as seen with row 0 on top:             *)
(* a quarter turn clockwise takes the top row to the right column.             *)
FlipX == [sx |-> TRUE, sy |-> FALSE, swap |-> FALSE]
FlipY == [sx |-> FALSE, sy |-> TRUE, swap |-> FALSE]
CW90  == [sx |-> FALSE, sy |-> TRUE, swap |-> TRUE]
CW180 == Then(CW90, CW90)
CW270 == Then(CW180, CW90)
\* in the order of the enumeration: CW90, CW180, CW270, CCW90, CCW180, CCW270
Turn(a) == <<CW90, CW180, CW270, CW270, CW180, CW90>>[a + 1]
Ops == {FlipX, FlipY, CW90, CW180, CW270}
=============================================================================
