--------------------------- MODULE SymmetryModel ---------------------------
(* Words of operations on an image whose pixels are their own positions: the *)
(* pixels really moved step by step agree with the element of the group.     *)
EXTENDS Symmetry, TLC

CONSTANTS MaxW, MaxH, MaxLen
VARIABLES w0, h0, w, h, pix, g, len
vars == <<w0, h0, w, h, pix, g, len>>

Grid(ww, hh) == (0..(ww - 1)) \X (0..(hh - 1))

Init == /\ w0 \in 1..MaxW /\ h0 \in 1..MaxH /\ w = w0 /\ h = h0 /\ g = Id /\ len = 0
        /\ pix = [p \in Grid(w0, h0) |-> p]

\* operations described by what they do to the picture
Step(o, new(_, _), ww, hh) ==
    /\ len < MaxLen /\ len' = len + 1 /\ g' = Then(g, o) /\ w' = ww /\ h' = hh /\ UNCHANGED <<w0, h0>>
    /\ pix' = [p \in Grid(ww, hh) |-> pix[new(p[1], p[2])]]

Next == \/ Step(FlipX, LAMBDA x, y : <<w - 1 - x, y>>, w, h)
        \/ Step(FlipY, LAMBDA x, y : <<x, h - 1 - y>>, w, h)
        \/ Step(CW90, LAMBDA x, y : <<y, h - 1 - x>>, h, w)
        \/ Step(CW180, LAMBDA x, y : <<w - 1 - x, h - 1 - y>>, w, h)
        \/ Step(CW270, LAMBDA x, y : <<w - 1 - y, x>>, h, w)
Spec == Init /\ [][Next]_vars

Agrees == /\ Size(g, w0, h0) = <<w, h>>
          /\ \A p \in Grid(w0, h0) : pix[Apply(g, w0, h0, p[1], p[2])] = p
\* nothing is lost or duplicated
Permutation == {pix[p] : p \in Grid(w, h)} = Grid(w0, h0)

\* group laws
ASSUME \A a, b, c \in Elements : Then(Then(a, b), c) = Then(a, Then(b, c))
ASSUME \A a \in Elements : Then(a, Id) = a /\ Then(Id, a) = a /\ \E b \in Elements : Then(a, b) = Id
ASSUME Then(CW270, CW90) = Id /\ Then(FlipX, FlipY) = CW180 /\ Then(Then(FlipX, CW90), FlipX) = CW270
=============================================================================
