----------------------------- MODULE NormalMap -----------------------------
(* C18: the normal at a pixel of a height field.  Heights are the red channel *)
(* as read, in fixed point (65536 = 1); row 1 is the top row.                 *)
EXTENDS ImageFormats, Srgb

KeepSign(o) == o % 2 = 1
WrapX(o) == (o \div 2) % 2 = 1
WrapY(o) == (o \div 4) % 2 = 1

\* <<one neighbour, the other, distance>> of position p in 1..n; `wrap` joins the ends
Neighbours(p, n, wrap) ==
    LET before == IF p > 1 THEN p - 1 ELSE IF wrap THEN n ELSE p
        after  == IF p < n THEN p + 1 ELSE IF wrap THEN 1 ELSE p
    IN <<before, after, IF (p = 1 \/ p = n) /\ ~wrap THEN 1 ELSE 2>>

\* slopes to the right and upwards: how fast the height falls in that direction
SlopeX(hf, o, scale, x, y) == LET n == Neighbours(x, Len(hf[y]), WrapX(o)) IN Times(hf[y][n[1]] - hf[y][n[2]], scale) \div n[3]
SlopeY(hf, o, scale, x, y) == LET n == Neighbours(y, Len(hf), WrapY(o)) IN Times(hf[n[2]][x] - hf[n[1]][x], scale) \div n[3]

Square(a) == LET m == Abs(a) IN Times(m, m)
RECURSIVE Root(_, _, _)
\* largest s in lo..hi whose square is not above n
Root(n, lo, hi) == IF lo = hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF Square(m) <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
\* a/b in fixed point for 0 <= a <= b < 2^23
Ratio(a, b) == LET q == (a*256) \div b r == (a*256) % b IN q*256 + (r*256) \div b
Signed16(a, b) == IF a < 0 THEN -Ratio(-a, b) ELSE Ratio(a, b)
\* the unit vector along <<dx, dy, 1>>; slopes up to 32
UnitNormal(dx, dy) == LET len == Root(Square(dx) + Square(dy) + Unit, Unit, 3000000) IN <<Signed16(dx, len), Signed16(dy, len), Ratio(Unit, len)>>

Mapped(o, v) == IF KeepSign(o) THEN v ELSE (v + Unit) \div 2
NormalAt(hf, o, scale, x, y) == LET n == UnitNormal(SlopeX(hf, o, scale, x, y), SlopeY(hf, o, scale, x, y)) IN <<Mapped(o, n[1]), Mapped(o, n[2]), Mapped(o, n[3]), Unit>>

\* out is what is read of the map at <<x, y>>; formats with one channel cannot hold a normal
NormalOK(f, hf, o, scale, x, y, out) ==
    Channels(f) = 1 \/
    LET n == NormalAt(hf, o, scale, x, y) tol == 4 + Abs(scale) \div Unit IN
    /\ out = Full(f, out)
    /\ \A c \in 1..Channels(f) : Stored(f, c, n[c], out[c], IF c = 4 THEN 0 ELSE tol)
=============================================================================
