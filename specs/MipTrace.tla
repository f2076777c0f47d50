------------------------------ MODULE MipTrace ------------------------------
(* C02: recorded mip generation against MipChain.tla.  Case parameters:       *)
(* dim, w, h, d (extent of the depth of level 0), faces, cs, levels, filter,  *)
(* base: images [f, d, c, cs], customs: images [f, m, d, c, cs, once].        *)
EXTENDS MipChain, TraceFrame

\* colour spaces of the values the images have
ToLinear == <<<<0, 0>>, <<16384, 3334>>, <<32768, 14027>>, <<49152, 34244>>, <<One, One>>>>
ToSrgb == <<<<0, 0>>, <<16384, 35199>>, <<32768, 48192>>, <<49152, 57726>>, <<One, One>>>>
Lookup(t, v) == LET i == CHOOSE i \in 1..Len(t) : t[i][1] = v IN t[i][2]
Exactly(v) == <<v, v>>
Colour(v, from) == Exactly(IF from = P.cs THEN v ELSE Lookup(IF P.cs = 0 THEN ToLinear ELSE ToSrgb, v))
Shifted(c, from) == <<Colour(c[1], from), Colour(c[2], from), Colour(c[3], from), Exactly(c[4])>>

Range(s) == {s[i] : i \in 1..Len(s)}
Base(f, d) == LET b == P.base[d*P.faces + f + 1] IN Shifted(b.c, b.cs)     \* (they are listed in this order)
CustomLevels(f, d) == {P.customs[i].m : i \in {x \in 1..Len(P.customs) : P.customs[x].f = f /\ P.customs[x].d = d}} \cap 1..(P.levels - 1)
CustomOf(f, m, d) == P.customs[CHOOSE i \in 1..Len(P.customs) : P.customs[i].f = f /\ P.customs[i].m = m /\ P.customs[i].d = d]
DepthAt(m) == IF P.dim = 2 THEN SizeAt(P.d, m) ELSE P.d

\* expected[m][d][f]
Flat == TLCEval([d \in 1..P.d |-> [f \in 1..P.faces |->
            Shown(Base(f - 1, d - 1), P.levels, [m \in CustomLevels(f - 1, d - 1) |-> LET c == CustomOf(f - 1, m, d - 1) IN [c |-> Shifted(c.c, c.cs), once |-> c.once]], Flatly)]])
Solidly == [solid |-> TRUE, depth |-> [m \in 1..P.levels |-> DepthAt(m - 1)], box |-> P.filter = 0, srgb |-> P.cs = 1]
Solid == TLCEval(Shown(TLCEval([d \in 1..P.d |-> Base(0, d - 1)]), P.levels,
               TLCEval([m \in CustomLevels(0, 0) |-> [c |-> TLCEval([d \in 1..DepthAt(m) |-> LET c == CustomOf(0, m, d - 1) IN Shifted(c.c, c.cs)]), once |-> CustomOf(0, m, 0).once]]), Solidly))
Expected == IF P.dim = 2 THEN [m \in 1..P.levels |-> [d \in 1..DepthAt(m - 1) |-> <<Solid[m][d]>>]]
            ELSE [m \in 1..P.levels |-> [d \in 1..P.d |-> [f \in 1..P.faces |-> Flat[d][f][m]]]]

Tolerance == 24
Within(x, r) == x >= r[1] - Tolerance /\ x <= r[2] + Tolerance
ImageOk(o, e, m) == /\ o.w = SizeAt(P.w, m) /\ o.h = SizeAt(P.h, m) /\ o.cs = P.cs /\ o.f = 10
                    /\ \A c \in 1..4 : Within(o.lo[c], e[c]) /\ Within(o.hi[c], e[c])
Wrong(px) == LET X == TLCEval(Expected) IN {<<m, d, f>> \in (1..P.levels) \X (1..P.d) \X (1..P.faces) : d <= DepthAt(m - 1) /\ ~ImageOk(px[m][d][f], X[m][d][f], m - 1)}
Shape(px) == Len(px) = P.levels /\ \A m \in 1..P.levels : Len(px[m]) = DepthAt(m - 1) /\ \A d \in 1..Len(px[m]) : Len(px[m][d]) = P.faces

Call == More /\ ~skip /\ E.op \in {"tinit", "tset", "tgen"} /\ Judge(Normal /\ E.ret, "call failed")
Setup == More /\ ~skip /\ E.op \in {"cmref", "cmown"} /\ Accept
Pixels == IsOp("tpix") /\
    IF ~Normal THEN Reject("exception")
    ELSE IF ~Shape(E.px) THEN Reject("wrong levels, elements or faces")
    ELSE LET w == Wrong(E.px) IN
         IF w = {} THEN Accept
         ELSE LET x == CHOOSE x \in w : \A y \in w : x[1] < y[1] \/ (x[1] = y[1] /\ (x[2] < y[2] \/ (x[2] = y[2] /\ x[3] <= y[3])))
              IN  Reject([level |-> x[1] - 1, depth |-> x[2] - 1, face |-> x[3] - 1, observed |-> E.px[x[1]][x[2]][x[3]], expected |-> Expected[x[1]][x[2]][x[3]], wrong |-> Cardinality(w)])
Other == More /\ ~skip /\ E.op \notin {"case", "tinit", "tset", "tgen", "cmref", "cmown", "tpix"} /\ Reject("unexpected event")

Init == FrameInit
Next == NewCase \/ SkipStep \/ Call \/ Setup \/ Pixels \/ Other
Spec == Init /\ [][Next]_frame
=============================================================================
