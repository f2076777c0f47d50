---------------------------- MODULE MipGrainTrace ----------------------------
(* C02: the pixels of recorded mip levels against MipGrain.tla.  Parameters:  *)
(* dim, w, h, d, faces, cs, levels, filter (0 or 1), base: images [f, d, c],  *)
(* customs: images [f, m, d, c, once] of the level's size or larger; c is     *)
(* [channel][row][column] in quarters.                                        *)
EXTENDS MipGrain, TraceFrame

Pixels(c) == TLCEval([k \in 1..4 |-> [y \in 1..Len(c[k]) |-> [x \in 1..Len(c[k][y]) |-> <<16384*c[k][y][x], 16384*c[k][y][x]>>]]])
Solid == P.dim = 2
DepthAt(m) == IF Solid THEN SizeAt(P.d, m) ELSE P.d
\* a volume of the slices of level m (3D) or of one image
\* (S: indices of base or customs)
Volume(S, n, first) ==
    LET px == TLCEval([z \in 1..n |-> Pixels(P.base[CHOOSE b \in S : P.base[b].d = first + z - 1].c)])
    IN  TLCEval([k \in 1..4 |-> [z \in 1..n |-> px[z][k]]])
CustomVolume(S, n, first, size, how) ==
    LET px == TLCEval([z \in 1..n |-> Pixels(P.customs[CHOOSE b \in S : P.customs[b].d = first + z - 1].c)])
    IN  TLCEval([k \in 1..4 |-> [z \in 1..n |-> ReducedPlane(px[z][k], k, size, how)]])
Sizes == [m \in 1..P.levels |-> [w |-> SizeAt(P.w, m - 1), h |-> SizeAt(P.h, m - 1), d |-> IF Solid THEN DepthAt(m - 1) ELSE 1]]
How == [box |-> P.filter = 0, srgb |-> P.cs = 1]
BaseOf(f) == {b \in 1..Len(P.base) : P.base[b].f = f}
CustomsOf(f) == {c \in 1..Len(P.customs) : P.customs[c].f = f}
\* the chains: one for a 3D texture, otherwise one for every element and face
ChainOf(f, d) ==
    LET C == {c \in CustomsOf(f) : Solid \/ P.customs[c].d = d}
        n(m) == IF Solid THEN DepthAt(m) ELSE 1
    IN  GrainShown(Volume(BaseOf(f), IF Solid THEN P.d ELSE 1, IF Solid THEN 0 ELSE d), P.levels, Sizes,
                   [m \in {P.customs[c].m : c \in C} |-> LET S == {c \in C : P.customs[c].m = m} IN
                        [c |-> CustomVolume(S, n(m), IF Solid THEN 0 ELSE d, Sizes[m + 1], How), once |-> P.customs[CHOOSE c \in S : TRUE].once]], How)

VARIABLE chains       \* [face, element] of the current case
vars == <<frame, chains>>

Tolerance == 24
Within(x, r) == x >= r[1] - Tolerance /\ x <= r[2] + Tolerance
WrongPixels(px, want, z) ==
    {<<y, x>> \in (1..Len(px)) \X (1..Len(px[1])) : \E k \in 1..4 : ~Within(px[y][x][k], want[k][z][y][x])}

Begin == /\ More /\ E.op = "case"
         /\ ci' = l /\ l' = l + 1 /\ skip' = FALSE /\ UNCHANGED bad
         /\ chains' = LET Q == E.p IN
                      [x \in {<<b.f, IF Q.dim = 2 THEN 0 ELSE b.d>> : b \in {Q.base[i] : i \in 1..Len(Q.base)}} |-> <<>>]
Hold == UNCHANGED chains
Call == More /\ ~skip /\ E.op \in {"tinit", "tset", "tgen"} /\ Judge(Normal /\ E.ret, "call failed") /\ Hold
Setup == More /\ ~skip /\ E.op \in {"cmref", "cmown", "itex"} /\ Accept /\ Hold
Key == <<P.surfaces[E.i + 1][1], IF Solid THEN 0 ELSE P.surfaces[E.i + 1][3]>>
Level == P.surfaces[E.i + 1][2]
Slice == IF Solid THEN P.surfaces[E.i + 1][3] + 1 ELSE 1
Dump == /\ IsOp("idump")
        /\ chains' = IF chains[Key] # <<>> THEN chains ELSE [chains EXCEPT ![Key] = ChainOf(Key[1], Key[2])]
        /\ IF ~Normal THEN Reject("exception")
           ELSE IF E.st.fmt # 10 \/ E.st.cs # P.cs \/ E.st.w # SizeAt(P.w, Level) \/ E.st.h # SizeAt(P.h, Level)
           THEN Reject([surface |-> P.surfaces[E.i + 1], state |-> E.st])
           ELSE LET want == chains'[Key][Level + 1]
                    wrong == WrongPixels(E.px, want, Slice)
                IN  IF wrong = {} THEN Accept
                    ELSE LET q == CHOOSE q \in wrong : TRUE IN
                         Reject([surface |-> P.surfaces[E.i + 1], row |-> q[1] - 1, column |-> q[2] - 1, wrong |-> Cardinality(wrong),
                                 observed |-> E.px[q[1]][q[2]], expected |-> [k \in 1..4 |-> want[k][Slice][q[1]][q[2]]]])
Other == More /\ ~skip /\ E.op \notin {"case", "tinit", "tset", "tgen", "cmref", "cmown", "itex", "idump"} /\ Reject("unexpected event") /\ Hold

Init == FrameInit /\ chains = <<>>
Next == Begin \/ (SkipStep /\ Hold) \/ Call \/ Setup \/ Dump \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
