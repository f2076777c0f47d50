---------------------------- MODULE ValuesModel ----------------------------
(* The value semantics of Values.tla next to a model of the storage the       *)
(* library uses for it: images and textures own memory cells, copying clones  *)
(* a cell, moving hands it over, and a custom mip image is a pointer either   *)
(* to somebody else's image or to its own storage.  Checked: what is seen     *)
(* through the storage is the value, no cell has two owners, nobody points    *)
(* into an object that is gone.  Also the source of the histories replayed    *)
(* into the real code.                                                        *)
EXTENDS Values, Sequences, TLC, Json

CONSTANTS Images, Customs, Textures, Contents, NumCells, Depth0

VARIABLES img, cm, tex,             \* values
          heap, icell, ccell, cptr, tcell,    \* storage
          hist
vars == <<img, cm, tex, heap, icell, ccell, cptr, tcell, hist>>
View == <<img, cm, tex, heap, icell, ccell, cptr, tcell>>

Cells == 1..NumCells
Fresh(h) == CHOOSE c \in Cells : h[c] = 0 /\ \A d \in Cells : h[d] = 0 => c <= d
Free(h, c) == IF c = 0 THEN h ELSE [h EXCEPT ![c] = 0]
HasRoom == \E c \in Cells : heap[c] = 0

Init == /\ img = [i \in Images |-> Nothing] /\ cm = [c \in Customs |-> Absent] /\ tex = [t \in Textures |-> Nothing]
        /\ heap = [c \in Cells |-> 0] /\ icell = [i \in Images |-> 0] /\ ccell = [c \in Customs |-> 0]
        /\ cptr = [c \in Customs |-> <<"none", 0>>] /\ tcell = [t \in Textures |-> 0] /\ hist = <<>>

Log(e) == hist' = Append(hist, e)
\* a new content for a cell owner: allocate or write in place
WriteCell(h, c, v) == IF c # 0 THEN <<[h EXCEPT ![c] = v], c>> ELSE LET n == Fresh(h) IN <<[h EXCEPT ![n] = v], n>>
CloneTo(h, d, s) ==     \* the cell d of the target is dropped and s cloned
    LET h1 == Free(h, d) IN IF s = 0 THEN <<h1, 0>> ELSE LET n == Fresh(h1) IN <<[h1 EXCEPT ![n] = h[s]], n>>

\* ---- images ----
ImgNew(i) == /\ icell[i] # 0 \/ HasRoom
             /\ \E v \in Contents : LET w == WriteCell(Free(heap, icell[i]), 0, v) IN
                /\ heap' = w[1] /\ icell' = Put(icell, i, w[2]) /\ img' = Set(img, i, Held(v))
             /\ Log(<<"inew", i>>) /\ UNCHANGED <<cm, tex, ccell, cptr, tcell>>
ImgChange(i) == /\ img[i].k = "held"
                /\ \E v \in Contents : heap' = WriteCell(heap, icell[i], v)[1] /\ img' = Set(img, i, Held(v))
                /\ Log(<<"ichange", i>>) /\ UNCHANGED <<cm, tex, icell, ccell, cptr, tcell>>
ImgClear(i) == /\ \E how \in {"ireset", "ibadinit", "ibadload"} : Log(<<how, i>>)
               /\ heap' = Free(heap, icell[i]) /\ icell' = Put(icell, i, 0) /\ img' = Set(img, i, Nothing)
               /\ UNCHANGED <<cm, tex, ccell, cptr, tcell>>
ImgCopy(d, s) == /\ img[s].k # "moved" /\ (HasRoom \/ icell[d] # 0)
                 /\ \E how \in {"icopy", "iassign"} : (d = s => how = "iassign") /\ Log(<<how, d, s>>)
                 /\ IF d = s THEN UNCHANGED <<heap, icell>>
                    ELSE LET w == CloneTo(heap, icell[d], icell[s]) IN heap' = w[1] /\ icell' = Put(icell, d, w[2])
                 /\ img' = Copy(img, d, s) /\ UNCHANGED <<cm, tex, ccell, cptr, tcell>>
ImgMove(d, s) == /\ d # s /\ img[s].k # "moved"
                 /\ \E how \in {"imove", "imoveassign"} : Log(<<how, d, s>>)
                 /\ heap' = Free(heap, icell[d]) /\ icell' = [icell EXCEPT ![d] = icell[s], ![s] = 0]
                 /\ img' = Move(img, d, s) /\ UNCHANGED <<cm, tex, ccell, cptr, tcell>>
ImgDerive(d, s) == /\ img[s].k = "held" /\ (HasRoom \/ icell[d] # 0)
                   /\ \E v \in Contents : LET w == WriteCell(Free(heap, icell[d]), 0, v) IN
                      /\ heap' = w[1] /\ icell' = Put(icell, d, w[2]) /\ img' = Set(img, d, Held(v))
                   /\ Log(<<"iderive", d, s>>) /\ UNCHANGED <<cm, tex, ccell, cptr, tcell>>
\* ---- custom mip images ----
CmRef(c, i, r) == /\ heap' = Free(heap, ccell[c]) /\ ccell' = Put(ccell, c, 0) /\ cptr' = Put(cptr, c, <<"img", i>>)
                  /\ cm' = Put(cm, c, Refers(i, r)) /\ Log(<<"cmref", c, i, r>>) /\ UNCHANGED <<img, tex, icell, tcell>>
CmOwn(c, i, r) == /\ img[i].k # "moved" /\ (HasRoom \/ ccell[c] # 0)
                  /\ LET w == CloneTo(heap, ccell[c], icell[i]) IN heap' = w[1] /\ ccell' = Put(ccell, c, w[2])
                  /\ cptr' = Put(cptr, c, <<"own", c>>)
                  /\ cm' = Put(cm, c, Owns(img[i], r)) /\ Log(<<"cmown", c, i, r>>) /\ UNCHANGED <<img, tex, icell, tcell>>
CmCopy(d, s) == /\ Known(cm[s]) /\ (HasRoom \/ ccell[d] # 0)
                /\ \E how \in {"cmcopy", "cmassign"} : (d = s => how = "cmassign") /\ (cm[d].k = "absent" => how = "cmcopy") /\ Log(<<how, d, s>>)
                /\ IF d = s THEN UNCHANGED <<heap, ccell, cptr>>
                   ELSE IF cptr[s] = <<"own", s>>
                   THEN LET w == CloneTo(heap, ccell[d], ccell[s]) IN heap' = w[1] /\ ccell' = Put(ccell, d, w[2]) /\ cptr' = Put(cptr, d, <<"own", d>>)
                   ELSE heap' = Free(heap, ccell[d]) /\ ccell' = Put(ccell, d, 0) /\ cptr' = Put(cptr, d, cptr[s])
                /\ cm' = CustomCopy(cm, d, s) /\ UNCHANGED <<img, tex, icell, tcell>>
CmMove(d, s) == /\ Known(cm[s]) /\ d # s
                /\ \E how \in {"cmmove", "cmmoveassign"} : (cm[d].k = "absent" => how = "cmmove") /\ Log(<<how, d, s>>)
                /\ heap' = Free(heap, ccell[d])
                /\ IF cptr[s] = <<"own", s>>
                   THEN ccell' = [ccell EXCEPT ![d] = ccell[s], ![s] = 0] /\ cptr' = Put(cptr, d, <<"own", d>>)
                   ELSE ccell' = Put(ccell, d, 0) /\ cptr' = Put(cptr, d, cptr[s])
                /\ cm' = CustomMove(cm, d, s) /\ UNCHANGED <<img, tex, icell, tcell>>
CmDelete(c) == /\ cm[c].k # "absent" /\ heap' = Free(heap, ccell[c]) /\ ccell' = Put(ccell, c, 0) /\ cptr' = Put(cptr, c, <<"none", 0>>)
               /\ cm' = Put(cm, c, Absent) /\ Log(<<"cmdel", c>>) /\ UNCHANGED <<img, tex, icell, tcell>>
\* ---- textures ----
TexNew(t) == /\ tcell[t] # 0 \/ HasRoom
             /\ \E v \in Contents : LET w == WriteCell(Free(heap, tcell[t]), 0, v) IN
                heap' = w[1] /\ tcell' = Put(tcell, t, w[2]) /\ tex' = Set(tex, t, Held(v))
             /\ Log(<<"tnew", t>>) /\ UNCHANGED <<img, cm, icell, ccell, cptr>>
TexClear(t) == /\ \E how \in {"treset", "tbadinit"} : Log(<<how, t>>)
               /\ heap' = Free(heap, tcell[t]) /\ tcell' = Put(tcell, t, 0) /\ tex' = Set(tex, t, Nothing)
               /\ UNCHANGED <<img, cm, icell, ccell, cptr>>
\* an image is put into it, levels generated from its images and custom ones, converted
TexChange(t) == /\ tex[t].k = "held"
                /\ \E v \in Contents : heap' = WriteCell(heap, tcell[t], v)[1] /\ tex' = Set(tex, t, Held(v))
                /\ (\/ \E i \in Images : img[i].k = "held" /\ Log(<<"tset", t, i>>)
                    \/ \E c \in Customs : (cm[c].k # "absent" => Known(cm[c]) /\ Seen(img, cm[c]).k # "moved") /\ Log(<<"tgen", t, IF Known(cm[c]) THEN c ELSE -1>>)
                    \/ Log(<<"tconv", t>>))
                /\ UNCHANGED <<img, cm, icell, ccell, cptr, tcell>>
TexCopy(d, s) == /\ tex[s].k # "moved" /\ (HasRoom \/ tcell[d] # 0)
                 /\ \E how \in {"tcopy", "tassign"} : (d = s => how = "tassign") /\ Log(<<how, d, s>>)
                 /\ IF d = s THEN UNCHANGED <<heap, tcell>>
                    ELSE LET w == CloneTo(heap, tcell[d], tcell[s]) IN heap' = w[1] /\ tcell' = Put(tcell, d, w[2])
                 /\ tex' = Copy(tex, d, s) /\ UNCHANGED <<img, cm, icell, ccell, cptr>>
TexMove(d, s) == /\ d # s /\ tex[s].k # "moved"
                 /\ \E how \in {"tmove", "tmoveassign"} : Log(<<how, d, s>>)
                 /\ heap' = Free(heap, tcell[d]) /\ tcell' = [tcell EXCEPT ![d] = tcell[s], ![s] = 0]
                 /\ tex' = Move(tex, d, s) /\ UNCHANGED <<img, cm, icell, ccell, cptr>>
\* an image is copied out of a texture
ImgFromTex(i, t) == /\ tex[t].k = "held" /\ (HasRoom \/ icell[i] # 0)
                    /\ \E v \in Contents : LET w == WriteCell(Free(heap, icell[i]), 0, v) IN
                       /\ heap' = w[1] /\ icell' = Put(icell, i, w[2]) /\ img' = Set(img, i, Held(v))
                    /\ Log(<<"itex", i, t>>) /\ UNCHANGED <<cm, tex, ccell, cptr, tcell>>

Next == \/ \E i \in Images : ImgNew(i) \/ ImgChange(i) \/ ImgClear(i)
        \/ \E d, s \in Images : ImgCopy(d, s) \/ ImgMove(d, s) \/ ImgDerive(d, s)
        \/ \E c \in Customs, i \in Images, r \in {0, 1} : CmRef(c, i, r) \/ CmOwn(c, i, r)
        \/ \E d, s \in Customs : CmCopy(d, s) \/ CmMove(d, s)
        \/ \E c \in Customs : CmDelete(c)
        \/ \E t \in Textures : TexNew(t) \/ TexClear(t) \/ TexChange(t)
        \/ \E d, s \in Textures : TexCopy(d, s) \/ TexMove(d, s)
        \/ \E i \in Images, t \in Textures : ImgFromTex(i, t)
Spec == Init /\ [][Next]_vars

\* simulation
Some(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})     \* (not a constant for TLC)
Rare(n) == Some(1..n) = 1
NextSim == \/ ImgNew(Some(Images)) \/ ImgChange(Some(Images)) \/ ImgChange(Some(Images)) \/ (Rare(2) /\ ImgClear(Some(Images)))
           \/ ImgCopy(Some(Images), Some(Images)) \/ (Rare(2) /\ ImgMove(Some(Images), Some(Images))) \/ ImgDerive(Some(Images), Some(Images))
           \/ CmRef(Some(Customs), Some(Images), Some({0, 1})) \/ CmOwn(Some(Customs), Some(Images), Some({0, 1}))
           \/ CmCopy(Some(Customs), Some(Customs)) \/ CmCopy(Some(Customs), Some(Customs)) \/ CmMove(Some(Customs), Some(Customs)) \/ (Rare(2) /\ CmDelete(Some(Customs)))
           \/ TexNew(Some(Textures)) \/ (Rare(3) /\ TexClear(Some(Textures))) \/ TexChange(Some(Textures)) \/ TexChange(Some(Textures))
           \/ TexCopy(Some(Textures), Some(Textures)) \/ (Rare(2) /\ TexMove(Some(Textures), Some(Textures))) \/ ImgFromTex(Some(Images), Some(Textures))
SpecSim == Init /\ [][NextSim]_vars

----------------------------------------------------------------------------
Through(c) == IF c = 0 THEN Nothing ELSE Held(heap[c])
CustomCell(c) == IF cptr[c][1] = "img" THEN icell[cptr[c][2]] ELSE ccell[cptr[c][2]]
Faithful == /\ \A i \in Images : img[i].k # "moved" => Through(icell[i]) = img[i]
            /\ \A t \in Textures : tex[t].k # "moved" => Through(tcell[t]) = tex[t]
            /\ \A c \in Customs : Known(cm[c]) /\ Seen(img, cm[c]).k # "moved" => Through(CustomCell(c)) = Seen(img, cm[c])
Owners == {<<"i", i>> : i \in Images} \cup {<<"c", c>> : c \in Customs} \cup {<<"t", t>> : t \in Textures}
CellOf(o) == CASE o[1] = "i" -> icell[o[2]] [] o[1] = "c" -> ccell[o[2]] [] OTHER -> tcell[o[2]]
NoSharing == /\ \A o, p \in Owners : o # p /\ CellOf(o) # 0 => CellOf(o) # CellOf(p)
             /\ {CellOf(o) : o \in Owners} \ {0} = {c \in Cells : heap[c] # 0}        \* and none is lost
OwnStorage == \A c \in Customs : Known(cm[c]) => IF cm[c].k = "own" THEN cptr[c] = <<"own", c>> ELSE cptr[c] = <<"img", cm[c].t>>
\* only what an operation names changes
Frame == [][\A o \in Owners : LET e == hist'[Len(hist')] IN
              CASE o[1] = "i" -> img'[o[2]] # img[o[2]] => e[1] \in {"inew", "ichange", "ireset", "ibadinit", "ibadload", "icopy", "iassign", "imove", "imoveassign", "iderive", "itex"}
                                                            /\ (e[2] = o[2] \/ (e[1] \in {"imove", "imoveassign"} /\ e[3] = o[2]))
                [] o[1] = "t" -> tex'[o[2]] # tex[o[2]] => e[1] \in {"tnew", "treset", "tbadinit", "tset", "tgen", "tconv", "tcopy", "tassign", "tmove", "tmoveassign"}
                                                            /\ (e[2] = o[2] \/ (e[1] \in {"tmove", "tmoveassign"} /\ e[3] = o[2]))
                [] OTHER -> cm'[o[2]] # cm[o[2]] => e[1] \in {"cmref", "cmown", "cmcopy", "cmassign", "cmmove", "cmmoveassign", "cmdel"}
                                                            /\ (e[2] = o[2] \/ (e[1] \in {"cmmove", "cmmoveassign"} /\ e[3] = o[2]))]_vars
Emit == Len(hist) # Depth0 \/ PrintT("@@GEN " \o ToJson([h |-> hist]))
=============================================================================
