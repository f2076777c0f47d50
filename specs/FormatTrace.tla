----------------------------- MODULE FormatTrace -----------------------------
(* C06: every capability answer is the one of the format table, and          *)
(* conversion and saving do what the answers promise.                        *)
EXTENDS Formats, TraceFrame

Bit(b) == IF b THEN 1 ELSE 0
NoFormat == [name |-> "", ch |-> <<>>, bytes |-> 0, types |-> {}, bw |-> 0, bh |-> 0, mw |-> 0, mh |-> 0, alpha |-> FALSE]

\* answers about one format number (0 and numbers beyond the last are no formats)
Answers(f) ==
    LET fm == IF f \in AllFormats THEN Fmt(f) ELSE NoFormat IN
    [ok    |-> [i \in 1..6 |-> Bit(FormatValid(f, i - 1))],
     file  |-> [i \in 1..6 |-> [k \in 1..4 |-> Bit(FileHolds(f, i - 1, k - 1))]],
     srgb  |-> [i \in 1..6 |-> Bit(f \in AllFormats /\ NativeSrgb(f, i - 1))],
     alpha |-> fm.alpha, bw |-> fm.bw, bh |-> fm.bh, bs |-> fm.bytes, mw |-> fm.mw, mh |-> fm.mh]
Observed == [ok |-> E.ok, file |-> E.file, srgb |-> E.srgb, alpha |-> E.alpha, bw |-> E.bw, bh |-> E.bh, bs |-> E.bs, mw |-> E.mw, mh |-> E.mh]
Info == IsOp("finfo") /\ Judge(Normal /\ Observed = Answers(E.f), IF E.f \in AllFormats THEN Fmt(E.f).name ELSE "no format")

\* 1 + floor(log2(n))
RECURSIVE Bits(_)
Bits(n) == IF n = 0 THEN 0 ELSE 1 + Bits(n \div 2)
Larger(a, b) == IF a > b THEN a ELSE b
MaxMips == IsOp("maxmips") /\ Judge(Normal /\ E.ret = LET wh == Larger(Bits(E.w), Bits(E.h)) IN IF E.dim = 2 THEN Larger(wh, Bits(E.d)) ELSE wh, E)

\* P.ext is the lower case extension the name was built from
FileType == IsOp("ftype") /\ Judge(Normal /\ E.ret = CASE P.ext = ".dds" -> DDS [] P.ext = ".ktx" -> KTX [] P.ext = ".pvr" -> PVR [] OTHER -> 0, E)

\* conversion: P.f, P.t, P.cs
Setup == More /\ ~skip /\ E.op \in {"tinit", "tset"} /\ Judge(Normal /\ E.ret, "setup failed")
ShouldConvert == FormatValid(P.f, P.t) /\ (P.cs = sRGB => NativeSrgb(P.f, P.t))
Convert == IsOp("tconv") /\ Judge(Normal /\ E.ret = ShouldConvert, [converted |-> E.ret])
Save == IsOp("tsave") /\
    Judge(/\ Normal
          /\ E.res = (IF ~ShouldConvert THEN 1 ELSE IF E.ft \notin {DDS, KTX, PVR} THEN 2 ELSE IF FileHolds(P.f, P.t, E.ft) THEN 0 ELSE 3)
          /\ (E.res # 0 => E.len = 0) /\ (E.res = 0 => E.len > 0), [file |-> E.ft, result |-> E.res])
Other == More /\ ~skip /\ E.op \notin {"case", "finfo", "maxmips", "ftype", "tinit", "tset", "tconv", "tsave"} /\ Reject("unexpected event")

Init == FrameInit
Next == NewCase \/ SkipStep \/ Info \/ MaxMips \/ FileType \/ Setup \/ Convert \/ Save \/ Other
Spec == Init /\ [][Next]_frame
==============================================================================
