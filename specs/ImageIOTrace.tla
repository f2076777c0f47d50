---------------------------- MODULE ImageIOTrace ----------------------------
(* C15: recorded loads and saves of image files judged by ImageIO.tla.       *)
EXTENDS ImageIO, TraceFrame

\* parameters: files: path -> picture [w, h, px, mx, kind, ok]; kind "none": pixels not decided here,
\* ok: "yes", "no" or "any"
VARIABLES img,      \* slot -> what it holds
          memo,     \* <<path, colour space>> -> result of loading it
          ref,      \* <<slot, extension>> -> [len, h] of the file it is saved as
          disk      \* path -> what was saved there
vars == <<frame, img, memo, ref, disk>>
state == <<img, memo, ref, disk>>

Slot(i) == IF i \in DOMAIN img THEN img[i] ELSE [k |-> "none"]
Invalid == [k |-> "invalid"]
InvalidState(st) == ~st.valid /\ ~st.boolop /\ st.fmt = 0 /\ st.w = 0 /\ st.h = 0 /\ st.bpp = 0
Forget(i) == ref' = [q \in {q \in DOMAIN ref : q[1] # i} |-> ref[q]]
Fresh == img' = <<>> /\ memo' = <<>> /\ ref' = <<>> /\ disk' = <<>>

Make == /\ More /\ ~skip /\ E.op \in {"iinit", "iconv", "iset", "ireset"} /\ Normal
        /\ LET i == E.a[1] IN
           /\ img' = (i :> IF E.op = "ireset" THEN Invalid ELSE [k |-> "made"]) @@ img
           /\ Forget(i)
        /\ UNCHANGED <<memo, disk>> /\ Judge(E.op \in {"iinit"} => E.ret, "setup failed")

----------------------------------------------------------------------------
Path == E.a[3]
Cs == E.a[4]
Cut == Len(E.a) > 4 /\ E.how \notin {"file", "fstream"}
IsPicture == Path \in DOMAIN P.files
IsSaved == Path \in DOMAIN disk
Result == [ret |-> E.ret, h |-> E.h, fmt |-> E.st.fmt]
Size == IF IsPicture THEN <<P.files[Path].w, P.files[Path].h>> ELSE <<disk[Path].w, disk[Path].h>>
Wanted == IF IsSaved THEN "yes" ELSE IF IsPicture THEN P.files[Path].ok ELSE "no"
LoadOK ==
    /\ E.ret = E.st.valid
    /\ IF E.ret THEN /\ E.st.boolop /\ E.st.fmt \in Formats /\ <<E.st.w, E.st.h>> = Size /\ E.st.cs = Cs /\ E.h > 0
       ELSE InvalidState(E.st) /\ E.h = 0
    /\ (Cut \/ ((Wanted = "yes" => E.ret) /\ (Wanted = "no" => ~E.ret)))
Load ==
    /\ IsOp("iload") /\ Normal
    /\ LET key == <<Path, Cs>> IN
       /\ img' = (E.i :> IF ~E.ret THEN Invalid ELSE IF Cut THEN [k |-> "cut"] ELSE IF IsSaved THEN [k |-> "saved", path |-> Path] ELSE [k |-> "picture", path |-> Path]) @@ img
       /\ memo' = IF Cut THEN memo ELSE (key :> Result) @@ memo
       /\ Forget(E.i) /\ UNCHANGED disk
       /\ Judge(LoadOK /\ (~Cut /\ key \in DOMAIN memo => memo[key] = Result), [how |-> E.how, ret |-> E.ret, st |-> E.st, wanted |-> Wanted, same |-> key \notin DOMAIN memo \/ memo[key] = Result])

\* every prefix, from memory, a file, a seekable and a non-seekable stream
SourceOK(s) == /\ s[1] = s[2]
               /\ IF s[1] THEN <<s[3], s[4]>> = <<P.files[E.path].w, P.files[E.path].h>> /\ s[5] = E.a[3] ELSE s[3] = 0 /\ s[4] = 0
EntryOK(e) == /\ \A s \in 1..Len(e[2]) : SourceOK(e[2][s])
              /\ e[1] = 0 => \A s \in 1..Len(e[2]) : ~e[2][s][1]
              /\ e[1] = E.size /\ P.files[E.path].ok = "yes" => \A s \in 1..Len(e[2]) : e[2][s][1]
Truncate ==
    /\ IsOp("itrunc") /\ Normal
    /\ img' = (E.i :> [k |-> "none"]) @@ img /\ Forget(E.i) /\ UNCHANGED <<memo, disk>>
    /\ LET wrong == {q \in 1..Len(E.r) : ~EntryOK(E.r[q])} IN
       Judge(wrong = {} /\ Len(E.r) > 0, [prefixes |-> Cardinality(wrong), entry |-> IF wrong = {} THEN <<>> ELSE E.r[CHOOSE q \in wrong : TRUE]])

----------------------------------------------------------------------------
Dump ==
    /\ IsOp("idump") /\ Normal /\ UNCHANGED <<memo, ref, disk>>
    /\ LET s == Slot(E.i) IN
       CASE s.k = "picture" ->
              /\ UNCHANGED img
              /\ LET pic == P.files[s.path] wrong == IF pic.kind = "none" THEN {} ELSE PictureWrong(pic, E.px) IN
                 Judge(wrong = {}, [picture |-> pic.name, pixels |-> Cardinality(wrong), at |-> CHOOSE q \in wrong : TRUE, px |-> E.px[(CHOOSE q \in wrong : TRUE)[2]][(CHOOSE q \in wrong : TRUE)[1]], code |-> pic.px[(CHOOSE q \in wrong : TRUE)[2]][(CHOOSE q \in wrong : TRUE)[1]], max |-> pic.mx])
         [] s.k = "saved" ->
              /\ UNCHANGED img
              /\ LET d == disk[s.path] IN
                 Judge((Kept(d.ext, d.fmt) => SamePixels(E.px, d.px)) /\ (d.fmt \in Lossless(d.ext) => E.st.fmt = d.fmt), [ext |-> d.ext, saved |-> d.fmt, loaded |-> E.st.fmt, row |-> E.px[1], was |-> d.px[1]])
         [] s.k = "made" -> Accept /\ img' = (E.i :> [k |-> "made", px |-> E.px, fmt |-> E.st.fmt, w |-> E.st.w, h |-> E.st.h]) @@ img
         [] OTHER -> Accept /\ UNCHANGED img

FormatOf(i) == IF Slot(i).k = "made" THEN Slot(i).fmt ELSE 0
Known(i, e) == <<i, e>> \in DOMAIN ref
Content == [len |-> E.len, h |-> E.h]
Dest == CASE E.how \in {"vec", "stream"} -> E.a[4] [] E.how \in {"file", "flimit"} -> E.name [] OTHER -> ""
Broken == E.how = "file" /\ E.name \in {P.broken[q] : q \in 1..Len(P.broken)}
Saved == [ext |-> E.ext, fmt |-> FormatOf(E.i), px |-> Slot(E.i).px, w |-> Slot(E.i).w, h |-> Slot(E.i).h]
Refused == E.refused \/ Broken \/ (E.how = "flimit" /\ Known(E.i, E.ext) /\ E.lim < ref[<<E.i, E.ext>>].len)
Whole == E.how \notin {"fault", "flimit"} \/ (Known(E.i, E.ext) /\ E.lim >= ref[<<E.i, E.ext>>].len)
Save ==
    /\ IsOp("isave") /\ Normal
    /\ LET f == FormatOf(E.i) key == <<E.i, E.ext>>
           ok == /\ (MustRefuse(E.ext, f) => ~E.ret)
                 /\ (Refused => ~E.ret)
                 /\ (MustSave(E.ext, f) /\ Whole /\ ~Refused => E.ret)
                 /\ (E.ret => E.len > 0 /\ (key \in DOMAIN ref => ref[key] = Content))
                 \* nothing is created for an unknown type, an invalid image or an unreachable place
                 /\ (E.how = "file" /\ (f = 0 \/ E.ext \notin KnownTypes \/ Broken) => ~E.exists)
       IN /\ ref' = IF E.ret /\ key \notin DOMAIN ref THEN (key :> Content) @@ ref ELSE ref
          /\ disk' = IF E.ret /\ Dest # "" /\ f # 0 THEN (Dest :> Saved) @@ disk ELSE [q \in DOMAIN disk \ {Dest} |-> disk[q]]
          /\ Judge(ok, [how |-> E.how, ext |-> E.ext, fmt |-> f, ret |-> E.ret, refused |-> Refused, len |-> E.len, lim |-> E.lim])
    /\ memo' = [q \in {q \in DOMAIN memo : q[1] # Dest} |-> memo[q]]
    /\ UNCHANGED img

SweepEntryOK(e, r) ==
    CASE E.how \in {"fault", "noseek", "flimit"} -> IF e[1] >= r.len THEN e[2] /\ e[3] = r.len /\ e[5] = r.h ELSE ~e[2]
      [] E.how = "glitch" -> IF e[4] THEN ~e[2] ELSE e[2] /\ e[3] = r.len /\ e[5] = r.h
      [] OTHER -> FALSE
Sweep ==
    /\ IsOp("isweep") /\ UNCHANGED state
    /\ IF ~Known(E.i, E.ext) THEN Reject("no file to compare with")
       ELSE LET r == ref[<<E.i, E.ext>>] wrong == {q \in 1..Len(E.r) : ~SweepEntryOK(E.r[q], r)} IN
            Judge(Normal /\ wrong = {} /\ Len(E.r) > 0, [how |-> E.how, ext |-> E.ext, size |-> r.len, count |-> Cardinality(wrong), entry |-> IF wrong = {} THEN <<>> ELSE E.r[CHOOSE q \in wrong : TRUE]])

Other == /\ More /\ ~skip /\ UNCHANGED state
         /\ IF E.op \in {"fput", "fdel", "fdir"} THEN Accept
            ELSE /\ E.op \notin {"case", "iload", "itrunc", "idump", "isave", "isweep", "iinit", "iconv", "iset", "ireset"} \/ ~Normal
                 /\ E.op # "case" /\ Reject("exception, crash or unknown event")

Init == FrameInit /\ img = <<>> /\ memo = <<>> /\ ref = <<>> /\ disk = <<>>
Next == \/ NewCase /\ Fresh
        \/ SkipStep /\ UNCHANGED state
        \/ Make \/ Load \/ Truncate \/ Dump \/ Save \/ Sweep \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
