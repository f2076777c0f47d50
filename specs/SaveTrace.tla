----------------------------- MODULE SaveTrace -----------------------------
(* Recorded saves judged by SaveFault.tla.                                    *)
EXTENDS SaveFault, TraceFrame

VARIABLES tex,     \* slot -> [conv, f, t]
          ref,     \* <<slot, type>> -> [len, h] of the first file saved since the conversion
          disk,    \* path -> content
          seen     \* slot -> last observed state of the texture since it was changed
vars == <<frame, tex, ref, disk, seen>>
\* parameters: names: path -> type named by its extension; broken: paths that cannot be opened
Tex(s) == IF s \in DOMAIN tex THEN tex[s] ELSE Empty
Disk(p) == IF p \in DOMAIN disk THEN disk[p] ELSE Nothing
Forget(s) == ref' = [k \in {k \in DOMAIN ref : k[1] # s} |-> ref[k]] /\ seen' = [k \in DOMAIN seen \ {s} |-> seen[k]]

Setup == /\ More /\ ~skip /\ E.op \in {"tinit", "treset", "tset", "tconv"}
         /\ LET s == E.a[1] IN
            /\ tex' = (s :> IF E.op = "tconv" THEN (IF E.ret THEN [conv |-> TRUE, f |-> E.a[2], t |-> E.a[3]] ELSE Tex(s)) ELSE Empty) @@ tex
            /\ Forget(s)
         /\ UNCHANGED disk /\ Judge(Normal /\ (E.op \in {"tinit", "tset"} => E.ret), "setup failed")
State == /\ IsOp("thash") /\ Normal
         /\ seen' = (E.t :> E.st) @@ seen
         /\ UNCHANGED <<tex, ref, disk>>
         /\ Judge(E.st.conv = Tex(E.t).conv /\ (E.t \in DOMAIN seen => seen[E.t] = E.st), [texture |-> "changed by saving"])

Known(s, ft) == <<s, ft>> \in DOMAIN ref
Content == [len |-> E.len, h |-> E.h]
\* room of the sink; -2: not known before, the sink tells whether it refused
RoomOf(how) == CASE how \in {"vec", "stream", "append"} -> -1
               [] how \in {"failed", "full"} -> 0
               [] how = "file" -> IF E.a[4] \in {P.broken[i] : i \in 1..Len(P.broken)} THEN 0 ELSE -1
               [] how = "flimit" -> IF E.a[5] \in {P.broken[i] : i \in 1..Len(P.broken)} THEN 0 ELSE E.lim
               [] how = "fault" -> E.lim
               [] how = "glitch" -> IF E.refused THEN 0 ELSE -1
               [] OTHER -> -1
PathOf == CASE E.how = "file" -> E.a[4] [] E.how = "flimit" -> E.a[5] [] OTHER -> ""
TypeOf == IF E.ft = Auto /\ PathOf # "" THEN P.names[PathOf] ELSE E.ft

Save ==
    /\ IsOp("tsave") /\ Normal
    /\ LET s == E.t ft == TypeOf p == PathOf
           refusal == IF E.how = "null" THEN ResInvalid ELSE Refusal(Tex(s), ft)
           room == RoomOf(E.how)
           size == IF Known(s, ft) THEN ref[<<s, ft>>].len ELSE 1
           expect == IF refusal # ResOk THEN refusal ELSE IF Fits(size, room) THEN ResOk ELSE ResWrite
           \* a limited sink whose file is not known yet may or may not hold it
           open == refusal = ResOk /\ ~Known(s, ft) /\ room > 0
           broken == p # "" /\ p \in {P.broken[i] : i \in 1..Len(P.broken)}
           old == Disk(p)
           okRes == IF open THEN E.res \in {ResOk, ResWrite} ELSE E.res = expect
           okSucc == E.res = ResOk => /\ E.len > 0 /\ ~E.refused
                                      /\ (room >= 0 => E.len <= room)
                                      /\ (Known(s, ft) => Content = ref[<<s, ft>>])
           okRefused == refusal # ResOk => /\ (p = "" => E.len = 0)
                                           /\ (p # "" /\ ~broken /\ old # Unknown => (E.exists <=> (old # Nothing)))
                                           /\ (p # "" /\ ~broken /\ old # Unknown /\ old # Nothing => Holds(Content) = old)
           okPre == E.how # "append" \/ E.prefix
           okHeld == (room >= 0 /\ p = "") => (E.len <= room \/ E.how = "glitch")
       IN /\ ref' = IF E.res = ResOk /\ ~Known(s, ft) THEN (<<s, ft>> :> Content) @@ ref ELSE ref
          /\ disk' = IF p = "" \/ broken THEN disk ELSE (p :> DiskAfter(old, E.res, Content)) @@ disk
          /\ Judge(okRes /\ okSucc /\ okRefused /\ okPre /\ okHeld,
                   [how |-> E.how, type |-> ft, result |-> E.res, expected |-> expect, room |-> room, size |-> size, len |-> E.len, content |-> okSucc, kept |-> okRefused])
    /\ UNCHANGED <<tex, seen>>

\* every fault point of a range: entries <<limit, result, accepted, refused, hash>>
EntryOK(e, size, h) ==
    CASE E.how \in {"fault", "seek"} -> IF e[1] >= size THEN e[2] = ResOk /\ e[3] = size /\ e[5] = h /\ ~e[4] ELSE e[2] = ResWrite /\ e[3] <= e[1]
      [] E.how = "glitch" -> IF e[4] THEN e[2] = ResWrite ELSE e[2] = ResOk /\ e[3] = size /\ e[5] = h
      [] E.how = "flimit" -> IF e[1] >= size THEN e[2] = ResOk /\ e[3] = size /\ e[5] = h ELSE e[2] = ResWrite
      [] OTHER -> FALSE
Sweep ==
    /\ IsOp("tsweep") /\ Normal
    /\ UNCHANGED <<tex, ref, disk, seen>>
    /\ IF ~Known(E.t, E.ft) THEN Reject("no file to compare with")
       ELSE LET r == ref[<<E.t, E.ft>>]
                wrong == {i \in 1..Len(E.r) : ~EntryOK(E.r[i], r.len, r.h)}
            IN Judge(wrong = {} /\ Len(E.r) = (E.to - E.from) \div E.step + 1,
                     [how |-> E.how, type |-> E.ft, size |-> r.len, count |-> Cardinality(wrong), entry |-> IF wrong = {} THEN <<>> ELSE E.r[CHOOSE i \in wrong : TRUE]])

Put == /\ IsOp("fput") /\ disk' = (E.path :> Holds(Content)) @@ disk /\ Accept /\ UNCHANGED <<tex, ref, seen>>
Del == /\ IsOp("fdel") /\ disk' = (E.path :> Nothing) @@ disk /\ Accept /\ UNCHANGED <<tex, ref, seen>>
Folder == IsOp("fdir") /\ Accept /\ UNCHANGED <<tex, ref, seen, disk>>
\* files other than the one saved to are never touched
Stat == /\ IsOp("fstat") /\ UNCHANGED <<tex, ref, disk, seen>>
        /\ LET d == Disk(E.path) IN
           Judge(CASE d = Unknown -> TRUE [] d = Nothing -> ~E.exists [] OTHER -> E.exists /\ Holds(Content) = d, [path |-> E.path, should |-> d, is |-> Content])
Other == /\ More /\ ~skip /\ (E.op \notin {"case", "tinit", "treset", "tset", "tconv", "thash", "tsave", "tsweep", "fput", "fdel", "fdir", "fstat"} \/ (E.op # "case" /\ ~Normal))
         /\ UNCHANGED <<tex, ref, disk, seen>> /\ Reject("unexpected event")

Blank == tex = <<>> /\ ref = <<>> /\ disk = <<>> /\ seen = <<>>
Init == FrameInit /\ Blank
Next == \/ NewCase /\ tex' = <<>> /\ ref' = <<>> /\ disk' = <<>> /\ seen' = <<>>
        \/ SkipStep /\ UNCHANGED <<tex, ref, disk, seen>>
        \/ Setup \/ State \/ Save \/ Sweep \/ Put \/ Del \/ Folder \/ Stat \/ Other
Spec == Init /\ [][Next]_vars
=============================================================================
