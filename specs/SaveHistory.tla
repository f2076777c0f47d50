---------------------------- MODULE SaveHistory ----------------------------
(* Histories of saving textures to files and sinks, for replay.              *)
EXTENDS SaveFault, Sequences, TLC, Json

CONSTANTS Depth0
Configs == {<<"R4G4", UNorm>>, <<"R8G8B8", UNorm>>, <<"R8G8B8A8", UNorm>>, <<"R8", SInt>>, <<"R16G16B16A16", Float>>, <<"A8B8G8R8", UNorm>>, <<"B10G11R11_UFloat", UFloat>>}
\* file names and the type their extension names; the last two cannot be opened
Names == [a |-> DDS, b |-> KTX, c |-> PVR, d |-> 0, e |-> DDS, missing |-> KTX, folder |-> PVR]
Broken == {"missing", "folder"}
Slots == {0, 1}
Rooms == {"0", "1", "L/2", "L-1", "L-3", "L", "L+1", "L+100"}

VARIABLES tex, disk, hist, last
vars == <<tex, disk, hist, last>>
Init == /\ tex = [s \in Slots |-> Empty] /\ disk = [n \in DOMAIN Names |-> Nothing] /\ hist = <<>> /\ last = <<-1, "">>
Pick(S) == {RandomElement(IF Len(hist) >= 0 THEN S ELSE {})}     \* (not a constant, which TLC would evaluate once)

Convert(s) == \E c \in Pick(Configs) :
    /\ tex' = [tex EXCEPT ![s] = [conv |-> TRUE, f |-> FormatNo(c[1]), t |-> c[2]]]
    /\ hist' = Append(hist, <<"convert", s, FormatNo(c[1]), c[2]>>) /\ last' = <<-1, "">> /\ UNCHANGED disk
Clear(s) == \E how \in Pick({"treset", "tinit", "incomplete"}) :
    /\ tex' = [tex EXCEPT ![s] = Empty] /\ hist' = Append(hist, <<how, s>>) /\ last' = <<-1, "">> /\ UNCHANGED disk
Put == \E n \in Pick(DOMAIN Names \ Broken) :
    /\ disk' = [disk EXCEPT ![n] = Holds(<<"old">>)] /\ hist' = Append(hist, <<"put", n>>) /\ last' = <<-1, "">> /\ UNCHANGED tex
Delete == \E n \in Pick(DOMAIN Names \ Broken) :
    /\ disk' = [disk EXCEPT ![n] = Nothing] /\ hist' = Append(hist, <<"delete", n>>) /\ last' = <<-1, "">> /\ UNCHANGED tex

SizeOf == 10     \* any size
Room(r) == CASE r = "0" -> 0 [] r = "1" -> 1 [] r = "L/2" -> SizeOf \div 2 [] r = "L-1" -> SizeOf - 1 [] r = "L-3" -> SizeOf - 3 [] r = "L" -> SizeOf [] OTHER -> SizeOf + 1
SaveFile(s) == \E n \in Pick(DOMAIN Names), ft \in Pick({0, 0, 1, 2, 3, 4}), room \in Pick(Rooms \cup {"-1"}) :
    LET eff == IF ft = Auto THEN Names[n] ELSE ft
        r == Outcome(tex[s], eff, SizeOf, IF n \in Broken THEN 0 ELSE IF room = "-1" THEN -1 ELSE Room(room))
    IN  /\ disk' = IF n \in Broken THEN disk ELSE [disk EXCEPT ![n] = DiskAfter(@, r, <<tex[s], eff>>)]
        /\ hist' = Append(hist, <<"file", s, ft, n, room>>) /\ last' = <<r, n>> /\ UNCHANGED tex
SaveSink(s) == \E how \in Pick({"vec", "stream", "append", "failed", "full", "null", "fault", "glitch"}), ft \in Pick({0, 1, 2, 3, 4}), room \in Pick(Rooms) :
    LET r == Outcome(tex[s], ft, SizeOf, CASE how \in {"vec", "stream", "append"} -> -1 [] how = "fault" -> Room(room) [] OTHER -> 0)
    IN  /\ hist' = Append(hist, <<how, s, ft, room>>) /\ last' = <<r, "">> /\ UNCHANGED <<tex, disk>>
Rare(n) == Pick(1..n) = {1}
Next == \E s \in Slots : \/ (Rare(3) /\ Convert(s)) \/ (Rare(5) /\ Clear(s))
                         \/ SaveFile(s) \/ SaveSink(s) \/ (Rare(2) /\ Put) \/ (Rare(3) /\ Delete)
Spec == Init /\ [][Next]_vars

\* refused requests leave every file as it was; success means the whole file is there
Refused == last[1] \in {ResInvalid, ResUnknown, ResUnsupported} => hist[Len(hist)][1] # "put"
Kept == [][last'[1] \in {ResInvalid, ResUnknown, ResUnsupported} => disk' = disk]_vars
Whole == last[1] = ResOk /\ last[2] # "" => disk[last[2]][1] = "content" /\ disk[last[2]] # Holds(<<"old">>)
Emit == Len(hist) # Depth0 \/ PrintT("@@GEN " \o ToJson([h |-> hist]))
=============================================================================
