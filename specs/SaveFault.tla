----------------------------- MODULE SaveFault -----------------------------
(* C10: what saving a texture answers and what it leaves behind.             *)
EXTENDS Formats, FiniteSets

ResOk == 0  ResInvalid == 1  ResUnknown == 2  ResUnsupported == 3  ResWrite == 4
Auto == 0
FileTypes == {DDS, KTX, PVR}

\* tex: [conv, f, t]
Empty == [conv |-> FALSE, f |-> 0, t |-> 0]

\* requests that are refused whatever the sink does; nothing may be written then
Refusal(tex, ft) ==
    IF ~tex.conv THEN ResInvalid
    ELSE IF ft \notin FileTypes THEN ResUnknown
    ELSE IF ~FileHolds(tex.f, tex.t, ft) THEN ResUnsupported
    ELSE ResOk

\* a sink that holds `room` bytes (-1: any number) is given a file of `size` bytes
Fits(size, room) == room = -1 \/ size <= room
Outcome(tex, ft, size, room) ==
    LET r == Refusal(tex, ft) IN IF r # ResOk THEN r ELSE IF Fits(size, room) THEN ResOk ELSE ResWrite

\* what a path holds: nothing, known content, or an unknown part of a file after a write error
Nothing == <<"nothing">>
Unknown == <<"unknown">>
Holds(c) == <<"content", c>>
DiskAfter(old, result, content) ==
    CASE result = ResOk -> Holds(content)
      [] result = ResWrite -> Unknown
      [] OTHER -> old
=============================================================================
