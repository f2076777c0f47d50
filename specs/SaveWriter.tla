----------------------------- MODULE SaveWriter -----------------------------
(* A writer that hands the file to the sink piece by piece, through a buffer *)
(* that is emptied when it is full and at the end, into a sink with limited  *)
(* room.  The result must be the one SaveFault.tla defines at every fault    *)
(* point, wherever the pieces and the buffer end.                             *)
EXTENDS SaveFault, Sequences, TLC

CONSTANTS MaxPiece, MaxPieces, Buffers
VARIABLES todo,      \* sizes of the pieces still to write
          size,      \* of the whole file
          room, buf, cap,    \* of the sink; bytes in the buffer and its size
          held,      \* bytes the sink has accepted
          failed,    \* the stream's state: once failed, nothing is written any more
          result
vars == <<todo, size, room, buf, cap, held, failed, result>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Files == UNION {[1..n -> 1..MaxPiece] : n \in 1..MaxPieces}
Init == /\ todo \in Files /\ size = Sum(todo) /\ room \in 0..(MaxPiece*MaxPieces + 1) /\ cap \in Buffers
        /\ buf = 0 /\ held = 0 /\ failed = FALSE /\ result = -1

Lesser(a, b) == IF a < b THEN a ELSE b
\* the sink takes what fits
Give(n) == /\ held' = held + Lesser(n, room - held)
           /\ failed' = (failed \/ n > room - held)
Write == /\ todo # <<>> /\ todo' = Tail(todo)
         /\ IF failed THEN UNCHANGED <<buf, held, failed>>
            ELSE IF buf + todo[1] <= cap THEN buf' = buf + todo[1] /\ UNCHANGED <<held, failed>>
            ELSE Give(buf + todo[1]) /\ buf' = 0
         /\ UNCHANGED <<size, room, cap, result>>
Flush == /\ todo = <<>> /\ buf > 0 /\ ~failed /\ Give(buf) /\ buf' = 0 /\ UNCHANGED <<todo, size, room, cap, result>>
Finish == /\ todo = <<>> /\ (buf = 0 \/ failed) /\ result = -1
          /\ result' = IF failed THEN ResWrite ELSE ResOk
          /\ UNCHANGED <<todo, size, room, buf, cap, held, failed>>
Next == Write \/ Flush \/ Finish
Spec == Init /\ [][Next]_vars

Converted == [conv |-> TRUE, f |-> FormatNo("R8"), t |-> UNorm]
RightResult == result # -1 => result = Outcome(Converted, DDS, size, room)
SuccessIsComplete == result = ResOk => held = size
Bounded == held <= room /\ held <= size
=============================================================================
