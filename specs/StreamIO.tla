------------------------------ MODULE StreamIO ------------------------------
(* C15: the adapters that let an image codec use C++ streams in place of a   *)
(* file.  The codec is any client that reads, writes, seeks and asks for the *)
(* position; a stream has a position and flags, and refuses operations while *)
(* a flag is set.  The client must not be able to tell a stream from a file. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Length,     \* bytes of the input
          MaxOps,     \* operations of a client
          Room        \* bytes an output takes before it refuses (-1: any number)

Whence == {"set", "cur", "end"}
Min(a, b) == IF a < b THEN a ELSE b
Byte(i) == i + 1      \* input byte i; 0 is the filling of a gap

VARIABLES mode,                  \* "in" or "out"
          fpos, fdata,           \* the file
          spos, sdata, eof, fail,\* the stream
          answer,                \* <<answer of the file, answer of the stream>> of the last operation
          ops, refused, gap
vars == <<mode, fpos, fdata, spos, sdata, eof, fail, answer, ops, refused, gap>>

Init == /\ mode \in {"in", "out"}
        /\ fdata = (IF mode = "in" THEN [i \in 1..Length |-> Byte(i)] ELSE <<>>) /\ sdata = fdata
        /\ fpos = 0 /\ spos = 0 /\ eof = FALSE /\ fail = FALSE /\ answer = <<0, 0>> /\ ops = 0 /\ refused = FALSE /\ gap = 0

Good == ~eof /\ ~fail
Step == ops < MaxOps /\ ops' = ops + 1

\* read `count` items of `size` bytes: the number of complete items, and all bytes that exist are consumed
ReadFile(n) == Min(n, IF fpos > Len(fdata) THEN 0 ELSE Len(fdata) - fpos)
Read(size, count) ==
    /\ mode = "in" /\ Step
    /\ LET n == size*count
           f == ReadFile(n)
           \* istream::read: a short read sets eof and fail; the adapter clears both, as the end is no error
           s == IF Good THEN Min(n, Len(sdata) - spos) ELSE 0
       IN /\ fpos' = fpos + f /\ spos' = spos + s
          /\ answer' = <<f \div size, s \div size>>
          /\ UNCHANGED <<eof, fail>>
    /\ UNCHANGED <<mode, fdata, sdata, refused, gap>>

Target(w, off, pos, data) == CASE w = "set" -> off [] w = "cur" -> pos + off [] OTHER -> Len(data) + off
\* What lies behind the end of the input is no position of an in-memory stream: such a seek is answered
\* with failure, but nothing can be read there and the stream remains usable, as a file does.
SeekIn(w, off) ==
    /\ mode = "in" /\ Step
    /\ LET t == Target(w, off, fpos, fdata) IN
       /\ t >= 0 /\ (fpos > Len(fdata) => w # "cur")
       /\ fpos' = t
       /\ IF ~Good THEN spos' = spos /\ answer' = <<0, -1>>
          ELSE IF t <= Len(fdata) THEN spos' = Target(w, off, spos, sdata) /\ answer' = <<0, 0>>
          ELSE spos' = Len(sdata) /\ answer' = <<-1, -1>>
    /\ UNCHANGED <<mode, fdata, sdata, eof, fail, refused, gap>>

Pad(data, n) == data \o [i \in 1..(IF n > Len(data) THEN n - Len(data) ELSE 0) |-> 0]
Put(data, pos, bytes) == [i \in 1..(IF pos + Len(bytes) > Len(data) THEN pos + Len(bytes) ELSE Len(data)) |->
                             IF i \in pos + 1..pos + Len(bytes) THEN bytes[i - pos] ELSE Pad(data, pos)[i]]
Fits(n) == Room = -1 \/ n <= Room
Write(k) ==
    /\ mode = "out" /\ Step
    /\ LET bytes == [i \in 1..k |-> Byte(ops)] IN
       /\ fdata' = Put(fdata, fpos, bytes) /\ fpos' = fpos + k
       /\ IF Good /\ Fits(spos + k) THEN sdata' = Put(sdata, spos, bytes) /\ spos' = spos + k /\ answer' = <<1, 1>> /\ UNCHANGED <<fail, refused>>
          ELSE fail' = TRUE /\ refused' = TRUE /\ answer' = <<1, 0>> /\ UNCHANGED <<sdata, spos>>
    /\ UNCHANGED <<mode, eof, gap>>
\* a codec may leave a gap; a file only has it once something is written behind it, a stream is filled at once
SeekOut(off) ==
    /\ mode = "out" /\ Step
    /\ fpos' = off
    /\ IF ~Good THEN answer' = <<0, -1>> /\ UNCHANGED <<spos, sdata, fail, refused>>
       ELSE IF off <= Len(sdata) THEN spos' = off /\ answer' = <<0, 0>> /\ UNCHANGED <<sdata, fail, refused>>
       ELSE IF Fits(off) THEN sdata' = Pad(sdata, off) /\ spos' = off /\ answer' = <<0, 0>> /\ UNCHANGED <<fail, refused>>
       ELSE fail' = TRUE /\ refused' = TRUE /\ answer' = <<0, -1>> /\ UNCHANGED <<sdata, spos>>
    /\ gap' = (IF off > gap THEN off ELSE gap)
    /\ UNCHANGED <<mode, fdata, eof>>
Tell == /\ Step /\ (mode = "in" => fpos <= Len(fdata)) /\ answer' = <<fpos, IF fail THEN -1 ELSE spos>>
        /\ UNCHANGED <<mode, fpos, fdata, spos, sdata, eof, fail, refused, gap>>

Next == \/ \E size \in 1..3, count \in 0..3 : Read(size, count)
        \/ \E w \in Whence, off \in -Length..Length + 2 : SeekIn(w, off)
        \/ \E k \in 0..3 : Write(k)
        \/ \E off \in 0..Length + 2 : SeekOut(off)
        \/ Tell
Spec == Init /\ [][Next]_vars

\* the client gets the same answers and leaves the same bytes, unless the output refused something
Same == refused \/ (answer[1] = answer[2] /\ spos = (IF mode = "in" THEN Min(fpos, Len(sdata)) ELSE fpos))
\* (gap: the farthest position that was asked for; a codec writes something behind it in the end)
SameBytes == refused \/ (sdata = Pad(fdata, Len(sdata)) /\ (gap <= Len(fdata) => sdata = fdata))
\* what saving answers: the client was content and the stream is good.  A refusal is never forgotten.
RefusalKept == refused => ~Good
=============================================================================
