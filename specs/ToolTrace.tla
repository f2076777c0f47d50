------------------------------ MODULE ToolTrace ------------------------------
(* C16: runs of the real tool in a directory of its own.  A run records the   *)
(* tokens, the exit code, whether it printed anything, the files that are new *)
(* or changed with their bytes, and the new directories.                      *)
EXTENDS ToolFile, TraceFrame

\* what is in the directory is the same for all runs; P has what depends on the words
World == JsonDeserialize(IOEnv.WORLD)
Disk == [files |-> World.files, lists |-> World.lists, miplists |-> World.miplists, outs |-> P.outs, ext |-> P.ext]

Paths == {E.files[i].path : i \in 1..Len(E.files)}
Dirs == {E.dirs[i] : i \in 1..Len(E.dirs)}
RunWrong ==
    LET a == Parse(E.toks, Disk) code == ExitCode(a, Disk) IN
    IF E.rc # code THEN {<<"exit code", E.rc, "expected", code>>}
    ELSE Failed(<<
      <<"files created or altered", Paths = IF code = 0 THEN {a.out} ELSE {}>>,
      <<"directories created", Dirs = IF code = 0 THEN {P.outs[a.out].dirs[i] : i \in 1..Len(P.outs[a.out].dirs)} ELSE {}>>,
      <<"no usage", a.help => E.usage>>,
      <<"no message for the error", code # 0 /\ ~a.help => ~E.noerr>>,
      <<"output although quiet", (a.log = "quiet" /\ code # 1) => E.noout /\ (code = 0 => E.noerr)>> >>)
      \cup (IF code = 0 /\ Paths = {a.out} THEN {<<"file", x>> : x \in FileWrong(E.files[1].b, TextureOf(a, Disk), FileTypeOf(a, Disk), <<>>)} ELSE {})
Run == IsOp("run") /\ LET w == RunWrong IN Judge(w = {}, [wrong |-> w])
Other == More /\ ~skip /\ E.op \notin {"case", "run"} /\ Reject("unexpected event")

Init == FrameInit
Next == NewCase \/ SkipStep \/ Run \/ Other
Spec == Init /\ [][Next]_frame
=============================================================================
