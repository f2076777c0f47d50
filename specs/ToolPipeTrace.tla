---------------------------- MODULE ToolPipeTrace ----------------------------
(* C17: the file a run of the tool wrote holds the surfaces that the program  *)
(* of its command line made of the library (P.data), whatever the number of   *)
(* jobs; and where operations only move texels and channels, exactly them.    *)
EXTENDS ToolFile, ToolPipeline, TraceFrame

World == JsonDeserialize(IOEnv.WORLD)
Disk == [files |-> World.files, lists |-> World.lists, miplists |-> World.miplists, exact |-> World.exact, outs |-> P.outs, ext |-> P.ext]
Made == LET n == Len(P.data) IN [x \in {<<P.data[i].f, P.data[i].m, P.data[i].d>> : i \in 1..n} |->
                                 P.data[CHOOSE i \in 1..n : <<P.data[i].f, P.data[i].m, P.data[i].d>> = x].b]
RunWrong ==
    LET a == Parse(E.toks, Disk) t == TextureOf(a, Disk) type == FileTypeOf(a, Disk) IN
    IF ExitCode(a, Disk) # 0 THEN {"not a command line of the model"}
    ELSE IF E.rc # 0 \/ Len(E.files) # 1 THEN {<<"exit code", E.rc>>}
    ELSE {<<"file", x>> : x \in FileWrong(E.files[1].b, t, type, Made)}
         \cup (LET own == SurfacesIn(E.files[1].b, t, type) IN
               {<<"moved", s>> : s \in {x \in DOMAIN own : LET f == SourceOf(a, x) IN f # "" /\ Exact(a, Disk, f, x[2]) /\ ~Agrees(own[x], ExactBytes(a, Disk, f, x[2]))}})
Run == IsOp("run") /\ LET w == RunWrong IN Judge(w = {}, [wrong |-> w])
Other == More /\ ~skip /\ E.op \notin {"case", "run"} /\ Reject("unexpected event")

Init == FrameInit
Next == NewCase \/ SkipStep \/ Run \/ Other
Spec == Init /\ [][Next]_frame
=============================================================================
