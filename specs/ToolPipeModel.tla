---------------------------- MODULE ToolPipeModel ----------------------------
(* C17: the command lines of ToolModel with their programs.  Decides that the *)
(* order of the options doesn't change the program and that every program     *)
(* has the documented order; gives the programs that are run against the tool.*)
EXTENDS ToolModel, ToolPipeline
LOCAL INSTANCE SequencesExt

ArgsOf(h) == Parse(Words(h), Env0)
\* custom mips are kept by position, not in order
ProgramOf(h) == LET a == ArgsOf(h) IN
    IF ExitCode(a, Env0) # 0 THEN <<>> ELSE Program([a EXCEPT !.customs = SetToSortSeq({@[i] : i \in 1..Len(@)}, LAMBDA x, y : x.level*1000 + x.depth*10 + x.face < y.level*1000 + y.depth*10 + y.face)], Env0)
\* (the long ones only when complete)
SameProgram == (Depth0 = 5 \/ Len(hist) = Depth0) => \A i \in 1..(Len(hist) - 1) : Independent(hist[i], hist[i + 1]) => ProgramOf(hist) = ProgramOf(Exchange(hist, i))
DocumentedOrder == LET a == ArgsOf(hist) IN ExitCode(a, Env0) = 0 =>
    \A i \in 1..Len(a.imgs) : InOrder(Steps(a, Env0, a.imgs[i], 0), Documented)
\* the image that a program makes has the size of the texture
RECURSIVE SizeAfter(_, _, _)
SizeAfter(s, w, h) == IF s = <<>> THEN <<w, h>>
    ELSE IF s[1].do = "resize" THEN SizeAfter(Tail(s), s[1].w, s[1].h)
    ELSE IF s[1].do = "rotate" /\ s[1].turns % 2 = 1 THEN SizeAfter(Tail(s), h, w) ELSE SizeAfter(Tail(s), w, h)
RightSize == LET a == ArgsOf(hist) IN ExitCode(a, Env0) = 0 =>
    LET After(f, m) == SizeAfter(Steps(a, Env0, f, m), Env0.files[f].w, Env0.files[f].h) IN
    /\ \A i \in 1..Len(a.imgs) : After(a.imgs[i], 0) = <<TexW(a, Env0), TexH(a, Env0)>>
    /\ \A i \in 1..Len(a.customs) : LET c == a.customs[i] IN After(c.file, c.level) = <<Halved(TexW(a, Env0), c.level), Halved(TexH(a, Env0), c.level)>>
ASSUME MovesAgree

EmitProgram == (Len(hist) # Depth0 /\ (Depth0 # 5 \/ Len(hist) = 3)) \/
    LET p == ProgramOf(hist) IN p = <<>> \/ PrintT("@@GEN " \o ToJson([h |-> hist, p |-> p]))
=============================================================================
