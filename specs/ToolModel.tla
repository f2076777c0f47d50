------------------------------ MODULE ToolModel ------------------------------
(* C16: command lines put together from groups of options (CATALOG: what      *)
(* kind each group is, its tokens, whether its place matters, and Env).       *)
(* Decides on the grammar itself that groups of different kinds whose place   *)
(* doesn't matter can be exchanged, and gives the command lines that are      *)
(* replayed with the real tool.                                               *)
EXTENDS ToolGrammar, Json, IOUtils

Catalog == JsonDeserialize(IOEnv.CATALOG)
Groups == Catalog.groups
Env0 == Catalog.env
CONSTANTS Depth0

VARIABLES hist        \* the groups of the command line, in order
Ids == 1..Len(Groups)
OfKind(k) == {i \in Ids : Groups[i].kind = k}
Inputs == {i \in OfKind("input") : ~Groups[i].defect}
Outputs == {i \in OfKind("output") : ~Groups[i].defect}
Formats0 == {i \in OfKind("format") : ~Groups[i].defect}
Extras == {i \in Ids : Groups[i].kind \notin {"input", "output", "format"} /\ ~Groups[i].defect}
Defects == {i \in Ids : Groups[i].defect}

Words(h) == Cat([i \in 1..Len(h) |-> Groups[h[i]].toks])
Exchange(h, i) == [h EXCEPT ![i] = h[i + 1], ![i + 1] = h[i]]
Independent(g, k) == Groups[g].free /\ Groups[k].free /\ Groups[g].kind # Groups[k].kind
MeaningOf(h) == Meaning(Parse(Words(h), Env0), Env0)

\* the order of independent groups doesn't matter
\* (a defective group before them may take their first word as an argument)
OrderFree == (\A j \in 1..(Len(hist) - 2) : ~Groups[hist[j]].defect) => \A i \in 1..(Len(hist) - 1) : Independent(hist[i], hist[i + 1]) => MeaningOf(hist) = MeaningOf(Exchange(hist, i))
\* a group that only adds to a valid command line keeps it valid (Groups[g].safe)
Harmless == Len(hist) # 4 \/ (Groups[hist[4]].safe =>
            LET c == MeaningOf(SubSeq(hist, 1, 3)).code IN c # 1 => MeaningOf(hist).code = c)
\* everything has exactly one outcome
Total == MeaningOf(hist).code \in 0..3

\* every extra or defective group behind a few command lines
Init == hist \in {b \o <<>> : b \in {Catalog.bases[i] : i \in 1..Len(Catalog.bases)}}
\* (pairs of groups: one in Catalog.every, which one is up to the seed)
Wanted(h, g) == IF Len(h) < 4 THEN TRUE ELSE (h[1]*7 + h[4]*31 + g) % Catalog.every = Catalog.seed
Next == Len(hist) < Depth0 /\ \E g \in Extras \cup Defects : Wanted(hist, g) /\ hist' = Append(hist, g)
Spec == Init /\ [][Next]_hist

\* long ones, each extra at any place
Some(S) == RandomElement(IF Len(hist) >= 0 THEN S ELSE {})     \* (not a constant for TLC)
Insert(h, k, g) == SubSeq(h, 1, k) \o <<g>> \o SubSeq(h, k + 1, Len(h))
Kinds(h) == {Groups[h[i]].kind : i \in 1..Len(h)}
NextSim == IF hist = <<>> THEN hist' = <<Some(Inputs)>>
           ELSE IF Len(hist) = 1 THEN hist' = Insert(hist, Some(0..1), Some(Outputs))
           ELSE IF Len(hist) = 2 THEN hist' = Insert(hist, Some(0..2), Some(Formats0))
           ELSE LET fresh == {g \in Extras : Groups[g].kind \notin Kinds(hist)}
                    g == IF Defects # {} /\ Some(1..14) = 1 /\ ~\E i \in 1..Len(hist) : Groups[hist[i]].defect THEN Some(Defects) ELSE Some(fresh)
                IN  hist' = Insert(hist, Some(0..Len(hist)), g)
SpecSim == hist = <<>> /\ [][NextSim]_hist

Emit == (Len(hist) # Depth0 /\ (Depth0 # 5 \/ Len(hist) = 3)) \/ PrintT("@@GEN " \o ToJson([h |-> hist, code |-> MeaningOf(hist).code]))
=============================================================================
