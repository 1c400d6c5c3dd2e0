------------------------------ MODULE Markdown ------------------------------
(* Updating markdown files from a registry (M01).                            *)
(*                                                                           *)
(* State: a directory of files (sequences of lines), the registry (a version *)
(* for each definition, 0 when absent), and the outcome of the last command. *)
(* Users edit lines and definitions and run updates and dry runs. The update *)
(* of one file is said twice: by its blocks (Upd: the first header, the      *)
(* first trailer of its kind after it, the rest) and as a scanner that reads *)
(* line by line (Scan). A line: k its kind, a and b parameters:              *)
(*   text v | sem id args | wea query template | endsem | endwea |           *)
(*   gen header content (what a generated snippet consists of)               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization
CONSTANTS Random, Ids, Vers, Texts, MaxLen, Files, Steps
VARIABLES pc, v2, files, reg, log, scan
vars == <<pc, v2, files, reg, log, scan>>
R(S) == RandomElement(S)
P(pct) == R(1..100) <= pct

Ln(k, a, b) == [k |-> k, a |-> a, b |-> b]
Gen(h, c) == [k |-> "gen", a |-> h.a, b |-> h.b, of |-> h.k, c |-> c]
IsHead(l) == l.k \in {"sem", "wea"}
Closes(l, h) == (h.k = "sem" /\ l.k = "endsem") \/ (h.k = "wea" /\ l.k = "endwea")
\* can the snippet be generated? id 0 is never defined; queries and templates 0 do not work
Renders(h, g) == IF h.k = "sem" THEN h.a # 0 /\ g[h.a] # 0 ELSE v2 /\ h.a # 0 /\ h.b # 0
\* what a query depends on: the text of definition 4, or which of definitions 1 and 3 there are
Asked(q, g) == IF Ids < 4 THEN g ELSE IF q = 1 THEN <<g[4]>> ELSE <<Min({g[1], 1}), Min({g[3], 1})>>
Snippet(h, g) == <<Gen(h, IF h.k = "sem" THEN <<g[h.a]>> ELSE Asked(h.a, g))>>

(* ------------------------------ declarative ---------------------------- *)
Bad == [ok |-> FALSE, lines |-> <<>>]
RECURSIVE Upd(_, _)
Upd(f, g) ==
  LET hs == {i \in DOMAIN f : IsHead(f[i])} IN
  IF hs = {} THEN [ok |-> TRUE, lines |-> f]
  ELSE LET h == Min(hs) ts == {j \in DOMAIN f : j > h /\ Closes(f[j], f[h])} IN
    IF ts = {} \/ ~Renders(f[h], g) THEN Bad
    ELSE LET t == Min(ts) rest == Upd(SubSeq(f, t + 1, Len(f)), g) IN
      IF ~rest.ok THEN Bad ELSE [ok |-> TRUE, lines |-> SubSeq(f, 1, h) \o Snippet(f[h], g) \o <<f[t]>> \o rest.lines]

(* A file: t is "md", "other" (not a markdown file) or "bin" (a markdown file that is not text),  *)
(* crlf and fin how its lines end. A rewritten file has plain line ends.                          *)
File(t, ls, crlf, fin) == [t |-> t, lines |-> ls, crlf |-> crlf, fin |-> fin]
Ends(f) == f.fin \/ f.lines = <<>>
Can(f, g) == f.t = "other" \/ (f.t = "md" /\ Upd(f.lines, g).ok)
Fresh(f, g) == f.t = "other" \/ (f.t = "md" /\ Upd(f.lines, g).ok /\ Upd(f.lines, g).lines = f.lines /\ Ends(f))
Written(f, g) == IF f.t # "md" \/ ~Can(f, g) \/ Fresh(f, g) THEN f ELSE File("md", Upd(f.lines, g).lines, FALSE, TRUE)

(* ------------------------------ behaviours ----------------------------- *)
None == [pos |-> 0, mode |-> "none", out |-> <<>>, err |-> FALSE]
Init == /\ pc = "files" /\ v2 \in (IF Random THEN BOOLEAN ELSE {TRUE}) /\ files = <<>> /\ log = <<>> /\ scan = None
        /\ reg = [i \in 1..Ids |-> IF Random THEN R(Vers) ELSE 0]
RText(z_) == Ln("text", R(0..Texts), 0)
RSem(z_) == Ln("sem", IF P(4) THEN 0 ELSE IF P(85) /\ \E i \in 1..Ids : reg[i] # 0 THEN R({i \in 1..Ids : reg[i] # 0}) ELSE R(1..Ids), R(0..3))
RWea(z_) == Ln("wea", IF P(5) THEN 0 ELSE R(1..2), IF P(5) THEN 0 ELSE R(1..2))
RLine(z_) == CASE P(60) -> RText(0) [] P(50) -> R({Ln("endsem", 0, 0), Ln("endwea", 0, 0)}) [] P(70) -> RSem(0) [] OTHER -> RWea(0)
RBody(z_) == IF P(8) THEN <<RLine(0)>> ELSE IF P(25) THEN <<>> ELSE <<RText(0)>> \o (IF P(30) THEN <<RText(0)>> ELSE <<>>)
RBlock(z_) == LET sem == ~v2 \/ P(70) IN
  <<IF sem THEN RSem(0) ELSE RWea(0)>> \o RBody(0) \o (IF P(3) THEN <<>> ELSE <<Ln(IF sem # P(3) THEN "endsem" ELSE "endwea", 0, 0)>>)
RSegment(z_) == CASE P(45) -> <<RText(0)>> [] P(90) -> RBlock(0) [] OTHER -> <<RLine(0)>>
Last1 == files[Len(files)]
Entry(op, n, ok, fs, g) == [op |-> op, n |-> n, ok |-> ok, files |-> fs, reg |-> g]
NewFileR == /\ Random /\ pc = "files" /\ Len(files) < Files
  /\ \E f \in {File(IF P(85) THEN "md" ELSE IF P(80) THEN "other" ELSE "bin", <<>>, P(25), P(85))} : files' = Append(files, f)
  /\ UNCHANGED <<pc, v2, reg, log, scan>>
GrowR == /\ Random /\ pc = "files" /\ files # <<>> /\ Len(Last1.lines) < MaxLen
  /\ \E s \in {RSegment(0)} : files' = [files EXCEPT ![Len(files)].lines = @ \o s]
  /\ UNCHANGED <<pc, v2, reg, log, scan>>
ReadyR == /\ Random /\ pc = "files" /\ Len(files) = Files /\ (P(25) \/ Len(Last1.lines) >= MaxLen) /\ pc' = "run" /\ log' = <<Entry("start", 0, TRUE, files, reg)>> /\ UNCHANGED <<v2, files, reg, scan>>

Log(op, n, ok, fs, g) == log' = Append(log, Entry(op, n, ok, fs, g))
Update == /\ pc = "run" /\ Len(log) < Steps
  /\ LET fs == [i \in DOMAIN files |-> Written(files[i], reg)] IN files' = fs /\ Log("update", 0, \A i \in DOMAIN files : Can(files[i], reg), fs, reg)
  /\ UNCHANGED <<pc, v2, reg, scan>>
Dry == /\ pc = "run" /\ Len(log) < Steps
  /\ Log("dry", 0, \A i \in DOMAIN files : Fresh(files[i], reg), files, reg)
  /\ UNCHANGED <<pc, v2, files, reg, scan>>
RegR == /\ Random /\ pc = "run" /\ Len(log) < Steps - 1
  /\ \E i \in {R(1..Ids)} : \E x \in {R(Vers)} : LET g == [reg EXCEPT ![i] = x] IN reg' = g /\ Log("reg", i, TRUE, files, g)
  /\ UNCHANGED <<pc, v2, files, scan>>
\* an edit of one file: a line added, removed or replaced, or its line ends changed
Edited(f, z_) == LET n == Len(f.lines) IN
  IF n = 0 \/ P(30) THEN LET i == R(1..(n + 1)) IN [f EXCEPT !.lines = InsertAt(@, i, RLine(0))]
  ELSE IF P(40) THEN LET i == R(1..n) IN [f EXCEPT !.lines = RemoveAt(@, i)]
  ELSE IF P(65) THEN LET i == R(1..n) IN [f EXCEPT !.lines = ReplaceAt(@, i, IF P(50) THEN RText(0) ELSE RLine(0))]
  ELSE IF P(50) THEN [f EXCEPT !.crlf = ~@] ELSE [f EXCEPT !.fin = ~@]
EditR == /\ Random /\ pc = "run" /\ Len(log) < Steps - 1
  /\ \E i \in {R(DOMAIN files)} : \E f \in {Edited(files[i], 0)} : LET fs == [files EXCEPT ![i] = f] IN files' = fs /\ Log("edit", i, TRUE, fs, reg)
  /\ UNCHANGED <<pc, v2, reg, scan>>
Finish == /\ Random /\ pc = "run" /\ Len(log) = Steps /\ pc' = "end" /\ PrintT("@@" \o ToJson([v2 |-> v2, log |-> log]))
  /\ UNCHANGED <<v2, files, reg, log, scan>>

\* exhaustive: any short file, scanned line by line
Alphabet == {Ln("text", 0, 0), Ln("sem", 1, 0), Ln("sem", 0, 0), Ln("wea", 1, 1), Ln("endsem", 0, 0), Ln("endwea", 0, 0)}
NewFileA == /\ ~Random /\ pc = "files" /\ files = <<>> /\ \E b \in BOOLEAN : files' = <<File("md", <<>>, FALSE, b)>>
  /\ \E x \in Vers : reg' = [i \in 1..Ids |-> x] /\ UNCHANGED <<pc, v2, log, scan>>
GrowA == /\ ~Random /\ pc = "files" /\ files # <<>> /\ Len(Last1.lines) < MaxLen /\ \E l \in Alphabet : files' = [files EXCEPT ![1].lines = Append(@, l)]
  /\ UNCHANGED <<pc, v2, reg, log, scan>>
ReadyA == ~Random /\ pc = "files" /\ files # <<>> /\ pc' = "scan" /\ UNCHANGED <<v2, files, reg, log, scan>>

(* ------------------------------- scanner ------------------------------- *)
Scan == /\ pc = "scan" /\ ~scan.err /\ scan.pos < Len(files[1].lines)
  /\ LET l == files[1].lines[scan.pos + 1] s == [scan EXCEPT !.pos = @ + 1] IN
     scan' = (IF scan.mode = "none"
              THEN IF ~IsHead(l) THEN [s EXCEPT !.out = Append(@, l)]
                   ELSE IF ~Renders(l, reg) THEN [s EXCEPT !.err = TRUE] ELSE [s EXCEPT !.out = Append(@, l) \o Snippet(l, reg), !.mode = l.k]
              ELSE IF Closes(l, Ln(scan.mode, 0, 0)) THEN [s EXCEPT !.out = Append(@, l), !.mode = "none"] ELSE s)
  /\ UNCHANGED <<pc, v2, files, reg, log>>
EndScan == /\ pc = "scan" /\ (scan.err \/ scan.pos = Len(files[1].lines)) /\ pc' = "scanned"
  /\ scan' = [scan EXCEPT !.err = @ \/ scan.mode # "none"] /\ UNCHANGED <<v2, files, reg, log>>
Next == NewFileR \/ GrowR \/ ReadyR \/ Update \/ Dry \/ RegR \/ EditR \/ Finish \/ NewFileA \/ GrowA \/ ReadyA \/ Scan \/ EndScan
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Scanned == pc = "scanned"
ScanExact == Scanned => LET u == Upd(files[1].lines, reg) IN scan.err = ~u.ok /\ (u.ok => scan.out = u.lines)
\* for every file there is: updating twice is updating once, and then a dry run passes
All == ToSet(files)
Idempotent == \A f \in All : Written(Written(f, reg), reg) = Written(f, reg)
DryAgrees == \A f \in All : Can(f, reg) => (Fresh(f, reg) <=> Written(f, reg) = f) /\ Fresh(Written(f, reg), reg)
Untouched == \A f \in All : ~Can(f, reg) => Written(f, reg) = f
\* markers and the lines outside of blocks are kept, in order; what stands between markers is generated
Outside(ls) == LET m == FoldLeft(LAMBDA s, l : IF s.m = "none" THEN [m |-> IF IsHead(l) THEN l.k ELSE "none", o |-> Append(s.o, l)]
                                               ELSE IF Closes(l, Ln(s.m, 0, 0)) THEN [m |-> "none", o |-> Append(s.o, l)] ELSE s, [m |-> "none", o |-> <<>>], ls) IN m.o
Framed == \A f \in All : LET u == Upd(f.lines, reg) IN u.ok => Outside(u.lines) = Outside(f.lines)
=============================================================================
