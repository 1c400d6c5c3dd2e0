------------------------------ MODULE Generate ------------------------------
(* Generating files from templates (G01).                                    *)
(*                                                                           *)
(* State: the configuration files (layers, weakest first) and how far they   *)
(* are merged, the templates, the pairs of template and entry that wait, the *)
(* elements that wait, the files of the output directory, and what failed.   *)
(* A value is abstracted to who set it: layer i, the entry itself, a         *)
(* parameter file or the command line. The result is also said at once:      *)
(* nearest mention for the configuration, Wanted for the files.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Random, MaxLayers, Params, MaxEntries, Files
VARIABLES pc, layers, cli, files, pre, at, acc, todo, elems, fs, errs
vars == <<pc, layers, cli, files, pre, at, acc, todo, elems, fs, errs>>
R(S) == RandomElement(S)
P(pct) == R(1..100) <= pct
None == 0  Null == -1  Entry == 101  File == 102  Direct == 103  Toml == 104
Words == 1..2

(* --------------------------- the configuration ------------------------- *)
\* A layer: p how each parameter is mentioned ("-", "null", "set"); text maps tm (when tmOn), acronyms ac (acOn),
\* comment formats cf, default format df (0 not mentioned); the fields trim, lstrip, keep of whitespace control
\* (0 not mentioned, 1 false, 2 true); the delimiters cs and ce; the entries tpl (when tplOn).
NoLayer == [p |-> [x \in 1..Params |-> "-"], tmOn |-> FALSE, tm |-> {}, acOn |-> FALSE, ac |-> {}, cf |-> FALSE, df |-> 0, trim |-> 0, lstrip |-> 0, keep |-> 0,
            cs |-> FALSE, ce |-> FALSE, tplOn |-> FALSE, tpl |-> <<>>]
Start == [p |-> [x \in 1..Params |-> None], tm |-> None, ac |-> None, cf |-> None, df |-> 0, trim |-> 0, lstrip |-> 0, keep |-> 0, cs |-> None, ce |-> None, tpl |-> None]
Override(c, l, i) == [
  p |-> [x \in 1..Params |-> CASE l.p[x] = "-" -> c.p[x] [] l.p[x] = "null" -> None [] OTHER -> i],
  tm |-> IF l.tmOn THEN i ELSE c.tm, ac |-> IF l.acOn THEN i ELSE c.ac, cf |-> IF l.cf THEN i ELSE c.cf, df |-> IF l.df # 0 THEN l.df ELSE c.df,
  trim |-> IF l.trim # 0 THEN l.trim ELSE c.trim, lstrip |-> IF l.lstrip # 0 THEN l.lstrip ELSE c.lstrip, keep |-> IF l.keep # 0 THEN l.keep ELSE c.keep,
  cs |-> IF l.cs THEN i ELSE c.cs, ce |-> IF l.ce THEN i ELSE c.ce, tpl |-> IF l.tplOn THEN i ELSE c.tpl]
\* at once: the strongest layer that mentions it
Strongest(ls, T(_)) == LET s == {i \in DOMAIN ls : T(ls[i])} IN IF s = {} THEN None ELSE Max(s)
Nearest(ls) == [
  p |-> [x \in 1..Params |-> LET i == Strongest(ls, LAMBDA l : l.p[x] # "-") IN IF i = None \/ ls[i].p[x] = "null" THEN None ELSE i],
  tm |-> Strongest(ls, LAMBDA l : l.tmOn), ac |-> Strongest(ls, LAMBDA l : l.acOn), cf |-> Strongest(ls, LAMBDA l : l.cf),
  df |-> LET i == Strongest(ls, LAMBDA l : l.df # 0) IN IF i = None THEN 0 ELSE ls[i].df,
  trim |-> LET i == Strongest(ls, LAMBDA l : l.trim # 0) IN IF i = None THEN 0 ELSE ls[i].trim,
  lstrip |-> LET i == Strongest(ls, LAMBDA l : l.lstrip # 0) IN IF i = None THEN 0 ELSE ls[i].lstrip,
  keep |-> LET i == Strongest(ls, LAMBDA l : l.keep # 0) IN IF i = None THEN 0 ELSE ls[i].keep,
  cs |-> Strongest(ls, LAMBDA l : l.cs), ce |-> Strongest(ls, LAMBDA l : l.ce), tpl |-> Strongest(ls, LAMBDA l : l.tplOn)]
Entries(c) == IF c.tpl = None THEN <<>> ELSE layers[c.tpl].tpl
\* the project file adds text maps and acronyms, and wins over those of the same name
TextMaps(c) == [w \in Words |-> IF cli.tomlTm /\ w \in cli.tm THEN Toml ELSE IF c.tm # None /\ w \in layers[c.tm].tm THEN c.tm ELSE None]
Acronyms(c) == [w \in Words |-> IF cli.tomlAc /\ w \in cli.ac THEN Toml ELSE IF c.ac # None /\ w \in layers[c.ac].ac THEN c.ac ELSE None]
Look(c) == [tm |-> TextMaps(c), ac |-> Acronyms(c), cf |-> c.cf, df |-> c.df, trim |-> c.trim, lstrip |-> c.lstrip, keep |-> c.keep, cs |-> c.cs, ce |-> c.ce]
\* the parameters that one entry sees
Seen(c, e) == [x \in 1..Params |-> CASE x \in cli.n -> Null [] x \in cli.d -> Direct [] x \in cli.f -> File
  [] e.p[x] = "set" -> Entry [] e.p[x] = "null" -> Null [] OTHER -> c.p[x]]

(* ------------------------------ the templates -------------------------- *)
\* A template: its place (1..6) and so its base name and the patterns it matches; tn whether it names its file itself;
\* bad: when it fails.
Base == <<1, 2, 1, 3, 4, 2>>   \* a, b, sub/a, sub/c.md, deep/x/y, sub/deep/b
Pattern == [one |-> {1}, anyA |-> {1, 3}, all |-> 1..6, sub |-> {3, 4, 6}, alt |-> {1, 2}, cls |-> {1, 2}, y |-> {5}, subOne |-> {4}, deep |-> {5, 6}, nothing |-> {}]
\* An entry: pat, mode, filter fil with fk, condition when with wk, file name nm with nk, escape esc, its own parameters p.
Matches(f, e) == f.place \in Pattern[e.pat]
One(a) == [t |-> "one", v |-> <<a>>]
List(k) == [t |-> "list", v |-> [i \in 1..k |-> "e" \o ToString(i)]]
NoValue == [t |-> "null", v |-> <<>>]
Failed == [t |-> "err", v |-> <<>>]
ParamAtom(s) == "p" \o ToString(s)
Filtered(e, seen) ==
  CASE e.fil = "dot" -> One("reg") [] e.fil = "str" -> One("s") [] e.fil = "null" -> NoValue [] e.fil = "list" -> List(e.fk)
    [] e.fil = "stream" -> IF e.fk = 1 THEN One("e1") ELSE List(e.fk)
    [] e.fil = "var" -> IF seen[e.fk] = None THEN Failed ELSE IF seen[e.fk] = Null THEN NoValue ELSE One(ParamAtom(seen[e.fk]))
    [] e.fil = "pvar" -> IF seen[e.fk] \in {None, Null} THEN NoValue ELSE One(ParamAtom(seen[e.fk]))
    [] OTHER -> Failed
\* "yes", "no" or "err"
Holds(e, seen) == CASE e.when \in {"-", "true"} -> "yes" [] e.when = "false" -> "no"
  [] e.when = "set" -> IF seen[e.wk] \in {None, Null} THEN "no" ELSE "yes"
  [] e.when = "direct" -> IF seen[e.wk] = None THEN "err" ELSE IF seen[e.wk] = Direct THEN "yes" ELSE "no"
  [] OTHER -> "err"
\* the values one application is rendered for
Elements(e, r) ==
  IF e.mode = "each" /\ r.t = "list" THEN {One(r.v[i]) : i \in DOMAIN r.v}
  ELSE IF e.mode = "single" /\ (r.t = "null" \/ (r.t = "list" /\ r.v = <<>>)) THEN {} ELSE {r}
Fails(f, e, x) == f.bad = "syntax" \/ (f.bad = "e2" /\ x.t = "one" /\ x.v[1] = "e2") \/ e.nm = "bad"
Short(x) == IF x.t = "one" /\ x.v[1] # "reg" THEN x.v[1] ELSE "n"
PathOf(f, e, x, seen) ==
  CASE f.tn = "x" -> "t/" \o Short(x) [] f.tn = "c" -> "t/const"
    [] e.nm = "c" -> "o/" \o ToString(e.nk) [] e.nm = "x" -> "x/y/" \o Short(x) [] e.nm = "p" -> "q/" \o ToString(IF seen[e.nk] = Null THEN None ELSE seen[e.nk])
    [] OTHER -> "b" \o ToString(Base[f.place])
Text(f, e, x, seen) == [f |-> f.place, x |-> x, seen |-> seen, esc |-> e.esc]

(* ------------------------- the files, at once -------------------------- *)
Unmatched(c) == \E i \in DOMAIN Entries(c) : \A j \in DOMAIN files : ~Matches(files[j], Entries(c)[i])
Pairs(c) == {<<j, i>> \in (DOMAIN files) \X (DOMAIN Entries(c)) : Matches(files[j], Entries(c)[i])}
Renders(c, q) == LET e == Entries(c)[q[2]] seen == Seen(c, e) IN
  IF Holds(e, seen) # "yes" \/ Filtered(e, seen).t = "err" THEN {} ELSE Elements(e, Filtered(e, seen))
Wanted(c) == IF Unmatched(c) THEN {} ELSE UNION {
  LET f == files[q[1]] e == Entries(c)[q[2]] seen == Seen(c, e) IN {<<PathOf(f, e, x, seen), Text(f, e, x, seen)>> : x \in {y \in Renders(c, q) : ~Fails(f, e, y)}} : q \in Pairs(c)}
Wrong(c) == \/ Unmatched(c)
  \/ \E q \in Pairs(c) : LET e == Entries(c)[q[2]] seen == Seen(c, e) IN
       Holds(e, seen) = "err" \/ (Holds(e, seen) = "yes" /\ Filtered(e, seen).t = "err") \/ \E x \in Renders(c, q) : Fails(files[q[1]], e, x)

(* -------------------------- the files, in steps ------------------------ *)
\* fs: the last text written at each path; pre: the paths that were there before.
Begin == pc = "merge" /\ at > Len(layers) /\ ~Random /\ UNCHANGED <<layers, cli, files, pre, at, acc, fs, elems>>
  /\ IF Unmatched(acc) THEN pc' = "end" /\ todo' = {} /\ errs' = {"unmatched"} ELSE pc' = "run" /\ todo' = Pairs(acc) /\ errs' = {}
Merge == pc = "merge" /\ at <= Len(layers) /\ acc' = Override(acc, layers[at], at) /\ at' = at + 1 /\ UNCHANGED <<pc, layers, cli, files, pre, todo, elems, fs, errs>>
Apply == pc = "run" /\ \E q \in todo : /\ todo' = todo \ {q} /\ UNCHANGED <<pc, layers, cli, files, pre, at, acc, fs>>
  /\ LET e == Entries(acc)[q[2]] seen == Seen(acc, e) h == Holds(e, seen) r == Filtered(e, seen) IN
       IF h = "err" \/ (h = "yes" /\ r.t = "err") THEN errs' = errs \cup {"apply"} /\ elems' = elems
       ELSE errs' = errs /\ elems' = IF h = "no" THEN elems ELSE elems \cup {<<q, x>> : x \in Elements(e, r)}
Render == pc = "run" /\ \E t \in elems : /\ elems' = elems \ {t} /\ UNCHANGED <<pc, layers, cli, files, pre, at, acc, todo>>
  /\ LET f == files[t[1][1]] e == Entries(acc)[t[1][2]] seen == Seen(acc, e) x == t[2] IN
       IF Fails(f, e, x) THEN errs' = errs \cup {"render"} /\ fs' = fs
       ELSE errs' = errs /\ LET p == PathOf(f, e, x, seen) IN fs' = {w \in fs : w[1] # p} \cup {<<p, Text(f, e, x, seen)>>}
Finish == pc = "run" /\ todo = {} /\ elems = {} /\ pc' = "end" /\ UNCHANGED <<layers, cli, files, pre, at, acc, todo, elems, fs, errs>>

(* ------------------------------- random -------------------------------- *)
RMention(z_) == [x \in 1..Params |-> LET k == R(1..10) IN IF k <= 5 THEN "-" ELSE IF k = 6 THEN "null" ELSE "set"]
REntry(z_) == LET w == R(1..100) f == R(1..100) IN TLCEval(
  [pat |-> R((DOMAIN Pattern) \ (IF P(97) THEN {"nothing"} ELSE {})), mode |-> R({"single", "each"}),
   fil |-> IF f <= 25 THEN "dot" ELSE IF f <= 60 THEN "list" ELSE IF f <= 75 THEN "stream" ELSE IF f <= 96 THEN R({"str", "null", "pvar", "var"}) ELSE R({"bad", "fail"}),
   fk |-> IF f > 75 THEN R(1..Params) ELSE R(0..4),
   when |-> IF w <= 50 THEN "-" ELSE IF w <= 65 THEN "true" ELSE IF w <= 75 THEN "false" ELSE IF w <= 90 THEN "set" ELSE IF w <= 96 THEN "direct" ELSE R({"one", "str", "none", "two", "bad"}),
   wk |-> R(1..Params), nm |-> IF P(3) THEN "bad" ELSE R({"-", "c", "x", "p"}), nk |-> R(1..Params), esc |-> R({"", "", "html", "json", "none"}),
   p |-> RMention(0)])
RLayer(z_) == LET on == P(40) tm == P(40) ac == P(35) IN TLCEval(
  [p |-> IF P(20) THEN [x \in 1..Params |-> "-"] ELSE RMention(0), tmOn |-> tm, tm |-> IF tm THEN R(SUBSET Words) ELSE {}, acOn |-> ac, ac |-> IF ac THEN R(SUBSET Words) ELSE {},
   cf |-> P(30), df |-> IF P(70) THEN 0 ELSE R(1..2), trim |-> IF P(60) THEN 0 ELSE R(1..2), lstrip |-> IF P(60) THEN 0 ELSE R(1..2), keep |-> IF P(60) THEN 0 ELSE R(1..2),
   cs |-> P(20), ce |-> P(20), tplOn |-> on, tpl |-> IF ~on \/ P(4) THEN <<>> ELSE [i \in 1..R(1..MaxEntries) |-> REntry(0)]])
RCli(z_) == TLCEval([d |-> IF P(60) THEN {} ELSE R(SUBSET (1..Params)), n |-> IF P(85) THEN {} ELSE R(SUBSET (1..Params)), f |-> IF P(70) THEN {} ELSE R(SUBSET (1..Params)),
   tomlTm |-> P(30), tm |-> R(SUBSET Words), tomlAc |-> P(30), ac |-> R(SUBSET Words)])
RFiles(z_) == LET s == SetToSeq(IF P(60) THEN 1..Files ELSE R(SUBSET (1..Files))) IN
  TLCEval([j \in DOMAIN s |-> [place |-> s[j], tn |-> IF P(80) THEN "-" ELSE R({"x", "c"}), bad |-> IF P(94) THEN "-" ELSE R({"syntax", "e2", "e2"})]])
AllPaths == {"b1", "b2", "b3", "b4", "o/1", "o/2", "x/y/n", "x/y/e1", "x/y/e2", "x/y/s", "t/const", "t/e1", "q/0", "q/103", "q/1", "other", "x/other"}
InitR == /\ pc = "make" /\ layers = <<>> /\ cli = [d |-> {}, n |-> {}, f |-> {}, tomlTm |-> FALSE, tm |-> {}, tomlAc |-> FALSE, ac |-> {}] /\ files = <<>> /\ pre = {}
  /\ at = 1 /\ acc = Start /\ todo = {} /\ elems = {} /\ fs = {} /\ errs = {}
MakeR == /\ Random /\ pc = "make" /\ pc' = "merge" /\ UNCHANGED <<at, acc, todo, elems, fs, errs>>
  /\ \E n \in {R(1..MaxLayers)} : \E ls \in {TLCEval([i \in 1..n |-> LET l == RLayer(0) IN IF i = n /\ ~l.tplOn /\ P(85) THEN [l EXCEPT !.tplOn = TRUE, !.tpl = [k \in 1..R(1..MaxEntries) |-> REntry(0)]] ELSE l])} : layers' = ls
  /\ \E c \in {RCli(0)}, f \in {RFiles(0)}, s \in {TLCEval({x \in AllPaths : P(25)})} : cli' = c /\ files' = f /\ pre' = s
EndR == /\ Random /\ pc = "merge" /\ at > Len(layers) /\ pc' = "end" /\ UNCHANGED <<layers, cli, files, pre, at, acc, todo, elems, fs, errs>>
  /\ PrintT("@@" \o ToJson([layers |-> layers, cli |-> cli, files |-> files, pre |-> pre, look |-> Look(acc), src |-> acc.tpl,
                            wanted |-> [i \in DOMAIN SetToSeq(Wanted(acc)) |-> LET w == SetToSeq(Wanted(acc))[i] IN [path |-> w[1], text |-> w[2]]], wrong |-> Wrong(acc), unmatched |-> Unmatched(acc)]))

(* ----------------------------- exhaustive ------------------------------ *)
E0 == [pat |-> "alt", mode |-> "each", fil |-> "list", fk |-> 2, when |-> "-", wk |-> 1, nm |-> "-", nk |-> 1, esc |-> "", p |-> [x \in 1..Params |-> "-"]]
Pool == {E0, [E0 EXCEPT !.nm = "x"], [E0 EXCEPT !.mode = "single", !.nm = "c"], [E0 EXCEPT !.pat = "one", !.fil = "dot"], [E0 EXCEPT !.fil = "pvar", !.fk = 1, !.nm = "p"],
  [E0 EXCEPT !.fil = "null", !.mode = "single"], [E0 EXCEPT !.fil = "null"], [E0 EXCEPT !.when = "set", !.nm = "x"], [E0 EXCEPT !.when = "one"], [E0 EXCEPT !.fil = "var", !.fk = 1],
  [E0 EXCEPT !.fk = 0, !.mode = "single"], [E0 EXCEPT !.pat = "y"], [E0 EXCEPT !.p[1] = "set", !.nm = "p"], [E0 EXCEPT !.p[1] = "null", !.nm = "p"], [E0 EXCEPT !.nm = "bad"]}
T0 == [place |-> 1, tn |-> "-", bad |-> "-"]
MakeA == /\ ~Random /\ pc = "make" /\ pc' = "merge" /\ UNCHANGED <<at, acc, todo, elems, fs, errs, pre>>
  /\ \/ \E s \in [1..MaxEntries -> Pool], m \in {"-", "set"}, d \in SUBSET {1}, f2 \in {[T0 EXCEPT !.place = 2], [T0 EXCEPT !.place = 2, !.tn = "c"], [T0 EXCEPT !.place = 2, !.bad = "e2"]} :
          layers' = <<[NoLayer EXCEPT !.p = [x \in 1..Params |-> m], !.tplOn = TRUE, !.tpl = s]>> /\ cli' = [cli EXCEPT !.d = d] /\ files' = <<T0, f2>>
     \/ \E n \in 1..MaxLayers : \E ls \in [1..n -> {[NoLayer EXCEPT !.p[1] = a, !.tmOn = b, !.tm = IF b THEN {1} ELSE {}, !.keep = k, !.cs = b, !.ce = (k = 1), !.tplOn = t, !.tpl = IF t THEN <<[E0 EXCEPT !.nm = "p"]>> ELSE <<>>] :
                   a \in {"-", "null", "set"}, b \in BOOLEAN, k \in 0..2, t \in BOOLEAN}] :
          layers' = ls /\ files' = <<T0>> /\ \E c \in {[cli EXCEPT !.tomlTm = TRUE, !.tm = {2}], [cli EXCEPT !.f = {1}]} : cli' = c
Init == InitR
Next == Merge \/ Begin \/ Apply \/ Render \/ Finish \/ MakeR \/ EndR \/ MakeA
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
\* the nearest mention wins
Merged == pc \in {"run", "end"} => acc = Nearest(layers)
\* whatever the order, every path that is wanted has one of its texts, and no other path is written
Ends == pc = "end" /\ ~Random => /\ {w[1] : w \in fs} = {w[1] : w \in Wanted(acc)} /\ fs \subseteq Wanted(acc) /\ (errs # {}) = Wrong(acc)
\* at any time: only wanted texts
Sound == pc = "run" => fs \subseteq Wanted(acc)
\* a command-line parameter is what every template sees
Strong == \A i \in DOMAIN Entries(acc) : \A x \in cli.d \ cli.n : Seen(acc, Entries(acc)[i])[x] = Direct
=============================================================================
