------------------------------- MODULE Infer --------------------------------
(* Inferring a registry from telemetry (I01).                                *)
(*                                                                           *)
(* State: the export requests received so far, the item being read, and the  *)
(* registry accumulated from them (Observe, one attribute at a time). The    *)
(* registry is also said at once, from all the telemetry (Types, Examples,   *)
(* Spans, Metrics, Events); the invariants state that both agree.            *)
(* An observation: attribute a, class c of its value, v the value (numbers   *)
(* are counted in halves: the int 3 and the double 3.0 are both 6).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Random, Attrs, Names, Vals, Requests
VARIABLES pc, reqs, todo, acc
vars == <<pc, reqs, todo, acc>>
R(S) == RandomElement(S)
P(pct) == R(1..100) <= pct

Scalar == {"str", "int", "dbl", "bool"}
TypeOf == [str |-> "string", int |-> "int", dbl |-> "double", bool |-> "boolean", strs |-> "string[]", ints |-> "int[]", dbls |-> "double[]", bools |-> "boolean[]",
           mixed |-> "string", empty |-> "string", kv |-> "string", bytes |-> "string", unset |-> "string", novalue |-> "string"]
Max5 == 5
\* instruments a registry cannot describe
Skipped == {"summary", "none"}
InstrumentOf(i) == IF i = "exp" THEN "histogram" ELSE i
KindOf(k) == IF k = "unset" THEN "internal" ELSE k

(* ------------------------------ all at once ---------------------------- *)
\* A request: kind, groups; a group: res ("has": whether a resource is there), scopes; a scope: items.
\* An item: n name, k kind or instrument, u unit, at attributes (metrics: of all points), ev events.
\* A tally: what one item says, in the order in which it is read.
Say(sig, n, k, u, at) == [sig |-> sig, n |-> n, k |-> k, u |-> u, at |-> at]
OfItem(kind, it) ==
  CASE kind = "traces" -> <<Say("span", it.n, KindOf(it.k), 0, it.at)>> \o [i \in DOMAIN it.ev |-> Say("event", it.ev[i].n, "", 0, it.ev[i].at)]
    [] kind = "metrics" -> IF it.k \in Skipped THEN <<>> ELSE <<Say("metric", it.n, InstrumentOf(it.k), it.u, it.at)>>
    [] kind = "logs" -> IF it.n = 0 THEN <<>> ELSE <<Say("event", it.n, "", 0, it.at)>>
    [] OTHER -> <<>>
OfScope(kind, sc) == FlattenSeq([i \in DOMAIN sc |-> OfItem(kind, sc[i])])
OfGroup(kind, g) == (IF g.has THEN <<Say("resource", 0, "", 0, g.res)>> ELSE <<>>) \o FlattenSeq([i \in DOMAIN g.scopes |-> OfScope(kind, g.scopes[i])])
OfRequest(r) == FlattenSeq([i \in DOMAIN r.groups |-> OfGroup(r.kind, r.groups[i])])
Said(rs) == FlattenSeq([i \in DOMAIN rs |-> OfRequest(rs[i])])
Obs(says) == FlattenSeq([i \in DOMAIN says |-> says[i].at])

Distinct(s) == FoldLeft(LAMBDA o, x : IF Contains(o, x) THEN o ELSE Append(o, x), <<>>, s)
Prefix(s, n) == SubSeq(s, 1, Min({n, Len(s)}))
Types(obs) == [a \in 1..Attrs |-> LET s == SelectSeq(obs, LAMBDA o : o.a = a) IN IF s = <<>> THEN "" ELSE TypeOf[s[1].c]]
Fits(c, o) == o.c = c \/ (c = "dbl" /\ o.c = "int")
Examples(obs) == [a \in 1..Attrs |-> LET s == SelectSeq(obs, LAMBDA o : o.a = a /\ o.c \in Scalar) IN
  IF s = <<>> THEN [c |-> "", v |-> <<>>]
  ELSE LET f == SelectSeq(s, LAMBDA o : Fits(s[1].c, o)) IN [c |-> s[1].c, v |-> Prefix(Distinct([i \in DOMAIN f |-> f[i].v]), Max5)]]
Signals(sig, says) == LET mine == SelectSeq(says, LAMBDA x : x.sig = sig) IN
  [n \in 0..Names |-> LET s == SelectSeq(mine, LAMBDA x : x.n = n) IN
     IF s = <<>> THEN [on |-> FALSE, k |-> "", u |-> 0, at |-> {}]
     ELSE [on |-> TRUE, k |-> s[1].k, u |-> s[1].u, at |-> {o.a : o \in ToSet(Obs(s))}]]
Whole(rs) == LET says == Said(rs) obs == Obs(says) IN
  [types |-> Types(obs), ex |-> Examples(obs), span |-> Signals("span", says), metric |-> Signals("metric", says), event |-> Signals("event", says)]

(* ----------------------------- one at a time --------------------------- *)
Off == [on |-> FALSE, k |-> "", u |-> 0, at |-> {}]
Empty == [types |-> [a \in 1..Attrs |-> ""], ex |-> [a \in 1..Attrs |-> [c |-> "", v |-> <<>>]],
          span |-> [n \in 0..Names |-> Off], metric |-> [n \in 0..Names |-> Off], event |-> [n \in 0..Names |-> Off]]
Learn(r, o) == [r EXCEPT !.types[o.a] = IF @ = "" THEN TypeOf[o.c] ELSE @,
  !.ex[o.a] = IF o.c \notin Scalar THEN @ ELSE IF @.c = "" THEN [c |-> o.c, v |-> <<o.v>>]
              ELSE IF Fits(@.c, o) /\ Len(@.v) < Max5 /\ ~Contains(@.v, o.v) THEN [@ EXCEPT !.v = Append(@, o.v)] ELSE @]
Touch(r, x) == CASE x.sig = "span" -> [r EXCEPT !.span[x.n] = IF @.on THEN @ ELSE [on |-> TRUE, k |-> x.k, u |-> x.u, at |-> {}]]
                 [] x.sig = "metric" -> [r EXCEPT !.metric[x.n] = IF @.on THEN @ ELSE [on |-> TRUE, k |-> x.k, u |-> x.u, at |-> {}]]
                 [] x.sig = "event" -> [r EXCEPT !.event[x.n] = IF @.on THEN @ ELSE [on |-> TRUE, k |-> x.k, u |-> x.u, at |-> {}]]
                 [] OTHER -> r
Put(r, x, a) == CASE x.sig = "span" -> [r EXCEPT !.span[x.n].at = @ \cup {a}] [] x.sig = "metric" -> [r EXCEPT !.metric[x.n].at = @ \cup {a}]
                  [] x.sig = "event" -> [r EXCEPT !.event[x.n].at = @ \cup {a}] [] OTHER -> r

Item(n, k, u, at, ev) == [n |-> n, k |-> k, u |-> u, at |-> at, ev |-> ev]
Group(has, res, scopes) == [has |-> has, res |-> res, scopes |-> scopes]
Init == pc = "recv" /\ reqs = <<>> /\ todo = <<>> /\ acc = Empty
Receive(r) == reqs' = Append(reqs, r) /\ todo' = OfRequest(r) /\ acc' = acc
\* reading: the next signal, then its attributes one by one
Read == /\ pc = "recv" /\ todo # <<>> /\ UNCHANGED <<pc, reqs>>
  /\ LET x == Head(todo) r == Touch(acc, x) IN
     IF x.at = <<>> THEN acc' = r /\ todo' = Tail(todo)
     ELSE LET o == Head(x.at) IN acc' = Put(Learn(r, o), x, o.a) /\ todo' = <<[x EXCEPT !.at = Tail(@)]>> \o Tail(todo)

(* ------------------------------- random -------------------------------- *)
ValueOf(c) == CASE c = "bool" -> R(0..1) [] c = "int" -> 2 * R(0..Vals) [] OTHER -> R(0..(2 * Vals))
RClass(z_) == IF P(75) THEN R(Scalar) ELSE R(DOMAIN TypeOf)
\* an attribute mostly keeps to one class
RObs(z_) == LET a == R(1..Attrs) c == IF P(70) THEN SetToSeq(Scalar)[1 + (a % 4)] ELSE RClass(0) IN TLCEval([a |-> a, c |-> c, v |-> ValueOf(c)])
RSeq(k) == IF P(30) THEN <<>> ELSE [i \in 1..R(1..k) |-> RObs(i)]
RItem(kind) ==
  CASE kind = "traces" -> Item(R(1..Names), R({"unset", "internal", "server", "client", "producer", "consumer"}), 0, RSeq(4),
                               IF P(60) THEN <<>> ELSE [i \in 1..R(1..3) |-> [n |-> R(1..Names), at |-> RSeq(3)]])
    [] kind = "metrics" -> Item(R(1..Names), R({"gauge", "counter", "updowncounter", "histogram", "exp"} \cup (IF P(30) THEN Skipped ELSE {})), R(0..2), RSeq(5), <<>>)
    [] kind = "logs" -> Item(IF P(15) THEN 0 ELSE R(1..Names), "", 0, RSeq(4), <<>>)
    [] OTHER -> Item(0, "", 0, RSeq(3), <<>>)
RScope(kind) == IF P(5) THEN <<>> ELSE [i \in 1..R(1..3) |-> RItem(kind)]
RGroup(kind) == Group(P(70), RSeq(3), IF P(5) THEN <<>> ELSE [i \in 1..R(1..2) |-> RScope(kind)])
RRequest(z_) == LET kind == R({"traces", "traces", "metrics", "logs", "profiles"} \ (IF P(80) THEN {"profiles"} ELSE {})) IN
  TLCEval([kind |-> kind, groups |-> IF P(4) THEN <<>> ELSE [i \in 1..(IF P(80) THEN 1 ELSE 2) |-> RGroup(kind)]])
ReceiveR == /\ Random /\ pc = "recv" /\ todo = <<>> /\ Len(reqs) < Requests /\ \E r \in {RRequest(0)} : Receive(r) /\ UNCHANGED pc
StopR == /\ Random /\ pc = "recv" /\ todo = <<>> /\ (Len(reqs) = Requests \/ P(10)) /\ pc' = "end"
  /\ PrintT("@@" \o ToJson([reqs |-> reqs, out |-> acc])) /\ UNCHANGED <<reqs, todo, acc>>

(* ----------------------------- exhaustive ------------------------------ *)
\* one observation anywhere: on a resource, a span, one of its events, a metric, a log, or where it does not count
Anywhere(o) == {[kind |-> "traces", groups |-> <<Group(TRUE, <<o>>, <<>>)>>], [kind |-> "profiles", groups |-> <<Group(FALSE, <<o>>, <<<<Item(0, "", 0, <<o>>, <<>>)>>>>)>>]}
  \cup {[kind |-> "traces", groups |-> <<Group(FALSE, <<>>, <<<<Item(1, "client", 0, <<o>>, <<[n |-> n, at |-> <<>>]>>)>>>>)>>] : n \in 1..Names}
  \cup {[kind |-> "traces", groups |-> <<Group(FALSE, <<>>, <<<<Item(1, "server", 0, <<>>, <<[n |-> n, at |-> <<o>>]>>)>>>>)>>] : n \in 1..Names}
  \cup {[kind |-> "metrics", groups |-> <<Group(FALSE, <<>>, <<<<Item(1, i, 1, <<o>>, <<>>)>>>>)>>] : i \in {"exp", "summary"}}
  \cup {[kind |-> "logs", groups |-> <<Group(FALSE, <<>>, <<<<Item(n, "", 0, <<o>>, <<>>)>>>>)>>] : n \in 0..1}
Values == {<<"str", 0>>, <<"str", 1>>, <<"int", 2>>, <<"dbl", 2>>, <<"dbl", 3>>, <<"strs", 0>>, <<"unset", 0>>}
ReceiveA == /\ ~Random /\ pc = "recv" /\ todo = <<>> /\ Len(reqs) < Requests /\ UNCHANGED pc
  /\ \E a \in 1..Attrs, x \in Values : \E r \in Anywhere([a |-> a, c |-> x[1], v |-> x[2]]) : Receive(r)
Next == Read \/ ReceiveR \/ StopR \/ ReceiveA
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ----------------------------- *)
Exact == todo = <<>> => acc = Whole(reqs)
Few == \A a \in 1..Attrs : LET e == acc.ex[a].v IN Len(e) <= Max5 /\ Cardinality(ToSet(e)) = Len(e)
\* every attribute of a signal is defined
Defined == \A s \in {"span", "metric", "event"} : \A n \in 0..Names : \A a \in acc[s][n].at : acc.types[a] # ""
\* what was inferred from less telemetry stands
Grows == [][\A a \in 1..Attrs : /\ (acc.types[a] # "" => acc'.types[a] = acc.types[a]) /\ IsPrefix(acc.ex[a].v, acc'.ex[a].v)
            /\ \A s \in {"span", "metric", "event"} : \A n \in 0..Names : (acc[s][n].on => acc'[s][n].on /\ acc'[s][n].k = acc[s][n].k) /\ acc[s][n].at \subseteq acc'[s][n].at]_vars
=============================================================================
