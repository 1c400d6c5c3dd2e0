------------------------------ MODULE Receiver ------------------------------
(* The OTLP receiver of live-check (O01).                                    *)
(*                                                                           *)
(* State: exports under way (waiting for a place in the queue, in the queue, *)
(* acknowledged), the report so far, the stop and the clock. Clients send    *)
(* exports without having to wait for each other; a stop request, a signal   *)
(* or the inactivity monitor puts a stop mark in the queue; the checker      *)
(* takes what is queued, one by one, until it meets the mark.                *)
(* The history (ev) and the report are all that can be seen from outside.    *)
(* Allowed says which reports a history admits; it is an invariant of this   *)
(* machine and decides the histories recorded from weaver (ReceiverTrace).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt
CONSTANTS Random, Exports, Cap, Idle, MaxTime, Clients, Ops, Burst, Heavy, Eager
VARIABLES fav, pc, wait, queue, acked, sent, rep, stop, http, now, last, wake, ev, script, reqs
mvars == <<fav, wait, queue, acked, sent, rep, stop, http, now, last, wake, ev>>
vars == <<pc, mvars, script, reqs>>
R(S) == RandomElement(S)
P(pct) == R(1..100) <= pct

(* ----------------------- what an export should show -------------------- *)
\* A request: kind, groups; a group: res ("has" and the set of entities its resource has), scopes; a scope: named, url, number of items.
Entities == {"a", "b", "c"}
Sample(e, k, g, s, i, miss) == [e |-> e, k |-> k, g |-> g, s |-> s, i |-> i, miss |-> miss]
KindOf == [traces |-> "span", metrics |-> "metric", logs |-> "log", profiles |-> "profile"]
\* metrics and logs are of signals that belong to all of the entities
Missing(kind, g) == IF kind \in {"metrics", "logs"} THEN SetToSortSeq(Entities \ (IF g.has THEN ToSet(g.res) ELSE {}), LAMBDA x, y : IF x = "a" THEN y # "a" ELSE x = "b" /\ y = "c") ELSE <<>>
OfScope(e, r, g, s) == LET sc == r.groups[g].scopes[s] IN
  (IF sc.named \/ sc.url THEN <<Sample(e, "instrumentation_scope", g, s, 0, <<>>)>> ELSE <<>>) \o [i \in 1..sc.items |-> Sample(e, KindOf[r.kind], g, s, i, Missing(r.kind, r.groups[g]))]
OfGroup(e, r, g) == (IF r.groups[g].has THEN <<Sample(e, "resource", g, 0, 0, <<>>)>> ELSE <<>>) \o FlattenSeq([s \in DOMAIN r.groups[g].scopes |-> OfScope(e, r, g, s)])
SamplesOf(e, r) == FlattenSeq([g \in DOMAIN r.groups |-> OfGroup(e, r, g)])

(* --------------------------- admitted reports -------------------------- *)
\* h: reqs, ev (op: send, ack, stop, end; e the export; t when), rep (samples), idle (0: none), answered
Firsts(s) == FoldLeft(LAMBDA o, x : IF o # <<>> /\ Last(o) = x.e THEN o ELSE Append(o, x.e), <<>>, s)
Allowed(h) ==
  LET at(op) == [e \in DOMAIN h.reqs |-> LET s == {i \in DOMAIN h.ev : h.ev[i].op = op /\ h.ev[i].e = e} IN IF s = {} THEN 0 ELSE Min(s)]
      sentAt == TLCEval(at("send")) ackAt == TLCEval(at("ack"))
      ord == TLCEval(Firsts(h.rep)) n == Len(ord)
      stops == {i \in DOMAIN h.ev : h.ev[i].op = "stop"}
      \* an end without a stop comes from inactivity: only when nothing came for the whole timeout. An export
      \* is received some time between from (when it was sent) and to (when it was acknowledged, if it was).
      acts == Append(SortSeq(h.acts, LAMBDA x, y : x.from < y.from), [from |-> h.endtime, to |-> h.endtime])
      gaps == IF h.idle = 0 THEN {} ELSE {i \in 1..(Len(acts) - 1) : acts[i + 1].to - acts[i].from >= h.idle}
      cut == IF gaps = {} THEN {} ELSE {i \in DOMAIN h.ev : h.ev[i].t >= acts[Min(gaps)].from + h.idle}
      stopAt == Min(stops \cup cut \cup {Len(h.ev) + 1})
      seen == {e \in DOMAIN h.reqs : SamplesOf(e, h.reqs[e]) # <<>>}
  IN [whole |-> h.rep = FlattenSeq([i \in DOMAIN ord |-> IF ord[i] \in DOMAIN h.reqs THEN SamplesOf(ord[i], h.reqs[ord[i]]) ELSE <<>>]),
      once |-> Cardinality(ToSet(ord)) = n,
      sent |-> \A i \in 1..n : ord[i] \in DOMAIN h.reqs /\ sentAt[ord[i]] # 0,
      kept |-> \A e \in seen : ackAt[e] # 0 /\ ackAt[e] < stopAt => e \in ToSet(ord),
      order |-> \A i \in 1..n, j \in 1..n : i < j => ~(ackAt[ord[j]] # 0 /\ ackAt[ord[j]] < sentAt[ord[i]]),
      closed |-> \A e \in seen, f \in ToSet(ord) : ackAt[e] # 0 /\ ackAt[e] < sentAt[f] => e \in ToSet(ord),
      answered |-> h.answered,
      ended |-> h.ended,
      idle |-> stops = {} => gaps # {}]
Fine(a) == a.whole /\ a.once /\ a.sent /\ a.kept /\ a.order /\ a.closed /\ a.answered /\ a.ended /\ a.idle

(* ----------------------------- the machine ----------------------------- *)
Mark == 0
Nothing == <<>>
\* some scripts send one kind of request only
Init == /\ fav \in (IF Random THEN {"", "any", "traces", "metrics", "logs", "profiles"} ELSE {""}) /\ pc = "run" /\ wait = <<>> /\ queue = <<>> /\ acked = {} /\ sent = {} /\ rep = <<>> /\ stop = "no" /\ http = "no" /\ now = 0 /\ last = 0 /\ wake = Idle /\ ev = <<>>
        /\ script = <<>> /\ reqs = IF Random THEN <<>> ELSE [e \in 1..Exports |-> [kind |-> "traces", groups |-> <<[has |-> e > 1, res |-> <<>>, scopes |-> <<[named |-> FALSE, url |-> FALSE, items |-> 1]>>]>>]]
Event(op, e) == ev' = Append(ev, [op |-> op, e |-> e, t |-> now])
A == ~Random /\ pc = "run"
Send == /\ A /\ \E e \in 1..Exports : e \notin sent /\ (\A f \in 1..(e - 1) : f \in sent) /\ sent' = sent \cup {e} /\ wait' = Append(wait, e) /\ last' = now /\ Event("send", e)
        /\ UNCHANGED <<fav, pc, script, reqs, queue, acked, rep, stop, http, now, wake>>
\* the queue is bounded; whoever has waited longest goes first
Enter == /\ A /\ wait # <<>> /\ Len(queue) < Cap /\ queue' = Append(queue, Head(wait)) /\ wait' = Tail(wait)
         /\ UNCHANGED <<fav, pc, script, reqs, acked, sent, rep, stop, http, now, last, wake, ev>>
Entered(e) == e \in sent /\ ~Contains(wait, e)
Ack == /\ A /\ \E e \in 1..Exports : Entered(e) /\ e \notin acked /\ acked' = acked \cup {e} /\ Event("ack", e)
       /\ UNCHANGED <<fav, pc, script, reqs, wait, queue, sent, rep, stop, http, now, last, wake>>
Stop == /\ A /\ stop = "no" /\ \E w \in {"signal", "http"} : stop' = w /\ http' = (IF w = "http" THEN "waiting" ELSE http) /\ wait' = Append(wait, Mark) /\ Event("stop", 0)
        /\ UNCHANGED <<fav, pc, script, reqs, queue, acked, sent, rep, now, last, wake>>
Take == /\ A /\ stop # "done" /\ queue # <<>> /\ queue' = Tail(queue)
        /\ IF Head(queue) = Mark THEN stop' = "done" /\ rep' = rep ELSE rep' = rep \o SamplesOf(Head(queue), reqs[Head(queue)]) /\ stop' = stop
        /\ UNCHANGED <<fav, pc, script, reqs, wait, acked, sent, http, now, last, wake, ev>>
Answer == /\ A /\ stop = "done" /\ http' = (IF http = "waiting" THEN "answered" ELSE http) /\ pc' = "end" /\ Event("end", 0)
          /\ UNCHANGED <<fav, script, reqs, wait, queue, acked, sent, rep, stop, now, last, wake>>
\* the monitor sleeps for the whole timeout, looks once, and sleeps again
Tick == /\ A /\ Idle > 0 /\ now < MaxTime /\ now' = now + 1
        /\ IF now' < wake THEN UNCHANGED <<wake, wait, stop>>
           ELSE IF stop = "no" /\ now' - last >= Idle THEN wake' = now' + 1000 /\ stop' = "idle" /\ wait' = Append(wait, Mark)
           ELSE wake' = now' + Idle /\ UNCHANGED <<wait, stop>>
        /\ UNCHANGED <<fav, pc, script, reqs, queue, acked, sent, rep, http, last, ev>>

(* ------------------------------- scripts ------------------------------- *)
\* what the clients do: op send c e | await c | pause | stop how. Heavy and Eager: percentages of large exports, and of stops that do not wait
\* for acknowledgements (the queue may then be full when the stop arrives). Exports are numbered in the order in which they are sent.
Op(o, c, e) == [op |-> o, c |-> c, e |-> e]
RRes(z_) == SetToSeq(R(SUBSET Entities))
RScope(big) == [named |-> P(60), url |-> P(25), items |-> IF P(10) THEN 0 ELSE IF big THEN R(10..60) ELSE R(1..3)]
RReq(z_) == LET big == P(Heavy) IN TLCEval([kind |-> IF fav \in DOMAIN KindOf THEN fav ELSE R(DOMAIN KindOf),
  groups |-> IF P(3) THEN <<>> ELSE [g \in 1..(IF P(75) THEN 1 ELSE R(2..3)) |-> [has |-> P(75), res |-> RRes(0), scopes |-> IF P(6) THEN <<>> ELSE [s \in 1..(IF P(75) THEN 1 ELSE R(2..3)) |-> RScope(big)]]]])
Pending(c) == \E i \in DOMAIN script : script[i].op = "send" /\ script[i].c = c /\ ~\E j \in (i + 1)..Len(script) : script[j].op = "await" /\ script[j].c = c
SendsR == /\ Random /\ pc = "run" /\ Len(script) < Ops /\ UNCHANGED <<pc, mvars>>
  /\ \E c \in {R(1..Clients)} : \E n \in {IF P(15) THEN R(1..Burst) ELSE R(1..3)} : \E rs \in {[i \in 1..n |-> RReq(i)]} :
       reqs' = reqs \o rs /\ script' = script \o [i \in 1..n |-> Op("send", c, Len(reqs) + i)] \o (IF ~P(Eager) /\ P(60) THEN <<Op("await", c, 0)>> ELSE <<>>)
AwaitR == /\ Random /\ pc = "run" /\ Len(script) < Ops /\ ~P(Eager) /\ P(40) /\ (\E c \in 1..Clients : Pending(c)) /\ UNCHANGED <<pc, mvars, reqs>>
  /\ \E c \in {R({c \in 1..Clients : Pending(c)})} : script' = Append(script, Op("await", c, 0))
StopR == /\ Random /\ pc = "run" /\ (Len(script) >= Ops \/ P(6)) /\ UNCHANGED mvars
  /\ \E how \in {R({"http", "http", "stop", "INT", "HUP", "idle"})} : \E late \in {IF how # "idle" /\ P(30) THEN <<RReq(0)>> ELSE <<>>} :
       /\ reqs' = reqs \o late /\ pc' = "end"
       /\ script' = script \o (IF P(Eager) THEN <<Op("pause", 0, 0)>> ELSE [c \in 1..Clients |-> Op("await", c, 0)]) \o <<Op(how, 0, 0)>> \o (IF late = <<>> THEN <<>> ELSE <<Op("send", 1, Len(reqs) + 1)>>)
       /\ PrintT("@@" \o ToJson([reqs |-> reqs', script |-> script', how |-> how]))
Next == Send \/ Enter \/ Ack \/ Stop \/ Take \/ Answer \/ Tick \/ SendsR \/ AwaitR \/ StopR
Spec == Init /\ [][Next]_vars /\ WF_vars(Enter) /\ WF_vars(Take) /\ WF_vars(Answer) /\ WF_vars(Ack)

(* ------------------------------ properties ----------------------------- *)
History == [reqs |-> reqs, ev |-> ev, rep |-> rep, idle |-> Idle, acts |-> <<[from |-> 0, to |-> 0]>> \o [i \in DOMAIN ev |-> IF ev[i].op = "send" THEN [from |-> ev[i].t, to |-> ev[i].t] ELSE [from |-> 0, to |-> 0]], endtime |-> now,
            answered |-> http # "waiting", ended |-> TRUE]
Admitted == ~Random /\ pc = "end" => Fine(Allowed(History))
Bounded == ~Random => Len(queue) <= Cap
\* what is acknowledged is in the queue or was examined
Held == ~Random => \A e \in acked : Contains(queue, e) \/ (\E i \in DOMAIN rep : rep[i].e = e)
Finishes == (stop # "no") ~> (pc = "end")
Answered == (http = "waiting") ~> (http = "answered")
=============================================================================
