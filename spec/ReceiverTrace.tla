--------------------------- MODULE ReceiverTrace ----------------------------
(* Judges the histories recorded from weaver (one JSON object per line) by   *)
(* what the receiver admits.                                                 *)
EXTENDS Receiver, IOUtils
VARIABLE i
Recorded == ndJsonDeserialize(IOEnv.HISTORIES)
Judge == i <= Len(Recorded) /\ i' = i + 1 /\ UNCHANGED vars
  /\ LET h == Recorded[i] a == Allowed(h) IN Fine(a) \/ PrintT("@@" \o ToJson([n |-> h.n, a |-> a]))
TraceInit == Init /\ i = 1
TraceSpec == TraceInit /\ [][Judge]_<<vars, i>>
=============================================================================
