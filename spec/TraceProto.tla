------------------------------- MODULE TraceProto -------------------------------
(* Trace validation of loading protocol-parameter files.                            *)
EXTENDS Protocol, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, i
vars == <<s, i>>
Judge(e) ==
  IF e.how # "file" THEN (IF e.r = "err" THEN {} ELSE {"no error for an unreadable file"})
  ELSE IF LoadOk(Demands(e.text), e.r, e.out) THEN {} ELSE {"parameters"}
Init == s \in 1..Len(Traces) /\ i = 0
Next == /\ i < Len(Traces[s].ev)
        /\ LET e == Traces[s].ev[i + 1]
               bad == IF e.op = "dead" THEN {"the process died"} ELSE Judge(e)
           IN IF bad = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([id |-> Traces[s].id, ev |-> i + 1, op |-> e.op, why |-> bad]))
        /\ i' = i + 1 /\ s' = s
=================================================================================
