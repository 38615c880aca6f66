------------------------------- MODULE HistBase -------------------------------
(* Trace validation of object histories.  A trace line is one history: the    *)
(* arguments of its operations and what was observed after each of them.      *)
(* The specification's abstract state `st` of the object is carried along;    *)
(* each step checks one observation against it.                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_),       \* abstract state of the object at the start of history e
          StartOk(_),     \* what is observed at the start
          Steps(_),       \* number of operations of e
          After(_, _, _), \* abstract state after operation k of e from st
          StepOk(_, _, _) \* the observation made at operation k of e in st
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
VARIABLES zHist, zPos, zState, zOk
hvars == <<zHist, zPos, zState, zOk>>
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", name>>) /\ FALSE
Failed(e) == "panic" \in DOMAIN e \/ e.op \in {"crash", "hang"}
HInit == /\ zHist \in 1..N
         /\ zPos = 0
         /\ IF Failed(Trace[zHist]) THEN zState = 0 /\ zOk = Chk("every call returns", FALSE)
            ELSE zState = Start(Trace[zHist]) /\ zOk = StartOk(Trace[zHist])
HNext == /\ zOk
         /\ zPos < Steps(Trace[zHist])
         /\ zOk' = StepOk(zState, Trace[zHist], zPos + 1)
         /\ zState' = After(zState, Trace[zHist], zPos + 1)
         /\ zPos' = zPos + 1
         /\ UNCHANGED zHist
Conforms == zOk
=============================================================================
