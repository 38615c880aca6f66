------------------------------ MODULE TraceBase ------------------------------
(* Trace validation of independent calls.  A trace is a file of JSON lines,   *)
(* one recorded call (or one recorded object with all its answers) of the     *)
(* implementation per line.  Each step consumes one line and evaluates the    *)
(* acceptance predicate `Accept` of the property under check (bound in the    *)
(* property's .cfg).  The trace is cut into chunks that TLC explores in       *)
(* parallel; every line is consumed exactly once, which check.py confirms     *)
(* from the number of distinct states.                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Accept(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
ChunkLen == 16

VARIABLES zLine,        \* lines consumed so far
          zStop,     \* the chunk ends after this line
          zOk        \* the last consumed line is accepted
tvars == <<zLine, zStop, zOk>>

\* a clause of a property; a false clause says which one it is
Chk(name, cond) == IF cond THEN TRUE ELSE PrintT(<<"CLAUSE", name>>) /\ FALSE
Has(e, f) == f \in DOMAIN e
\* every recorded call must have returned
Returned(e) == Chk("the call returns", ~Has(e, "panic") /\ e.op # "crash" /\ e.op # "hang")

TInit == /\ zLine \in {k \in 0..(N - 1) : k % ChunkLen = 0}
         /\ zStop = IF zLine + ChunkLen < N THEN zLine + ChunkLen ELSE N
         /\ zOk = TRUE
TNext == /\ zLine < zStop
         /\ zOk' = (Returned(Trace[zLine + 1]) /\ Accept(Trace[zLine + 1]))
         /\ zLine' = zLine + 1
         /\ UNCHANGED zStop
Conforms == zOk
=============================================================================
