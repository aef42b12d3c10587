------------------------------ MODULE AlgoTrace -----------------------------
EXTENDS Algo, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Init == l = 1
Next == l <= Len(Trace) /\ (IF Trace[l].op = "scenario" THEN TRUE ELSE Judge(Trace[l]) = TRUE) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Accepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>)
=============================================================================
