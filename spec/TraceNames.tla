----------------------------- MODULE TraceNames -----------------------------
EXTENDS Names, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)
Asc == JsonDeserialize(IOEnv.ASC)
Fails(e) ==
    CASE e.ev = "error" -> ErrorFails(e)
      [] e.ev = "sensetext" -> SenseTextFails(e, Asc.table, Asc.ranges, Asc.unknown)
      [] e.ev = "table" -> TableFails(e)
      [] e.ev = "group" -> GroupFails(e)
      [] e.ev = "other" -> {}
Init == l = First
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", l, f>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
=============================================================================
