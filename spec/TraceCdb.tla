------------------------------- MODULE TraceCdb -------------------------------
EXTENDS Cdb, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)
(* "again": a result returned earlier, looked at again after other commands were executed
   "same": one answer, decoded by the same command in two different histories             *)
Fails(e) ==
    CASE e.ev = "cmd" -> CommandFails(e)
      [] e.ev = "again" -> If(e.before = e.after, "a result changed after it was returned")
      [] e.ev = "same" -> If(e.first = e.second, "the same answer was decoded differently")
Init == l = First
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", l, f>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
===============================================================================
