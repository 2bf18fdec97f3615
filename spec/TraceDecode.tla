------------------------------ MODULE TraceDecode ------------------------------
EXTENDS Decode, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)
Fails(e) ==
    CASE e.ev = "dec" -> DecodeFails(e)
      [] e.ev = "pack" -> PackFails(e)
Init == l = First
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", l, f>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
===============================================================================
