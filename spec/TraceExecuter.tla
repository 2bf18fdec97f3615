--------------------------- MODULE TraceExecuter ---------------------------
(* Is what the real executers did allowed by Executer? *)
EXTENDS Executer, Json, IOUtils, TLC
VARIABLES l, s, live
vars == <<l, s, live>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)
Init == l = First /\ s = Start(0, FALSE) /\ live = FALSE
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.ev = "reset" THEN s' = Start(e.max, e.sync) /\ live' = TRUE
          ELSE IF ~live THEN UNCHANGED <<s, live>>
          ELSE LET f == Bad(s, e)
               IN IF f = {} THEN s' = After(s, e) /\ UNCHANGED live
                  ELSE PrintT(<<"REJECT", l, f>>) /\ UNCHANGED s /\ live' = FALSE
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
=============================================================================
