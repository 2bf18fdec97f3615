-------------------------- MODULE TracePassThrough --------------------------
EXTENDS PassThrough, Json, IOUtils, TLC
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)
Names == JsonDeserialize(IOEnv.ASC)
NamesFail(e) ==
    {"name of an additional sense code" : x \in {i \in DOMAIN e.names :
        ~NameIs(e.names[i].name, e.code, e.names[i].q, Names.table, Names.ranges, Names.unknown)}} \cup
    If(\A i \in DOMAIN e.names : IsNat(e.names[i].code, OfNat(e.code)) /\ IsNat(e.names[i].qualifier, OfNat(e.names[i].q)), "code and qualifier")
Fails(e) ==
    CASE e.ev = "xchg" -> ExchangeFails(e)
      [] e.ev = "sweep" -> SweepFails(e)
      [] e.ev = "sense" -> DecodeFails(e)
      [] e.ev = "names" -> NamesFail(e)
Init == l = First
Next == /\ l <= Len(Trace)
        /\ l' = l + 1
        /\ LET f == Fails(Trace[l]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", l, f>>)
Spec == Init /\ [][Next]_l
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
=============================================================================
