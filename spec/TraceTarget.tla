----------------------------- MODULE TraceTarget -----------------------------
(* Histories of commands, recorded on the real code.  One event is one call of the user's - or several, of greenlets that took turns -
   with everything that reached the device meanwhile, in the device's order.                                                       *)
EXTENDS Target, Json, IOUtils
VARIABLES l, st
vars == <<l, st>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
First == atoi(IOEnv.START)

\* what the device does with command x: a fault is the device's own decision, and changes nothing
Result(s, x) == LET m == Meaning(s.bs, x.cdb, x.data)
                    r == IF x.fault THEN [st |-> s, status |-> x.status, sense |-> x.sense, data |-> <<>>] ELSE Step(s, x.who, m)
                IN [st |-> r.st, status |-> r.status, sense |-> r.sense, data |-> r.data, m |-> m]
RECURSIVE Results(_, _)
Results(s, xs) == IF xs = <<>> THEN <<>> ELSE LET r == Result(s, Head(xs)) IN <<r>> \o Results(r.st, Tail(xs))
Final(s, rs) == IF rs = <<>> THEN s ELSE rs[Len(rs)].st
DeviceFails(x, r) == If(x.status = r.status /\ x.sense = r.sense /\ (r.status = 0 => x.answer = r.data), "the stand-in device disagrees with Target")
OpFails(xs, rs, os, o) ==
    LET m == Asked(o.name, o.a)
        mine == {i \in DOMAIN xs : xs[i].who = o.who}
        hits == {i \in mine : rs[i].m = m}
        \* the user's calls that mean the same: a refused one sends nothing, what was sent is the others'
        alike == {j \in DOMAIN os : os[j].who = o.who /\ Asked(os[j].name, os[j].a) = m}
        refused == Raised(o.out) /\ (C!MayRefuse(o.name, o.a) \/ ~C!Expressible(o.name, o.a))
        F(i) == ToldFails(m, rs[i], xs[i].n, o.out, o.cc) \cup ConflictFails(o.plat, rs[i], o.out)
    IN IF refused /\ Cardinality(hits) < Cardinality(alike) THEN {}
       ELSE IF hits = {} THEN {"the command that was asked for was not sent"}
       ELSE IF \E i \in hits : F(i) = {} THEN {} ELSE F(CHOOSE i \in hits : TRUE)
CaseFails(e, rs) ==
       UNION {DeviceFails(e.execs[i], rs[i]) : i \in DOMAIN rs}
       \cup UNION {OpFails(e.execs, rs, e.ops, e.ops[i]) : i \in DOMAIN e.ops}
       \cup If(\A i \in DOMAIN e.execs : \E j \in DOMAIN e.ops : e.ops[j].who = e.execs[i].who /\ Asked(e.ops[j].name, e.ops[j].a) = rs[i].m,
                  "a command nobody asked for")
       \cup If(Len(e.execs) <= Len(e.ops), "a command was sent more than once")
Init == l = First /\ st = Device(1, <<1>>, 1)
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l]
       IN IF e.ev = "start" THEN st' = Device(e.bs, e.size, e.n)
          ELSE IF e.ev = "end" THEN /\ IF e.changed = <<>> THEN TRUE ELSE PrintT(<<"REJECT", l, {"an answer changed after it was given"}>>)
                                    /\ st' = st
          ELSE LET rs == Results(st, e.execs)
                   f == CaseFails(e, rs)
               IN /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", l, f>>)
                  /\ st' = Final(st, rs)
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter = Len(Trace) - First + 2
===============================================================================
