------------------------------ MODULE NamesAlgo ------------------------------
(* How the executers word their errors, over every answer of every platform, against Names: what they say is acceptable, and what they
   say with two of its codes exchanged, with a neighbouring code or with the symbol of another code is not.                              *)
EXTENDS PassThroughAlgo, Names
Symbol(h, c) == IF \E x \in Symbols(h) : x[1] = c THEN (CHOOSE x \in Symbols(h) : x[1] = c)[2] ELSE ""
Say(h, c) == [h |-> h, code |-> c, name |-> Symbol(h, c)]
Plain(h, c) == [h |-> h, code |-> c, name |-> ""]
Answer == [status |-> a.status, driver |-> a.driver, host |-> a.host, reason |-> a.reason, rqstatus |-> a.rqstatus, validity |-> a.validity,
           adapter |-> a.rqstatus, einval |-> a.einval, errno |-> 5, fails |-> a.fails]     \* the adapter's status: any
Said ==
    CASE Family(p) = "linux" ->
            IF a.status # 0 THEN <<Say("status", a.status), Say("driver", a.driver % 16), Say("host", a.host)>>
            ELSE IF a.driver % 16 # 0 THEN <<Say("driver", a.driver % 16), Say("host", a.host)>>
            ELSE <<Say("host", a.host), Say("driver", a.driver % 16), Say("status", a.status)>>
      [] Family(p) = "solaris" -> IF a.status # 0 THEN <<Plain("status", a.status), Plain("reason", a.reason)>>
                                  ELSE IF a.reason # 0 THEN <<Plain("reason", a.reason)>> ELSE <<Plain("request", a.rqstatus)>>
      [] Family(p) = "aix" -> IF a.fails /\ a.einval # 0 THEN <<Say("argument", a.einval)>>
                              ELSE <<Say("validity", a.validity), Say("status", a.status), Say("adapter", Answer.adapter)>>
      [] Family(p) = "win32" -> IF a.fails THEN <<Plain("error", 5)>> ELSE <<Plain("status", a.status)>>
Speaks == Decided = "scsi" \/ (Decided = "os" /\ ((Family(p) = "aix" /\ a.einval # 0) \/ Family(p) = "win32"))
Event(s) == [plat |-> p, ans |-> Answer, said |-> s, number |-> IF Family(p) = "win32" /\ a.fails THEN 5 ELSE -1, numbers |-> [i \in DOMAIN s |-> s[i].code]]
Worded == Speaks => ErrorFails(Event(Said)) = {}
Exchanged(s, i, j) == [s EXCEPT ![i].code = s[j].code, ![j].code = s[i].code]
Off(s, i) == [s EXCEPT ![i].code = @ + 1, ![i].name = ""]
Misnamed(s, i) == [s EXCEPT ![i].name = Symbol(s[i].h, IF s[i].code = 2 THEN 8 ELSE 2)]
Silent(s) == <<>>
Driver(c) == {c, c % 16}
Telling == Speaks =>
    /\ \A i, j \in DOMAIN Said : Said[i].code # Said[j].code /\ Driver(Said[i].code) \cap Driver(Said[j].code) = {} => ErrorFails(Event(Exchanged(Said, i, j))) # {}
    /\ \A i \in DOMAIN Said : Said[i].h # "driver" => ErrorFails(Event(Off(Said, i))) # {}
    /\ \A i \in DOMAIN Said : Said[i].name # "" => ErrorFails(Event(Misnamed(Said, i))) # {}
    /\ ErrorFails(Event(Silent(Said))) # {}
==============================================================================
