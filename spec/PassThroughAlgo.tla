--------------------------- MODULE PassThroughAlgo ---------------------------
(* The executers' decision procedures, over every answer an operating system can give, against PassThrough.
   With Export, the answers themselves are printed, to be replayed on the real executers.                    *)
EXTENDS PassThrough, TLC, Json, TLCExt
CONSTANTS Platforms, Statuses, Drivers, Hosts, Reasons, Rqs, Validities, Export
VARIABLES p, a
vars == <<p, a>>
Good == [status |-> 0, driver |-> 0, host |-> 0, reason |-> 0, rqstatus |-> 0, validity |-> 0, einval |-> 0, fails |-> FALSE,
         sense |-> <<>>, data |-> <<>>, folded |-> FALSE]
Init ==
    /\ p \in Platforms
    /\ \/ /\ Family(p) = "linux"
          /\ \E s \in Statuses, d \in Drivers, h \in Hosts : a = [Good EXCEPT !.status = s, !.driver = d, !.host = h]
       \/ /\ Family(p) = "solaris"
          /\ \E s \in Statuses, r \in Reasons, q \in Rqs : a = [Good EXCEPT !.status = s, !.reason = r, !.rqstatus = q]
       \/ /\ Family(p) = "aix"
          /\ \E s \in Statuses, v \in Validities, f \in BOOLEAN : a = [Good EXCEPT !.status = s, !.validity = v, !.fails = f]
       \/ /\ Family(p) = "aix"
          /\ \E e \in 1..24 : a = [Good EXCEPT !.einval = e, !.fails = TRUE]
       \/ /\ Family(p) = "win32"
          /\ \E s \in Statuses : a = [Good EXCEPT !.status = s]
       \/ a = [Good EXCEPT !.fails = TRUE]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* what the executers decide
Linux ==
    IF a.fails THEN "os"
    ELSE IF Bit1(a.status) \/ BitsOf(a.driver, 3, 3) = 1 THEN "cc"
    ELSE IF a.status # 0 THEN (IF a.host = 7 THEN "full" ELSE IF a.status = 24 THEN "conflict" ELSE "scsi")
    ELSE IF a.driver % 16 # 0 THEN "scsi"
    ELSE IF a.host # 0 THEN "scsi" ELSE "ok"
Solaris ==
    IF a.fails THEN "os" ELSE IF Bit1(a.status) THEN "cc" ELSE IF a.status # 0 THEN "scsi"
    ELSE IF a.reason # 0 THEN "scsi" ELSE IF a.rqstatus # 0 THEN "scsi" ELSE "ok"
Aix ==
    IF a.fails /\ (a.einval # 0 \/ a.validity = 0) THEN "os"
    ELSE IF a.validity = 0 THEN "ok"
    ELSE IF a.validity = 1 /\ Bit1(BitsOf(a.status, 4, 1) * 2) THEN "cc" ELSE "scsi"
Windows == IF a.fails THEN "os" ELSE IF a.status = 0 THEN "ok" ELSE IF a.status = 2 THEN "cc" ELSE "scsi"
Decided == CASE Family(p) = "linux" -> Linux [] Family(p) = "solaris" -> Solaris [] Family(p) = "aix" -> Aix [] Family(p) = "win32" -> Windows
Covers(ks, k) == k \in ks \/ ("anyscsi" \in ks /\ k \in {"cc", "scsi", "conflict"})

AlwaysAllowed == Covers(Kinds(p, a), Decided)
\* the contract itself: success is never reported for a bad status, nor a failure for an impeccable answer
NeverSwallowed == "ok" \in Kinds(p, a) =>
    /\ ~a.fails \/ a.validity # 0
    /\ Family(p) = "linux" => a.status = 0 /\ a.driver % 16 = 0 /\ a.host = 0
    /\ Family(p) = "solaris" => a.status = 0 /\ a.reason = 0
    /\ Family(p) = "win32" => a.status = 0
    /\ Family(p) = "aix" => a.validity \in {0, 1}
GoodIsGood == (a = Good) => Kinds(p, a) = {"ok"}
Decisive == Kinds(p, a) # {} /\ ("cc" \in Kinds(p, a) => "ok" \notin Kinds(p, a))
Shown == Export => PrintT(<<"BEH", ToJson([plat |-> p, ans |-> [status |-> a.status, driver |-> a.driver, host |-> a.host, reason |-> a.reason,
                        rqstatus |-> a.rqstatus, validity |-> a.validity, einval |-> a.einval, fails |-> a.fails]])>>)
===============================================================================
