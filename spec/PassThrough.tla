----------------------------- MODULE PassThrough -----------------------------
(* What one command becomes at the operating system's SCSI pass-through interface, and what its answer becomes for
   the caller, on each platform.  Stateless: an exchange record holds the command, the request the OS saw, what it
   answered, and what the caller got.                                                                              *)
EXTENDS Sense

\* ============================ classification of answers ==========================
(* The kinds of outcome that an answer allows:
   "ok" success, "cc" check condition, "conflict" reservation conflict, "full" queue full, "scsi" another SCSI error,
   "anyscsi" any SCSI error, "os" an error of the operating system.                                               *)
Bit1(x) == (x \div 2) % 2 = 1
LinuxKinds(a) ==
    LET d == a.driver % 16
    IN IF a.fails THEN {"os"}
       ELSE IF a.status = 2 \/ d = 8 THEN {"cc"}
       ELSE IF Bit1(a.status) \/ d > 8 THEN {"cc", "anyscsi"}
       ELSE IF a.status = 24 THEN (IF a.host = 7 THEN {"conflict", "full"} ELSE {"conflict"})
       ELSE IF a.status # 0 THEN (IF a.host = 7 THEN {"scsi", "full"} ELSE {"scsi"})
       ELSE IF d # 0 \/ a.host # 0 THEN {"scsi"}
       ELSE {"ok"}                                    \* what the driver suggests is not an error
SolarisKinds(a) ==
    IF a.fails THEN {"os"}
    ELSE IF a.status = 2 THEN {"cc"}
    ELSE IF Bit1(a.status) THEN {"cc", "anyscsi"}
    ELSE IF a.status # 0 THEN {"scsi", "conflict"}
    ELSE IF a.reason # 0 THEN {"scsi"}
    ELSE IF a.rqstatus # 0 THEN {"scsi"}
    ELSE {"ok"}
AixKinds(a) ==
    LET s == BitsOf(a.status, 4, 1) * 2                 \* the status without its vendor bits
    IN IF a.fails /\ (a.einval # 0 \/ a.validity = 0) THEN {"os"}
       ELSE IF a.validity = 0 THEN {"ok"}
       ELSE IF a.validity = 1
       THEN (IF s = 2 THEN {"cc"} ELSE IF Bit1(s) THEN {"cc", "anyscsi"} ELSE IF s = 0 THEN (IF a.fails THEN {"scsi"} ELSE {"ok", "scsi"}) ELSE {"scsi", "conflict"})
       ELSE {"scsi"}
WindowsKinds(a) ==
    IF a.fails THEN {"os"} ELSE IF a.status = 0 THEN {"ok"} ELSE IF a.status = 2 THEN {"cc"} ELSE {"scsi", "conflict"}
Family(p) == IF p \in {"linux", "linux_ioctl"} THEN "linux" ELSE IF p \in {"aix", "aix_libc"} THEN "aix" ELSE p
Kinds(p, a) ==
    CASE Family(p) = "linux" -> LinuxKinds(a) [] Family(p) = "solaris" -> SolarisKinds(a)
      [] Family(p) = "aix" -> AixKinds(a) [] Family(p) = "win32" -> WindowsKinds(a)
OsError(p) == IF Family(p) \in {"linux", "solaris"} THEN "OSError" ELSE "AsiOSError"
IsKind(p, o, k) ==
    CASE k = "ok" -> ~Raised(o)
      [] k = "cc" -> RaisedA(o, "AsiCheckConditionError")
      [] k = "conflict" -> RaisedA(o, "AsiReservationConflictError")
      [] k = "full" -> RaisedA(o, "AsiRequestQueueFullError")
      [] k = "scsi" -> RaisedA(o, "AsiSCSIError") /\ ~RaisedA(o, "AsiCheckConditionError") /\ ~RaisedA(o, "AsiReservationConflictError")
      [] k = "anyscsi" -> RaisedA(o, "AsiSCSIError")
      [] k = "os" -> RaisedA(o, OsError(p))
ClassFails(p, a, o) ==
    IF \E k \in Kinds(p, a) : IsKind(p, o, k) THEN {}
    ELSE IF Raised(o) THEN {IF "ok" \in Kinds(p, a) THEN "error reported for a success" ELSE "wrong error"}
    ELSE {"failure reported as success"}

\* ================================ marshalling ====================================
CdbMax(p) == CASE Family(p) = "linux" -> 255 [] Family(p) = "solaris" -> 255 [] Family(p) = "aix" -> 64 [] Family(p) = "win32" -> 16
SenseRoom == 252                                       \* SPC-4: sense data has at most 252 bytes
Moves(c) == c.len > 0
Way(c) == IF Moves(c) THEN c.way ELSE "none"
If(b, x) == IF b THEN {} ELSE {x}
CommonFails(c, r) ==
    If(r.cdb = c.cdb, "command bytes") \cup
    If(r.dlen = c.len \/ (~Moves(c) /\ r.way = "none"), "transfer length") \cup
    If(~Moves(c) \/ r.buf, "no data buffer") \cup
    If(c.way # "out" \/ ~Moves(c) \/ r.data = c.data, "data to be written") \cup
    If(r.sense_at /\ r.sense_len >= SenseRoom, "room for sense data") \cup
    If(r.timeout = c.timeout, "timeout")
LinuxReq(c, r) ==
    If(r.f.interface_id = 83, "interface id") \cup
    If(r.f.direction \in (CASE Way(c) = "none" -> {-1} \cup (IF c.way = "out" THEN {-2} ELSE {})   \* an empty write
                            [] Way(c) = "out" -> {-2} [] Way(c) = "in" -> {-3, -4}), "direction") \cup
    If(r.f.iovec_count = 0, "scatter-gather") \cup
    If((r.f.flags \div 2) % 2 = 0 /\ (r.f.flags \div 65536) % 2 = 0, "flags")
SolarisReq(c, r) ==
    If((r.f.flags \div 8) % 2 = (IF Way(c) = "in" THEN 1 ELSE 0), "direction") \cup
    If((r.f.flags \div 65536) % 2 = 1 /\ (r.f.flags \div 2097152) % 2 = 1, "flags")
AixReq(c, r) ==
    If(r.f.version = 2, "version") \cup
    If(r.f.flags % 2 = (IF Way(c) = "in" THEN 1 ELSE 0), "direction")
WindowsReq(c, r) ==
    If(r.f.DataIn = (CASE Way(c) = "none" -> 2 [] Way(c) = "out" -> 0 [] Way(c) = "in" -> 1), "direction") \cup
    If(r.f.Length = 56, "structure length") \cup
    If(r.f.PathId = 0 /\ r.f.TargetId = 0 /\ r.f.Lun = 0, "address") \cup
    If(r.f.SenseInfoOffset >= 52 /\ r.f.SenseInfoOffset + r.sense_len <= r.f.size /\ r.f.size = r.f.outsize, "sense offset")
ReqFails(p, c, r) ==
    CommonFails(c, r) \cup
    (CASE Family(p) = "linux" -> LinuxReq(c, r) [] Family(p) = "solaris" -> SolarisReq(c, r)
       [] Family(p) = "aix" -> AixReq(c, r) [] Family(p) = "win32" -> WindowsReq(c, r))

\* ================================ the data ========================================
(* Windows says how much it transferred; elsewhere the whole buffer may be returned, zero where nothing was stored *)
ResultFails(p, c, a, o) ==
    IF Raised(o) THEN {}
    ELSE IF Way(c) # "in" THEN If(IsNone(o), "a result without data")
    ELSE If(\/ IsBytes(o, a.data)
            \/ IsNone(o) /\ a.data = <<>>
            \/ Family(p) # "win32" /\ ~a.folded /\ IsBytes(o, a.data \o Zeros(c.len - Len(a.data))), "data that was read")
SenseBytesFails(e) ==
    IF ~RaisedA(e.out, "AsiCheckConditionError") THEN {}
    ELSE If(/\ e.sense.t = "b"
            /\ Len(e.sense.v) >= Len(e.ans.sense)
            /\ SubSeq(e.sense.v, 1, Len(e.ans.sense)) = e.ans.sense
            /\ \A i \in (Len(e.ans.sense) + 1)..Len(e.sense.v) : e.sense.v[i] = 0, "sense bytes") \cup
         (IF e.sense.t = "b" /\ Len(e.sense.v) >= 18 THEN SenseFails(e.obj, e.sense.v) ELSE {})

\* ================================ exchanges =======================================
ExchangeFails(e) ==
    IF Len(e.cmd.cdb) > CdbMax(e.plat)
    THEN If(Raised(e.out) /\ e.submitted = 0, "a command that is too long was sent")
    ELSE IF e.submitted # 1 THEN {"submitted once"}
    ELSE ReqFails(e.plat, e.cmd, e.req) \cup ClassFails(e.plat, e.ans, e.out) \cup ResultFails(e.plat, e.cmd, e.ans, e.out)
         \cup SenseBytesFails(e)
\* a sweep: one answer's fields, but many values of one of them
SweepFails(e) ==
    UNION {LET a == [e.ans EXCEPT ![e.field] = e.values[i]] IN ClassFails(e.plat, a, e.outs[i]) : i \in DOMAIN e.values}
DecodeFails(e) == SenseFails(e.obj, e.bytes)
==============================================================================
