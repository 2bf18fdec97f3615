-------------------------------- MODULE Target --------------------------------
(* A block device shared by several initiators (SBC-3, SPC-4 5.12, SPC-2 5.5): blocks, registrations, a persistent reservation, an old
   style reservation.  A command is looked at twice: as what the user asked the library for (Asked) and as what reached the device
   (Meaning, by the layouts of Cdb).  Both have to be the same; Step says what it does and what the device answers; Decode says what
   the user is told.                                                                                                            *)
EXTENDS Bytes, TLC
C == INSTANCE Cdb
D == INSTANCE Decode

If(b, x) == IF b THEN {} ELSE {x}
\* ================================ the device =====================================
(* st: bs the block size, size the number of blocks (a natural), blocks: LBA -> data of those ever changed, keys: initiator -> its key
   (zero: not registered), holder: who made the persistent reservation (0: there is none), type: of it, gen, lock: who holds an old style
   reservation (0: nobody), aptpl.                                                                                               *)
Device(bs, size, n) == [bs |-> bs, size |-> size, blocks |-> [x \in {} |-> <<>>], keys |-> [i \in 1..n |-> <<>>], holder |-> 0, type |-> 0,
                        gen |-> <<>>, lock |-> 0, aptpl |-> FALSE]
\* what a block holds before anything is written to it: its own address
Fresh(bs, lba) == IF Len(lba) >= bs THEN SubSeq(lba, Len(lba) - bs + 1, Len(lba)) ELSE PadTo(lba, bs)
Block(st, lba) == IF lba \in DOMAIN st.blocks THEN st.blocks[lba] ELSE Fresh(st.bs, lba)
Next1(lba) == Add(lba, <<1>>)
Nth(lba, i) == Add(lba, OfNat(i))
Area(lba, n) == {Nth(lba, i) : i \in 0..(n - 1)}
Reading(st, lba, n) == Concat([i \in 1..n |-> Block(st, Nth(lba, i - 1))])
\* blocks lba .. lba + n - 1 get data[1..n]
Written(st, lba, data) ==
    LET n == Len(data)
        new == {<<Nth(lba, i - 1), data[i]>> : i \in 1..n}
    IN [st EXCEPT !.blocks = [x \in DOMAIN @ \cup {p[1] : p \in new} |->
                                 IF \E p \in new : p[1] = x THEN (CHOOSE p \in new : p[1] = x)[2] ELSE @[x]]]
InBlocks(bs, data) == [i \in 1..(Len(data) \div bs) |-> Slice(data, bs * (i - 1), bs)]
Inside(st, lba, n) == LessEq(Add(lba, n), st.size)

\* ---- answers: [st, status, sense <<key, asc, ascq>>, data] ------------------------
Good(st, data) == [st |-> st, status |-> 0, sense |-> <<>>, data |-> data]
Conflict(st) == [st |-> st, status |-> 24, sense |-> <<>>, data |-> <<>>]
Check(st, key, asc, ascq) == [st |-> st, status |-> 2, sense |-> <<key, asc, ascq>>, data |-> <<>>]
OutOfRange(st) == Check(st, 5, 33, 0)
BadField(st) == Check(st, 5, 36, 0)
BadList(st) == Check(st, 5, 38, 0)
BadRelease(st) == Check(st, 5, 38, 4)
Miscompare(st) == Check(st, 14, 29, 0)

\* ---- who may do what -----------------------------------------------------------
Registered(st, who) == st.keys[who] # <<>>
All(t) == t \in {7, 8}                                     \* all registrants hold it
Holds(st, who) == st.holder # 0 /\ (IF All(st.type) THEN Registered(st, who) ELSE st.holder = who)
Writers == {"write", "same", "caw", "unmap"}
Media == {"read"} \cup Writers
Blocked(st, who, do) ==
    \/ st.lock # 0 /\ st.lock # who /\ do \in Media
    \/ /\ st.holder # 0 /\ ~Holds(st, who) /\ do \in Media
       /\ CASE st.type = 1 -> do \in Writers
            [] st.type = 3 -> TRUE
            [] st.type \in {5, 7} -> do \in Writers /\ ~Registered(st, who)
            [] st.type \in {6, 8} -> ~Registered(st, who)
            [] OTHER -> FALSE

\* ---- persistent reservations ----------------------------------------------------
Types == {1, 3, 5, 6, 7, 8}
Who(st) == DOMAIN st.keys
Bump(st) == [st EXCEPT !.gen = LET g == Add(@, <<1>>) IN IF Len(g) > 4 THEN <<>> ELSE g]
\* some registrations are gone; so is the reservation if nobody is left to hold it
Without(st, gone) ==
    LET s == [st EXCEPT !.keys = [i \in DOMAIN @ |-> IF i \in gone THEN <<>> ELSE @[i]]]
        left == {i \in Who(s) : Registered(s, i)}
    IN IF st.holder = 0 THEN s
       ELSE IF All(st.type) THEN (IF left = {} THEN [s EXCEPT !.holder = 0, !.type = 0] ELSE s)
       ELSE IF st.holder \in gone THEN [s EXCEPT !.holder = 0, !.type = 0] ELSE s
Register(st, who, m) ==
    IF m.spec \/ m.alltg THEN BadList(st)
    ELSE IF m.sakey = <<>> THEN (IF Registered(st, who) THEN Good([Bump(Without(st, {who})) EXCEPT !.aptpl = m.aptpl], <<>>) ELSE Good(st, <<>>))
    ELSE Good([Bump([st EXCEPT !.keys[who] = m.sakey]) EXCEPT !.aptpl = m.aptpl], <<>>)
Hold(st, who, t) == [st EXCEPT !.holder = who, !.type = t]
Others(st, who, key) == {i \in Who(st) : i # who /\ st.keys[i] = key}
Preempt(st, who, m) ==
    LET same == Others(st, who, m.sakey)
    IN IF st.holder # 0 /\ All(st.type) /\ m.sakey = <<>>
       THEN IF m.type \notin Types THEN BadField(st)
            ELSE Good(Bump(Hold([Without(st, Who(st) \ {who}) EXCEPT !.keys[who] = st.keys[who]], who, m.type)), <<>>)
       ELSE IF m.sakey = <<>> THEN BadList(st)
       ELSE IF st.holder # 0 /\ ~All(st.type) /\ st.keys[st.holder] = m.sakey
       THEN IF m.type \notin Types THEN BadField(st) ELSE Good(Bump(Hold(Without(st, same), who, m.type)), <<>>)
       ELSE IF same = {} /\ st.keys[who] # m.sakey THEN Conflict(st)
       ELSE Good(Bump(Without(st, same)), <<>>)
MoveTo(st, who, m) ==
    IF st.holder # who \/ All(st.type) THEN Conflict(st)
    ELSE IF m.sakey = <<>> \/ m.to \notin Who(st) \/ m.to = who \/ m.port # <<1>> THEN BadList(st)
    ELSE Good(Bump([st EXCEPT !.keys = [i \in DOMAIN @ |-> IF i = m.to THEN m.sakey ELSE IF i = who /\ m.unreg THEN <<>> ELSE @[i]],
                              !.holder = m.to, !.aptpl = m.aptpl]), <<>>)
PrOut(st, who, m) ==
    IF st.lock # 0 THEN Conflict(st)
    ELSE IF m.action = 0 /\ m.key # st.keys[who] THEN Conflict(st)
    ELSE IF m.action \in {1, 2, 3, 4, 5, 7} /\ (~Registered(st, who) \/ m.key # st.keys[who]) THEN Conflict(st)
    ELSE CASE m.action \in {0, 6} -> Register(st, who, m)
           [] m.action = 1 -> IF m.type \notin Types THEN BadField(st)
                              ELSE IF st.holder = 0 THEN Good(Hold(st, who, m.type), <<>>)
                              ELSE IF Holds(st, who) /\ st.type = m.type THEN Good(st, <<>>) ELSE Conflict(st)
           [] m.action = 2 -> IF ~Holds(st, who) THEN Good(st, <<>>)
                              ELSE IF st.type # m.type THEN BadRelease(st) ELSE Good([st EXCEPT !.holder = 0, !.type = 0], <<>>)
           [] m.action = 3 -> Good(Bump(Without(st, Who(st))), <<>>)
           [] m.action \in {4, 5} -> Preempt(st, who, m)
           [] m.action = 7 -> MoveTo(st, who, m)
           [] OTHER -> BadField(st)
\* initiator i is the Fibre Channel port 500000000000000i
Port(i) == <<0, 0, 0, 0, 0, 0, 0, 0, 80, 0, 0, 0, 0, 0, 0, i>> \o Zeros(8)
PortOf(tid) == IF Len(tid) = 24 /\ tid = Port(tid[16]) THEN tid[16] ELSE 0
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o Sorted(S \ {m})
Registrants(st) == Sorted({i \in Who(st) : Registered(st, i)})
Sized(gen, body) == PadTo(gen, 4) \o PadTo(OfNat(Len(body)), 4) \o body
HolderKey(st) == IF All(st.type) THEN <<>> ELSE st.keys[st.holder]
PrIn(st, m) ==
    LET rs == Registrants(st)
    IN IF st.lock # 0 THEN Conflict(st)
       ELSE CASE m.action = 0 -> Good(st, Sized(st.gen, Concat([i \in DOMAIN rs |-> PadTo(st.keys[rs[i]], 8)])))
              [] m.action = 1 -> Good(st, Sized(st.gen, IF st.holder = 0 THEN <<>> ELSE PadTo(HolderKey(st), 8) \o Zeros(5) \o <<st.type, 0, 0>>))
              [] m.action = 2 -> Good(st, <<0, 8, 1, 128 + (IF st.aptpl THEN 1 ELSE 0), 234, 1, 0, 0>>)
              [] m.action = 3 -> Good(st, Sized(st.gen, Concat([i \in DOMAIN rs |->
                                     PadTo(st.keys[rs[i]], 8) \o Zeros(4) \o
                                     (IF Holds(st, rs[i]) THEN <<1, st.type>> ELSE <<0, 0>>) \o Zeros(4) \o <<0, 1>> \o <<0, 0, 0, 24>> \o Port(rs[i])])))
              [] OTHER -> BadField(st)

\* ---- one command -----------------------------------------------------------------
Minus1(v) == LET RECURSIVE Dec(_, _)                         \* of a natural that is not zero
                 Dec(x, i) == IF x[i] > 0 THEN [x EXCEPT ![i] = @ - 1] ELSE Dec([x EXCEPT ![i] = 255], i - 1)
             IN Strip(Dec(v, Len(v)))
Effect(st, who, m) ==
    CASE m.do = "read" -> IF ~Inside(st, m.lba, m.n) THEN OutOfRange(st) ELSE Good(st, Reading(st, m.lba, ToNat(m.n)))
      [] m.do = "write" -> IF ~Inside(st, m.lba, m.n) THEN OutOfRange(st) ELSE Good(Written(st, m.lba, InBlocks(st.bs, m.data)), <<>>)
      [] m.do = "same" -> IF m.n = <<>> THEN BadField(st)          \* this device does not do "up to the end"
                          ELSE IF ~Inside(st, m.lba, m.n) THEN OutOfRange(st)
                          ELSE Good(Written(st, m.lba, [i \in 1..ToNat(m.n) |-> m.data]), <<>>)
      [] m.do = "caw" -> IF ~Inside(st, m.lba, m.n) THEN OutOfRange(st)
                         ELSE LET n == ToNat(m.n)
                                  halves == InBlocks(st.bs, m.data)
                              IN IF Concat(SubSeq(halves, 1, n)) # Reading(st, m.lba, n) THEN Miscompare(st)
                                 ELSE Good(Written(st, m.lba, SubSeq(halves, n + 1, 2 * n)), <<>>)
      [] m.do = "unmap" -> IF \E i \in DOMAIN m.ranges : ~Inside(st, m.ranges[i].lba, m.ranges[i].count) THEN OutOfRange(st)
                           ELSE LET RECURSIVE Un(_, _)
                                    Un(s, i) == IF i > Len(m.ranges) THEN s
                                                ELSE Un(Written(s, m.ranges[i].lba, [j \in 1..ToNat(m.ranges[i].count) |-> Zeros(s.bs)]), i + 1)
                                IN Good(Un(st, 1), <<>>)
      [] m.do = "tur" -> Good(st, <<>>)
      [] m.do = "cap10" -> Good(st, (IF Len(Minus1(st.size)) > 4 THEN <<255, 255, 255, 255>> ELSE PadTo(Minus1(st.size), 4)) \o PadTo(OfNat(st.bs), 4))
      [] m.do = "cap16" -> Good(st, PadTo(Minus1(st.size), 8) \o PadTo(OfNat(st.bs), 4) \o Zeros(20))
      [] m.do = "prin" -> PrIn(st, m)
      [] m.do = "prout" -> PrOut(st, who, m)
      [] m.do = "reserve" -> IF (\E i \in Who(st) : Registered(st, i)) \/ st.lock \notin {0, who} THEN Conflict(st)
                             ELSE Good([st EXCEPT !.lock = who], <<>>)
      [] m.do = "release" -> IF \E i \in Who(st) : Registered(st, i) THEN Conflict(st)
                             ELSE Good([st EXCEPT !.lock = IF @ = who THEN 0 ELSE @], <<>>)
      [] OTHER -> Check(st, 5, 32, 0)
Step(st, who, m) == IF Blocked(st, who, m.do) THEN Conflict(st) ELSE Effect(st, who, m)

\* ================================ what was asked ====================================
V(a, f) == C!V(a, f)
Flag(a, f) == V(a, f) # <<>>
Asked(name, a) ==
    CASE name = "Read6" -> [do |-> "read", lba |-> V(a, "lba"), n |-> IF V(a, "length") = <<>> THEN <<1, 0>> ELSE V(a, "length")]
      [] C!IsRead(name) -> [do |-> "read", lba |-> V(a, "lba"), n |-> V(a, "length")]
      [] C!IsWrite(name) -> [do |-> "write", lba |-> V(a, "lba"), n |-> OfNat(C!Blocks(a)), data |-> a.data]
      [] name \in {"WriteSame10", "WriteSame16"} -> [do |-> "same", lba |-> V(a, "lba"), n |-> V(a, "number"), data |-> a.data]
      [] name = "CompareAndWrite" -> [do |-> "caw", lba |-> V(a, "lba"), n |-> V(a, "number"), data |-> a.data]
      [] name = "Unmap" -> [do |-> "unmap", ranges |-> [i \in DOMAIN a.ranges |-> [lba |-> a.ranges[i].lba.v, count |-> a.ranges[i].count.v]]]
      [] name = "TestUnitReady" -> [do |-> "tur"]
      [] name = "ReadCapacity10" -> [do |-> "cap10"]
      [] name = "ReadCapacity16" -> [do |-> "cap16"]
      [] name = "PersistentReserveIn" -> [do |-> "prin", action |-> C!N(a, "action")]
      [] name = "PersistentReserveOut" ->
            LET move == C!N(a, "action") = 7
            IN [do |-> "prout", action |-> C!N(a, "action"), type |-> C!N(a, "type"), key |-> V(a, "key"), sakey |-> V(a, "sakey"),
                aptpl |-> Flag(a, "aptpl"), spec |-> ~move /\ Flag(a, "spec_i_pt"), alltg |-> ~move /\ Flag(a, "all_tg_pt"), unreg |-> move /\ Flag(a, "unreg"),
                port |-> IF move THEN V(a, "rtpi") ELSE <<>>,
                to |-> IF move THEN PortOf(<<64 * C!N(a, "tidformat") + C!N(a, "tidprotocol")>> \o a.tiddata) ELSE 0]
      [] name \in {"Reserve6", "Reserve10"} -> [do |-> "reserve"]
      [] name \in {"Release6", "Release10"} -> [do |-> "release"]

\* =========================== what reached the device ================================
Names == {"Read6", "Read10", "Read12", "Read16", "Write6", "Write10", "Write12", "Write16", "WriteSame10", "WriteSame16", "CompareAndWrite", "Unmap",
          "TestUnitReady", "ReadCapacity10", "ReadCapacity16", "PersistentReserveIn", "PersistentReserveOut", "Reserve6", "Reserve10", "Release6", "Release10"}
NamesFor(cdb) == {x \in Names : LET lay == C!Layout[x] IN cdb # <<>> /\ lay.op = cdb[1] /\ Len(cdb) = lay.len /\ (lay.fixed # 0 => cdb[2] % 32 = lay.fixed)}
Nonsense == [do |-> "nonsense"]
Ranges(data) == [i \in 1..((Len(data) - 8) \div 16) |-> [lba |-> Strip(Slice(data, 16 * i - 8, 8)), count |-> Strip(Slice(data, 16 * i, 4))]]
Listed(fields, data, f) == C!FieldOf(data, C!FieldNamed(fields, f))
Meaning(bs, cdb, data) ==
    IF Cardinality(NamesFor(cdb)) # 1 THEN Nonsense
    ELSE LET name == CHOOSE x \in NamesFor(cdb) : TRUE
             Fd(f) == C!ValueOf(name, cdb, f)
             long == IF name \in {"Read6", "Write6"} /\ Fd("length") = <<>> THEN <<1, 0>> ELSE Fd("length")
             move == Listed(C!MoveList, data, "tidlen")
         IN CASE C!IsRead(name) -> [do |-> "read", lba |-> Fd("lba"), n |-> long]
              [] C!IsWrite(name) -> IF Mul(long, OfNat(bs)) # OfNat(Len(data)) THEN Nonsense
                                    ELSE [do |-> "write", lba |-> Fd("lba"), n |-> long, data |-> data]
              [] name \in {"WriteSame10", "WriteSame16"} -> IF Len(data) # bs THEN Nonsense
                                    ELSE IF name = "WriteSame16" /\ Fd("unmap") # <<>> THEN Nonsense
                                    ELSE [do |-> "same", lba |-> Fd("lba"), n |-> Fd("number"), data |-> data]
              [] name = "CompareAndWrite" -> IF Len(data) # 2 * bs * ToNat(Fd("number")) THEN Nonsense
                                    ELSE [do |-> "caw", lba |-> Fd("lba"), n |-> Fd("number"), data |-> data]
              [] name = "Unmap" -> IF Len(data) < 8 \/ Fd("plen") # OfNat(Len(data)) \/ ToNat(Slice(data, 0, 2)) # Len(data) - 2
                                      \/ ToNat(Slice(data, 2, 2)) # Len(data) - 8 \/ (Len(data) - 8) % 16 # 0 THEN Nonsense
                                   ELSE [do |-> "unmap", ranges |-> Ranges(data)]
              [] name = "TestUnitReady" -> [do |-> "tur"]
              [] name = "ReadCapacity10" -> [do |-> "cap10"]
              [] name = "ReadCapacity16" -> [do |-> "cap16"]
              [] name = "PersistentReserveIn" -> [do |-> "prin", action |-> ToNat(Fd("action"))]
              [] name = "PersistentReserveOut" ->
                    IF Fd("plen") # OfNat(Len(data)) THEN Nonsense
                    ELSE LET p == [do |-> "prout", action |-> ToNat(Fd("action")), type |-> ToNat(Fd("type")), key |-> Strip(Slice(data, 0, 8)),
                                   sakey |-> Strip(Slice(data, 8, 8)), aptpl |-> FALSE, spec |-> FALSE, alltg |-> FALSE, unreg |-> FALSE, port |-> <<>>, to |-> 0]
                         IN IF p.action = 7
                            THEN IF Len(data) < 24 \/ move # OfNat(Len(data) - 24) THEN Nonsense
                                 ELSE [p EXCEPT !.aptpl = HasBit(At(data, 17), 0), !.unreg = HasBit(At(data, 17), 1), !.port = Strip(Slice(data, 18, 2)),
                                                !.to = PortOf(D!From(data, 24))]
                            ELSE IF Len(data) # 24 THEN Nonsense
                            ELSE [p EXCEPT !.aptpl = HasBit(At(data, 20), 0), !.alltg = HasBit(At(data, 20), 2), !.spec = HasBit(At(data, 20), 3)]
              [] name \in {"Reserve6", "Reserve10"} -> IF name = "Reserve10" /\ (Fd("third") # <<>> \/ Fd("longid") # <<>>) THEN Nonsense ELSE [do |-> "reserve"]
              [] name \in {"Release6", "Release10"} -> IF name = "Release10" /\ (Fd("third") # <<>> \/ Fd("longid") # <<>>) THEN Nonsense ELSE [do |-> "release"]

\* ============================== what the user is told =================================
P0 == [page |-> 0, action |-> 0, alloc |-> 16384, allow |-> FALSE, format |-> 0, conf |-> <<>>]
Keys == <<"NO_SENSE", "RECOVERED_ERROR", "NOT_READY", "MEDIUM_ERROR", "HARDWARE_ERROR", "ILLEGAL_REQUEST", "UNIT_ATTENTION", "DATA_PROTECT", "BLANK_CHECK",
          "VENDOR_SPECIFIC", "COPY_ABORTED", "ABORTED_COMMAND", "RESERVED1", "VOLUME_OVERFLOW", "MISCOMPARE">>
(* r is what the device answered, with n the bytes it was asked for; out is what the caller got: a value or an error; of a CHECK
   CONDITION also its key and code.                                                                                          *)
ToldFails(m, r, n, out, cc) ==
    IF r.status = 24 THEN If(RaisedA(out, "AsiSCSIError"), "a reservation conflict is not reported")
    ELSE IF r.status = 2 THEN If(RaisedA(out, "AsiCheckConditionError"), "a check condition is not reported") \cup
                              (IF RaisedA(out, "AsiCheckConditionError") THEN If(cc = <<Keys[r.sense[1] + 1], r.sense[2], r.sense[3]>>, "sense data") ELSE {})
    ELSE IF r.status # 0 THEN If(RaisedA(out, "AsiSCSIError"), "a failure is not reported")
    ELSE IF Raised(out) THEN {"a success is reported as a failure"}
    ELSE LET Shown(kind, p) == D!DecodeFails([kind |-> kind, par |-> p, page |-> r.data, n |-> n, default |-> FALSE, out |-> out])
         IN CASE m.do = "read" -> If(IsBytes(out, r.data) \/ (r.data = <<>> /\ IsNone(out)), "data read")
              [] m.do = "tur" -> If(IsNat(out, <<1>>), "unit ready")
              [] m.do \in {"cap10", "cap16"} -> Shown(m.do, P0)
              [] m.do = "prin" -> Shown("prin", [P0 EXCEPT !.action = m.action])
              [] OTHER -> If(IsNone(out), "a result without data")
\* a reservation conflict has its own error on Linux
ConflictFails(plat, r, out) == If(r.status = 24 /\ plat \in {"linux", "linux_ioctl"} => RaisedA(out, "AsiReservationConflictError"), "no reservation conflict error")
===============================================================================
