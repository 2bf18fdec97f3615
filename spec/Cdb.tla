---------------------------------- MODULE Cdb ----------------------------------
(* The SCSI commands the library sends: what each request looks like on the wire (SBC-3, SPC-4), which requests can be
   expressed at all, and what moves.  A request is a name and a record of arguments; an argument is a tagged number
   (see Bytes).  Stateless: what a command sends is a function of its own arguments and of nothing else.              *)
EXTENDS Bytes

If(b, x) == IF b THEN {} ELSE {x}

\* ================================== layouts =====================================
\* a field is <<name of the argument, pieces <<byte, high bit, low bit>>, most significant piece first>>
B(a, n) == [i \in 1..n |-> <<a + i - 1, 7, 0>>]
F(f, a, n) == <<f, B(a, n)>>                             \* whole bytes
G(f, byte, hi, lo) == <<f, <<<<byte, hi, lo>>>>>>          \* bits of one byte
Control(byte) == <<G("naca", byte, 2, 2), G("vendor", byte, 7, 6)>>
Protect(f) == <<G(f, 1, 7, 5), G("dpo", 1, 4, 4), G("fua", 1, 3, 3)>>
FuaNv == <<G("fua_nv", 1, 1, 1)>>
Group(byte) == <<G("group", byte, 4, 0)>>
L(op, n, fields) == [op |-> op, len |-> n, fields |-> fields \o Control(n - 1), fixed |-> 0]
S(op, sa, n, fields) == [L(op, n, fields) EXCEPT !.fixed = sa]   \* with a service action in byte 1
Layout == [
  Read6   |-> L(8, 6, <<<<"lba", <<<<1, 4, 0>>, <<2, 7, 0>>, <<3, 7, 0>>>>>>, F("length", 4, 1)>>),
  Read10  |-> L(40, 10, <<F("lba", 2, 4), F("length", 7, 2)>> \o Protect("protect") \o FuaNv \o Group(6)),
  Read12  |-> L(168, 12, <<F("lba", 2, 4), F("length", 6, 4)>> \o Protect("protect") \o <<G("reladr", 1, 0, 0)>>),
  Read16  |-> L(136, 16, <<F("lba", 2, 8), F("length", 10, 4)>> \o Protect("protect") \o FuaNv \o Group(14) \o <<G("mmc4", 14, 7, 7)>>),
  Write6  |-> L(10, 6, <<<<"lba", <<<<1, 4, 0>>, <<2, 7, 0>>, <<3, 7, 0>>>>>>, F("length", 4, 1)>>),
  Write10 |-> L(42, 10, <<F("lba", 2, 4), F("length", 7, 2)>> \o Protect("protect") \o FuaNv \o Group(6)),
  Write12 |-> L(170, 12, <<F("lba", 2, 4), F("length", 6, 4)>> \o Protect("protect") \o FuaNv \o Group(10)),
  Write16 |-> L(138, 16, <<F("lba", 2, 8), F("length", 10, 4)>> \o Protect("protect") \o FuaNv \o Group(14)),
  WriteSame10 |-> L(65, 10, <<F("lba", 2, 4), F("number", 7, 2), G("protect", 1, 7, 5), G("pbdata", 1, 2, 2), G("lbdata", 1, 1, 1)>> \o Group(6)),
  WriteSame16 |-> L(147, 16, <<F("lba", 2, 8), F("number", 10, 4), G("protect", 1, 7, 5), G("unmap", 1, 3, 3), G("pbdata", 1, 2, 2),
                               G("lbdata", 1, 1, 1)>> \o Group(14)),
  CompareAndWrite |-> L(137, 16, <<F("lba", 2, 8), F("number", 13, 1)>> \o Protect("protect") \o FuaNv \o Group(14)),
  Unmap   |-> L(66, 10, <<F("plen", 7, 2)>> \o Group(6)),
  Inquiry |-> L(18, 6, <<G("evpd", 1, 0, 0), F("page", 2, 1), F("alloc", 3, 2)>>),
  ReadCapacity10 |-> L(37, 10, <<F("lba", 2, 4), G("pmi", 8, 0, 0)>>),
  ReadCapacity16 |-> S(158, 16, 16, <<F("lba", 2, 8), F("alloc", 10, 4), G("pmi", 14, 0, 0)>>),
  ReportLuns |-> L(160, 12, <<F("select", 2, 1), F("alloc", 6, 4)>>),
  Rtpg    |-> S(163, 10, 12, <<G("format", 1, 7, 5), F("alloc", 6, 4)>>),
  CopyParameters |-> [op |-> 132, len |-> 16, fixed |-> 3, fields |-> <<F("alloc", 10, 4), F("control", 15, 1)>>],
  LogSense |-> L(77, 10, <<G("sp", 1, 0, 0), G("pc", 2, 7, 6), G("page", 2, 5, 0), F("subpage", 3, 1), F("pointer", 5, 2), F("alloc", 7, 2)>>),
  ReceiveDiagnostic |-> L(28, 6, <<G("pcv", 1, 0, 0), F("page", 2, 1), F("alloc", 3, 2)>>),
  TestUnitReady |-> L(0, 6, <<>>),
  Reserve6 |-> L(22, 6, <<>>),
  Release6 |-> L(23, 6, <<>>),
  Reserve10 |-> L(86, 10, <<G("third", 1, 4, 4), G("longid", 1, 1, 1), F("id", 3, 1), F("plen", 7, 2)>>),
  Release10 |-> L(87, 10, <<G("third", 1, 4, 4), G("longid", 1, 1, 1), F("id", 3, 1), F("plen", 7, 2)>>),
  PersistentReserveIn |-> L(94, 10, <<G("action", 1, 4, 0), F("alloc", 7, 2)>>),
  PersistentReserveOut |-> L(95, 10, <<G("action", 1, 4, 0), G("type", 2, 3, 0), F("plen", 5, 4)>>)]
Names == DOMAIN Layout
\* parameter lists
PrList == <<F("key", 0, 8), F("sakey", 8, 8), G("spec_i_pt", 20, 3, 3), G("all_tg_pt", 20, 2, 2), G("aptpl", 20, 0, 0)>>
MoveList == <<F("key", 0, 8), F("sakey", 8, 8), G("unreg", 17, 1, 1), G("aptpl", 17, 0, 0), F("rtpi", 18, 2), F("tidlen", 20, 4),
              G("tidformat", 24, 7, 6), G("tidprotocol", 24, 3, 0)>>

\* ================================= encoding =====================================
Width(ps) == LET w[i \in 0..Len(ps)] == IF i = 0 THEN 0 ELSE w[i - 1] + ps[i][2] - ps[i][3] + 1 IN w[Len(ps)]
RECURSIVE Positions(_)                                    \* <<byte, bit>> of a field's bits, most significant first
Positions(ps) == IF ps = <<>> THEN <<>>
                 ELSE LET p == Head(ps) IN [k \in 1..(p[2] - p[3] + 1) |-> <<p[1], p[2] - k + 1>>] \o Positions(Tail(ps))
BitLen(v) == IF v = <<>> THEN 0
             ELSE 8 * (Len(v) - 1) + (CHOOSE n \in 1..8 : P2(n - 1) <= v[1] /\ v[1] < P2(n))
BitAt(v, j) == LET byte == Len(v) - (j \div 8) IN byte >= 1 /\ HasBit(v[byte], j % 8)     \* bit j of a natural
FieldOnes(f, v) == LET ps == Positions(f[2]) IN {ps[i] : i \in {i \in 1..Len(ps) : BitAt(v, Len(ps) - i)}}
\* vals: a record with (at least) the fields that are not zero
Ones(fields, vals) == UNION {FieldOnes(fields[i], vals[fields[i][1]]) : i \in {i \in DOMAIN fields : fields[i][1] \in DOMAIN vals}}
Bit(ones, i, k) == IF <<i, k>> \in ones THEN P2(k) ELSE 0
Pack(n, ones) == [i \in 1..n |-> Bit(ones, i - 1, 0) + Bit(ones, i - 1, 1) + Bit(ones, i - 1, 2) + Bit(ones, i - 1, 3)
                                + Bit(ones, i - 1, 4) + Bit(ones, i - 1, 5) + Bit(ones, i - 1, 6) + Bit(ones, i - 1, 7)]
Encode(name, vals) ==
    LET lay == Layout[name]
        b == Pack(lay.len, Ones(lay.fields, vals))
    IN [b EXCEPT ![1] = lay.op, ![2] = @ + lay.fixed]
FieldOf(b, f) == BitNat(PieceBits(b, f[2]))
FieldNamed(fields, n) == fields[CHOOSE i \in DOMAIN fields : fields[i][1] = n]
ValueOf(name, cdb, n) == FieldOf(cdb, FieldNamed(Layout[name].fields, n))
FieldNames(fields) == {fields[i][1] : i \in DOMAIN fields}

\* ================================= requests =====================================
Nat1 == <<1>>
V(a, f) == IF f \in DOMAIN a THEN a[f].v ELSE <<>>
N(a, f) == ToNat(V(a, f))
IsWrite(name) == name \in {"Write6", "Write10", "Write12", "Write16"}
IsRead(name) == name \in {"Read6", "Read10", "Read12", "Read16"}
Whole(a) == N(a, "buflen") % N(a, "bs") = 0
Blocks(a) == N(a, "buflen") \div N(a, "bs")
Move(a) == N(a, "action") = 7
LongId(a) == ~Less(V(a, "id"), <<255>>)
\* the values of the fields that are not arguments themselves
Derived(name, a) ==
    CASE IsWrite(name) -> [length |-> IF name = "Write6" THEN OfNat(Blocks(a) % 256) ELSE OfNat(Blocks(a))]
      [] name = "Read6" -> [length |-> IF V(a, "length") = <<1, 0>> THEN <<>> ELSE V(a, "length")]
      [] name = "Unmap" -> [plen |-> OfNat(8 + 16 * Len(a.ranges))]
      [] name = "Reserve10" \/ name = "Release10" ->
            IF V(a, "id") = <<>> THEN [third |-> <<>>]
            ELSE IF LongId(a) THEN [third |-> Nat1, longid |-> Nat1, id |-> <<>>, plen |-> <<8>>]
            ELSE [third |-> Nat1]
      [] name = "PersistentReserveOut" -> [plen |-> OfNat(IF Move(a) THEN 25 + Len(a.tiddata) ELSE 24)]
      [] name = "ReadCapacity16" -> [alloc |-> IF "alloc" \in DOMAIN a THEN V(a, "alloc") ELSE <<32>>]
      [] OTHER -> [none |-> <<>>]
ListFields(name, a) == IF name # "PersistentReserveOut" THEN <<>> ELSE IF Move(a) THEN MoveList ELSE PrList
Numbers(a) == {f \in DOMAIN a : f \notin {"ranges", "tiddata", "data"}}
Vals(name, a) ==
    LET d == Derived(name, a)
        fs == {f \in Numbers(a) : a[f].t = "i"}
    IN [f \in fs \cup DOMAIN d |-> IF f \in DOMAIN d THEN d[f] ELSE a[f].v]
FieldFits(f, a) == f[1] \notin DOMAIN a \/ (a[f[1]].t = "i" /\ BitLen(a[f[1]].v) <= Width(f[2]))
\* Can this request be expressed by this command at all?
RangeFits(r) == r.lba.t = "i" /\ Fits(r.lba.v, 8) /\ r.count.t = "i" /\ Fits(r.count.v, 4)
Expressible(name, a) ==
    LET fields == Layout[name].fields
        special == (IF name \in {"Reserve10", "Release10"} THEN {"id"} ELSE {}) \cup (IF name = "Read6" THEN {"length"} ELSE {})
    IN /\ \A i \in DOMAIN fields : fields[i][1] \in special \/ FieldFits(fields[i], a)
       /\ \A i \in DOMAIN ListFields(name, a) : FieldFits(ListFields(name, a)[i], a)
       /\ \A f \in Numbers(a) : a[f].t = "i"
       /\ (IsWrite(name) => /\ Whole(a)
                            /\ BitLen(OfNat(Blocks(a))) <= (IF name = "Write6" THEN 9 ELSE Width(FieldNamed(fields, "length")[2]))
                            /\ (name = "Write6" => Blocks(a) \in 1..256))
       /\ (name = "Read6" => LessEq(V(a, "length"), <<1, 0>>))
       /\ (name \in {"WriteSame10", "WriteSame16", "CompareAndWrite"} => Whole(a))
       /\ (name \in {"Reserve10", "Release10"} => Fits(V(a, "id"), 8))
       /\ (name = "Unmap" => /\ Len(a.ranges) <= 4095
                             /\ \A i \in DOMAIN a.ranges : RangeFits(a.ranges[i]))
\* Requests that the library may refuse although they could be expressed, or whose meaning the device decides
MayRefuse(name, a) ==
    \/ name = "Read6" /\ V(a, "length") = <<1, 0>>
    \/ IsWrite(name) /\ Blocks(a) = 0
    \/ name \in {"WriteSame10", "WriteSame16"} /\ Blocks(a) # 1
    \/ name = "CompareAndWrite" /\ Blocks(a) # 2 * N(a, "number")
    \/ name = "PersistentReserveIn" /\ (Less(V(a, "alloc"), <<8>>) \/ N(a, "action") > 3)
    \/ name = "PersistentReserveOut" /\ N(a, "action") > 8
    \/ name = "Rtpg" /\ N(a, "format") > 1
    \/ name = "Unmap" /\ a.ranges = <<>>

\* ============================ what moves ========================================
Direction(name) == IF IsRead(name) \/ name \in {"Inquiry", "ReadCapacity10", "ReadCapacity16", "ReportLuns", "Rtpg", "CopyParameters",
                                               "LogSense", "ReceiveDiagnostic", "TestUnitReady", "PersistentReserveIn"}
                   THEN "in" ELSE "out"
\* the bytes a read asks for, as a natural; cdb is what was sent
InLength(name, a, cdb) ==
    CASE name = "Read6" -> Mul(IF V(a, "length") = <<>> THEN <<1, 0>> ELSE V(a, "length"), V(a, "bs"))
      [] IsRead(name) -> Mul(V(a, "length"), V(a, "bs"))
      [] name = "ReadCapacity10" -> <<8>>
      [] name = "TestUnitReady" -> <<>>
      [] OTHER -> ValueOf(name, cdb, "alloc")
ListFails(n, fields, vals, tail, data) ==
    LET head == Pack(n, Ones(fields, vals))
    IN If(data = head \o tail, "parameter list")
DescriptorFails(a, data) ==
    LET n == Len(a.ranges)
    IN If(/\ Len(data) = 8 + 16 * n
          /\ Slice(data, 0, 8) = PadTo(OfNat(16 * n + 6), 2) \o PadTo(OfNat(16 * n), 2) \o Zeros(4), "unmap header") \cup
       If(\A i \in 1..n : Slice(data, 16 * i - 8, 16) = PadTo(a.ranges[i].lba.v, 8) \o PadTo(a.ranges[i].count.v, 4) \o Zeros(4), "unmap descriptor")
DataFails(name, a, data) ==
    CASE name = "Unmap" -> DescriptorFails(a, data)
      [] name = "PersistentReserveOut" ->
            IF Move(a) THEN ListFails(25, MoveList, [f \in DOMAIN Vals(name, a) \cup {"tidlen"} |->
                                         IF f = "tidlen" THEN OfNat(1 + Len(a.tiddata)) ELSE Vals(name, a)[f]], a.tiddata, data)
            ELSE ListFails(24, PrList, Vals(name, a), <<>>, data)
      [] name \in {"Reserve10", "Release10"} -> If(data = (IF V(a, "id") # <<>> /\ LongId(a) THEN PadTo(V(a, "id"), 8) ELSE <<>>), "parameter list")
      [] name \in {"Reserve6", "Release6"} -> If(data = <<>>, "parameter list")
      [] OTHER -> If(data = a.data, "data to be written")
CdbFails(name, a, cdb) ==
    LET lay == Layout[name]
        vals == Vals(name, a)
        want == Encode(name, vals)
        free == IF "alloc" \in FieldNames(lay.fields) /\ "alloc" \notin DOMAIN vals THEN {"alloc"} ELSE {}     \* the default
        got == IF free # {} /\ Len(cdb) = lay.len
               THEN Encode(name, [f \in DOMAIN vals \cup free |-> IF f \in free THEN ValueOf(name, cdb, f) ELSE vals[f]]) ELSE want
    IN IF cdb = got THEN {}
       ELSE IF Len(cdb) # lay.len THEN {"length of the command"}
       ELSE LET bad == {f \in FieldNames(lay.fields) \ free : ValueOf(name, cdb, f) # (IF f \in DOMAIN vals THEN vals[f] ELSE <<>>)}
            IN IF bad = {} THEN {"operation code or reserved bits"} ELSE {"field " \o f : f \in bad}
\* ============================== one execution ===================================
(* e: [name, a, sent, out, ok]: sent is what reached the OS, one record [cdb, way, n, data] per command; ok says whether the
   device answers with good status (and data); out is what the caller got.                                              *)
CommandFails(e) ==
    IF ~Expressible(e.name, e.a)
    THEN If(e.sent = <<>>, "a request that cannot be expressed was sent") \cup If(Raised(e.out), "a request that cannot be expressed succeeded")
    ELSE IF e.sent = <<>> THEN If(MayRefuse(e.name, e.a) /\ Raised(e.out), "a request was not sent")
    ELSE IF Len(e.sent) # 1 THEN {"sent more than once"}
    ELSE LET s == e.sent[1] IN
         CdbFails(e.name, e.a, s.cdb) \cup
         (IF Direction(e.name) = "in"
          THEN IF Len(s.cdb) # Layout[e.name].len THEN {}
               ELSE LET n == InLength(e.name, e.a, s.cdb) IN
                    If(s.n = n, "bytes to be read") \cup If(s.way = "in" \/ n = <<>>, "direction") \cup If(s.data = <<>>, "data sent by a read")
          ELSE If(s.way = "out" \/ s.n = <<>>, "direction") \cup DataFails(e.name, e.a, s.data)) \cup
         (IF ~e.ok THEN If(Raised(e.out), "failure reported as success")
          ELSE CASE IsRead(e.name) \/ e.name = "LogSense" -> If(IsBytes(e.out, e.answer) \/ (e.answer = <<>> /\ IsNone(e.out)), "data that was read")
                 [] e.name = "TestUnitReady" -> If(e.out.t = "i" /\ e.out.v = <<1>>, "unit ready")
                 [] Direction(e.name) = "out" -> If(IsNone(e.out), "a result without data")
                 [] OTHER -> {})
================================================================================
