-------------------------------- MODULE Sense --------------------------------
(* Sense data (SPC-4 4.5) and the names of additional sense codes (T10 asc-num). *)
EXTENDS Bytes

Keys == <<"NO_SENSE", "RECOVERED_ERROR", "NOT_READY", "MEDIUM_ERROR", "HARDWARE_ERROR", "ILLEGAL_REQUEST", "UNIT_ATTENTION",
          "DATA_PROTECT", "BLANK_CHECK", "VENDOR_SPECIFIC", "COPY_ABORTED", "ABORTED_COMMAND", "RESERVED", "VOLUME_OVERFLOW",
          "MISCOMPARE", "COMPLETED">>
Code(b) == BitsOf(At(b, 0), 6, 0)
Fixed(b) == Code(b) \in {112, 113}
Descriptor(b) == Code(b) \in {114, 115}
Flag(x, k) == OfNat(BitsOf(x, k, k))

\* -- the descriptors of descriptor format sense data ------------------------
\* <<offset, length>> of each descriptor in the bytes d, or <<-1>> at the end if they are malformed
RECURSIVE Walk(_, _)
Walk(d, at) ==
    IF at = Len(d) THEN <<>>
    ELSE IF at + 2 > Len(d) \/ at + 2 + At(d, at + 1) > Len(d) \/ (At(d, at) = 0 /\ At(d, at + 1) # 10) THEN <<<<-1, 0>>>>
    ELSE <<<<at, 2 + At(d, at + 1)>>>> \o Walk(d, at + 2 + At(d, at + 1))
Descriptors(b) ==
    IF 8 + At(b, 7) > Len(b) THEN <<<<-1, 0>>>> ELSE Walk(Slice(b, 8, At(b, 7)), 0)
Malformed(b) == Descriptor(b) /\ (Len(b) < 8 \/ \E d \in Range(Descriptors(b)) : d[1] = -1)

DescriptorFails(o, d) ==
    (IF ~IsNat(Get(o, "descriptor_type"), OfNat(At(d, 0))) THEN {"descriptor type"} ELSE {}) \cup
    (IF At(d, 0) = 0 /\ ~IsBytes(Get(o, "data"), Slice(d, 2, Len(d) - 2))       \* raw data will do
     THEN (IF ~IsNat(Get(o, "valid"), Flag(At(d, 2), 7)) THEN {"descriptor valid"} ELSE {}) \cup
          (IF ~IsBytes(Get(o, "information"), Slice(d, 4, 8)) THEN {"descriptor information"} ELSE {})
     ELSE IF ~IsBytes(Get(o, "data"), Slice(d, 2, Len(d) - 2)) THEN {"descriptor data"} ELSE {})

\* -- clauses that the decoded object o of the sense data b breaks ------------
KeyIs(o, k) == Get(o, "sense_key") = [t |-> "e", v |-> Keys[k + 1]]
Nats(o, fs) == {f[1] : f \in {g \in fs : ~IsNat(Get(o, g[1]), g[2])}}
DecodedFails(o, b) ==
    LET code == Get(o, "response_code")
        asc == Get(o, "additional_sense_code")
        at == IF Fixed(b) THEN 12 ELSE 2
        sk == IF Fixed(b) THEN BitsOf(At(b, 2), 3, 0) ELSE BitsOf(At(b, 1), 3, 0)
    IN  Nats(code, {<<"code", OfNat(Code(b))>>, <<"valid", Flag(At(b, 0), 7)>>}) \cup
        Nats(asc, {<<"code", OfNat(At(b, at))>>, <<"qualifier", OfNat(At(b, at + 1))>>}) \cup
        (IF KeyIs(o, sk) THEN {} ELSE {"sense_key"}) \cup
        (IF Fixed(b)
         THEN Nats(o, {<<"filemark", Flag(At(b, 2), 7)>>, <<"eom", Flag(At(b, 2), 6)>>, <<"ili", Flag(At(b, 2), 5)>>,
                       <<"information", Strip(Slice(b, 3, 4))>>, <<"additional_sense_length", OfNat(At(b, 7))>>,
                       <<"command_specific_information", Strip(Slice(b, 8, 4))>>,
                       <<"field_replaceable_unit_code", OfNat(At(b, 14))>>, <<"sksv", Flag(At(b, 15), 7)>>,
                       <<"sense_key_specific_high", OfNat(BitsOf(At(b, 15), 6, 0))>>,
                       <<"sense_key_specific_low", OfNat(At(b, 16))>>})
         ELSE IF Malformed(b) THEN {}
         ELSE LET l == Get(o, "descriptors")
                  ds == Descriptors(b)
              IN IF ~IsList(l) \/ Len(l.v) # Len(ds) THEN {"descriptors"}
                 ELSE UNION {DescriptorFails(l.v[i], Slice(b, 8 + ds[i][1], ds[i][2])) : i \in DOMAIN ds})
SenseFails(o, b) ==
    IF Fixed(b) THEN (IF o.t = "o" THEN DecodedFails(o, b) ELSE {"sense data not decoded"})
    ELSE IF Descriptor(b)
    THEN (IF o.t = "o" THEN DecodedFails(o, b) ELSE IF Malformed(b) /\ (IsNone(o) \/ Raised(o)) THEN {} ELSE {"sense data not decoded"})
    ELSE IF IsNone(o) THEN {} ELSE {"decoded an unknown format"}

\* -- names --------------------------------------------------------------------
\* table: the T10 list, <<code, qualifier, name>>; names are sequences of code points
Digit(x, upper) == IF x < 10 THEN 48 + x ELSE (IF upper THEN 55 ELSE 87) + x
Number(q) ==                                   \* the ways to write a byte in hexadecimal
    {<<Digit(q \div 16, u), Digit(q % 16, u)>> : u \in BOOLEAN} \cup
    (IF q < 16 THEN {<<32, Digit(q, u)>> : u \in BOOLEAN} \cup {<<Digit(q, u)>> : u \in BOOLEAN} ELSE {})
Holds(s, t) == \E i \in 1..(Len(s) - Len(t) + 1) : SubSeq(s, i, i + Len(t) - 1) = t
NameIs(n, c, q, table, ranges, unknown) ==
    LET hit == table[c + 1][q + 1]
        r == {x \in Range(ranges) : x.code = c /\ q >= x.from}
    IN IF n.t # "s" THEN FALSE
       ELSE IF Len(hit) > 0 THEN n.v = hit
       ELSE IF r # {} THEN LET x == CHOOSE y \in r : TRUE
                           IN IsPrefixOf(x.prefix, n.v) /\
                              \E d \in Number(q) : Holds(SubSeq(n.v, Len(x.prefix) + 1, Len(n.v)), d)
       ELSE Holds(n.v, unknown)
==============================================================================
