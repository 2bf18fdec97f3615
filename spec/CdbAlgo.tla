-------------------------------- MODULE CdbAlgo --------------------------------
(* The requests on the boundaries of every field of every command: each layout is a faithful encoding (a device that reads
   the fields back finds what was asked, and nothing else is set), so different requests are different commands; requests
   that do not fit have no encoding.  With Export the requests are printed, to be made of the library.                    *)
EXTENDS Cdb, TLC, Json
CONSTANTS Which, Export
VARIABLES name, args

Pow(j) == <<P2(j % 8)>> \o Zeros(j \div 8)
Ones8(w) == IF w % 8 = 0 THEN [i \in 1..(w \div 8) |-> 255] ELSE <<P2(w % 8) - 1>> \o [i \in 1..(w \div 8) |-> 255]
Ramp(w) == LET n == w \div 8 IN IF n = 0 THEN <<1>> ELSE [i \in 1..n |-> i]         \* every byte different
Nat_(v) == [t |-> "i", v |-> v]
Neg(v) == [t |-> "n", v |-> v]
Inside(w) == {<<>>, Ones8(w), Ramp(w)} \cup {Pow(j) : j \in 0..(w - 1)}
Checked == {"lba", "length", "number", "alloc", "id", "key", "sakey", "action", "type", "rtpi"}
Checks(n, f) == f \in Checked \/ (f = "page" /\ n \in {"Inquiry", "ReceiveDiagnostic"}) \/ (f = "select" /\ n = "ReportLuns") \/ (f = "subpage" /\ n = "LogSense")
Beyond(w) == {Nat_(Pow(w)), Nat_(Add(Pow(w), <<1>>)), Neg(<<1>>), Neg(Pow(w - 1))}
Outside(f, w) == IF f \in Checked THEN Beyond(w) ELSE {}
ArgFields(n) == LET fs == Layout[n].fields IN {fs[i] : i \in {i \in DOMAIN fs : fs[i][1] \notin {"plen", "longid", "third"}}}
BlockLike == {"Read6", "Read10", "Read12", "Read16", "Write6", "Write10", "Write12", "Write16", "WriteSame10", "WriteSame16", "CompareAndWrite"}
Buffered == BlockLike \ {"Read6", "Read10", "Read12", "Read16"}
Buf(blocks, bs, r) == [bs |-> Nat_(OfNat(bs)), buflen |-> Nat_(OfNat(blocks * bs + r))]
With(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
One(f, v) == [x \in {f} |-> v]
Nominal(n) ==
    CASE IsRead(n) -> [lba |-> Nat_(<<1, 2>>), length |-> Nat_(<<3>>), bs |-> Nat_(<<2, 0>>)]
      [] IsWrite(n) -> With([lba |-> Nat_(<<1, 2>>)], Buf(3, 8, 0))
      [] n \in {"WriteSame10", "WriteSame16"} -> With([lba |-> Nat_(<<1, 2>>), number |-> Nat_(<<5>>)], Buf(1, 8, 0))
      [] n = "CompareAndWrite" -> With([lba |-> Nat_(<<1, 2>>), number |-> Nat_(<<2>>)], Buf(4, 8, 0))
      [] n = "Unmap" -> [ranges |-> <<[lba |-> Nat_(<<7>>), count |-> Nat_(<<9>>)]>>]
      [] n = "Inquiry" -> [page |-> Nat_(<<>>), evpd |-> Nat_(<<>>), alloc |-> Nat_(<<36>>)]
      [] n = "LogSense" -> [page |-> Nat_(<<2>>), alloc |-> Nat_(<<100>>)]
      [] n = "ReceiveDiagnostic" -> [page |-> Nat_(<<16>>), alloc |-> Nat_(<<200>>), pcv |-> Nat_(<<1>>)]
      [] n = "CopyParameters" -> [alloc |-> Nat_(<<64>>), control |-> Nat_(<<>>)]
      [] n = "PersistentReserveIn" -> [action |-> Nat_(<<>>), alloc |-> Nat_(<<16>>)]
      [] n = "PersistentReserveOut" -> [action |-> Nat_(<<1>>), type |-> Nat_(<<5>>), key |-> Nat_(<<1>>)]
      [] n = "Rtpg" -> [alloc |-> Nat_(<<64>>)]
      [] n = "ReportLuns" -> [alloc |-> Nat_(<<64>>)]
      [] OTHER -> [naca |-> Nat_(<<>>)]
Skip(n, f) ==                                                 \* not arguments of the library's constructor
    \/ f = "length" /\ n \in Buffered
    \/ n = "ReadCapacity16" /\ f = "alloc"
One1(n) == UNION {LET w == Width(f[2]) IN
                    {With(Nominal(n), One(f[1], v)) : v \in {Nat_(x) : x \in Inside(w)} \cup (IF Checks(n, f[1]) THEN Beyond(w) ELSE {})}
                  : f \in {f \in ArgFields(n) : ~Skip(n, f[1])}}
Buffers(n) ==
    IF n \notin Buffered THEN {}
    ELSE {With(Nominal(n), Buf(k, bs, r)) : k \in {0, 1, 2, 127, 128, 255, 256, 257, 300}, bs \in {1, 8, 512, 520}, r \in {0, 1, 7, 511}}
         \cup {With(Nominal(n), Buf(k, 1, 0)) : k \in {32767, 32768, 65535, 65536, 65537, 131072}}
Lists(n) ==
    CASE n = "PersistentReserveOut" ->
           {With(Nominal(n), With(One("action", Nat_(OfNat(a))), One(f[1], Nat_(x)))) : a \in {0, 6}, f \in {PrList[i] : i \in DOMAIN PrList}, x \in {<<>>, <<1>>}}
           \cup UNION {{With(Nominal(n), One(f[1], v)) : v \in {Nat_(x) : x \in Inside(64)} \cup Outside(f[1], 64)} : f \in {F("key", 0, 8), F("sakey", 8, 8)}}
           \cup {With(Nominal(n), With([action |-> Nat_(<<7>>), tidprotocol |-> Nat_(OfNat(p)), tidformat |-> Nat_(OfNat(q)),
                                        tiddata |-> [i \in 1..k |-> (7 * i) % 256]], One(f, v))) :
                    p \in {0, 5, 6}, q \in {0, 1}, k \in {0, 7, 23, 51, 300}, f \in {"rtpi", "unreg", "aptpl", "key"}, v \in {Nat_(<<>>), Nat_(<<1>>)}}
           \cup {With(Nominal(n), With([action |-> Nat_(<<7>>), tidprotocol |-> Nat_(<<6>>), tidformat |-> Nat_(<<>>),
                                        tiddata |-> [i \in 1..23 |-> i]], One("rtpi", v))) : v \in {Nat_(x) : x \in Inside(16)} \cup Outside("rtpi", 16)}
      [] n \in {"Reserve10", "Release10"} -> {[id |-> v] : v \in {Nat_(<<254>>), Nat_(<<255>>), Nat_(<<1, 0>>), Nat_(Ones8(63)), Nat_(Ones8(64)), Nat_(Pow(64)), Neg(Pow(64))}
                                                                \cup {Nat_(Pow(j)) : j \in 0..63}}
      [] n = "Unmap" ->
           {[ranges |-> [i \in 1..k |-> [lba |-> Nat_(OfNat(i * 1000)), count |-> Nat_(OfNat(i))]]] : k \in {0, 1, 2, 3, 15, 16, 17, 100, 4095, 4096}}
           \cup {[ranges |-> <<[lba |-> v, count |-> Nat_(<<1>>)]>>] : v \in {Nat_(x) : x \in Inside(64)} \cup Outside("lba", 64)}
           \cup {[ranges |-> <<[lba |-> Nat_(<<1>>), count |-> Nat_(<<1>>)], [lba |-> Nat_(<<1>>), count |-> v]>>] : v \in {Nat_(x) : x \in Inside(32)} \cup Outside("lba", 32)}
      [] n = "Inquiry" -> {[evpd |-> Nat_(<<1>>), page |-> v] : v \in {Nat_(x) : x \in {Pow(8), <<1, 128>>, <<1, 131>>, <<1, 176>>, <<255, 255>>}} \cup {Neg(<<1>>), Neg(<<128>>), Neg(<<125>>)}}
      [] n = "ReceiveDiagnostic" -> {[page |-> v] : v \in {Nat_(x) : x \in {Pow(8), <<1, 1>>, <<1, 128>>, <<255, 255>>}} \cup {Neg(<<1>>), Neg(<<128>>)}}
      [] OTHER -> {}
Requests(n) == One1(n) \cup Buffers(n) \cup Lists(n) \cup {Nominal(n)}

Init == name \in Which /\ args \in Requests(name)
Next == UNCHANGED <<name, args>>
Spec == Init /\ [][Next]_<<name, args>>

Disjoint(fs) == \A i, j \in DOMAIN fs : i # j => FieldOnes(fs[i], Ones8(Width(fs[i][2]))) \cap FieldOnes(fs[j], Ones8(Width(fs[j][2]))) = {}
ASSUME \A n \in Names : /\ Disjoint(Layout[n].fields)
                        /\ \A i \in DOMAIN Layout[n].fields : \A p \in Range(Layout[n].fields[i][2]) : p[1] \in 1..(Layout[n].len - 1) /\ p[2] >= p[3]
ASSUME Disjoint(PrList) /\ Disjoint(MoveList)
ASSUME \A n, m \in Names : n # m => Layout[n].op # Layout[m].op

Cdb_ == Encode(name, Vals(name, args))
Faithful ==
    Expressible(name, args) =>
        /\ Len(Cdb_) = Layout[name].len
        /\ Cdb_[1] = Layout[name].op
        /\ \A i \in DOMAIN Cdb_ : Cdb_[i] \in 0..255
        /\ \A i \in DOMAIN Layout[name].fields :
             LET f == Layout[name].fields[i] IN
             FieldOf(Cdb_, f) = (IF f[1] \in DOMAIN Vals(name, args) THEN Vals(name, args)[f[1]] ELSE <<>>)
        /\ CdbFails(name, args, Cdb_) = {}
\* what does not fit would be another request if its bytes were cut
NotExpressible == ~Expressible(name, args) =>
    \/ \E f \in Numbers(args) : args[f].t = "n" \/ Len(args[f].v) > 0
    \/ name = "Unmap" \/ name \in Buffered
Shown == Export => PrintT(<<"BEH", ToJson([name |-> name, args |-> args, fits |-> Expressible(name, args)])>>)
================================================================================
