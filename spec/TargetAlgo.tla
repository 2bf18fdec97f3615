------------------------------ MODULE TargetAlgo ------------------------------
(* Histories of commands on the device of module Target, given as requests to the library.  Every step is checked:
   the bytes the layouts of Cdb prescribe mean to the device what was asked (Faithful); a read gives what the history last wrote, a
   write changes exactly its blocks, a refused command changes nothing (Media); registrations and reservations obey the rules of
   SPC-4 5.12, stated once more as what each action may and may not change (Rules), and the answers decode to the state (Reported).
   With Export the histories are printed, to be made of the library.                                                          *)
EXTENDS Target, Json
CONSTANTS Part,           \* "media", "keys" or "all"
          Bs, Blocks, N,  \* size of a block, number of blocks, initiators
          Names6, Depth, Export
VARIABLES st, log

Q(n) == [t |-> "i", v |-> OfNat(n)]
Qs == [bs |-> Q(Bs)]
With(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Named(pre, sizes) == {pre \o s : s \in sizes}
Fill(x) == [i \in 1..Bs |-> x]
Old(lba) == Fresh(Bs, OfNat(lba))
Lbas == 0..Blocks
Sent(name, lba, data) == <<name, With(Qs, [lba |-> Q(lba), data |-> data, buflen |-> Q(Len(data))])>>
ReadsOf == {<<n, With(Qs, [lba |-> Q(l), length |-> Q(k)])>> : n \in Named("Read", Names6), l \in Lbas, k \in 0..2}
Reads1 == {o \in ReadsOf : ~(o[1] = "Read6" /\ o[2].length.v = <<>>)}
Datas == {<<>>, Fill(7), Fill(9), Fill(7) \o Fill(9), Fill(9) \o Fill(8)}
Writes1 == {Sent(n, l, d) : n \in Named("Write", Names6), l \in Lbas, d \in Datas}
           \ {Sent("Write6", l, <<>>) : l \in Lbas}
Sames == {<<n, With(Sent(n, l, d)[2], [number |-> Q(k)])>> : n \in Named("WriteSame", Names6 \cap {"10", "16"}), l \in Lbas, d \in {Fill(7), Fill(5)}, k \in 0..2}
Caws == {<<"CompareAndWrite", With(Sent("", l, x \o Fill(9))[2], [number |-> Q(1)])>> : l \in Lbas, x \in {Fill(7), Fill(9)} \cup {Old(i) : i \in Lbas}}
        \cup {<<"CompareAndWrite", With(Sent("", l, Fill(7) \o Fill(9) \o Fill(9) \o Fill(8))[2], [number |-> Q(2)])>> : l \in Lbas}
Rs(l, k) == [lba |-> Q(l), count |-> Q(k)]
Unmaps == {<<"Unmap", [ranges |-> r]>> : r \in {<<>>} \cup {<<Rs(l, k)>> : l \in Lbas, k \in 0..2} \cup {<<Rs(0, 1), Rs(l, 1)>> : l \in Lbas}}
Caps == {<<"ReadCapacity10", [x \in {} |-> 0]>>, <<"ReadCapacity16", [x \in {} |-> 0]>>, <<"TestUnitReady", [x \in {} |-> 0]>>}
MediaOps == Reads1 \cup Writes1 \cup Sames \cup Caws \cup Unmaps \cup Caps
KeyValues == {0, 1, 2}
Po(a, t, k, s) == [action |-> Q(a), type |-> Q(t), key |-> Q(k), sakey |-> Q(s)]
Prouts == {<<"PersistentReserveOut", With(Po(a, 1, k, s), [aptpl |-> Q(p)])>> : a \in {0, 6}, k \in KeyValues, s \in KeyValues, p \in {0, 1}}
          \cup {<<"PersistentReserveOut", Po(a, t, k, 0)>> : a \in {1, 2}, t \in Types \cup {4}, k \in KeyValues}
          \cup {<<"PersistentReserveOut", Po(a, t, k, s)>> : a \in {4, 5}, t \in {1, 6, 7}, k \in KeyValues, s \in KeyValues}
          \cup {<<"PersistentReserveOut", Po(a, 1, k, 0)>> : a \in {3, 8}, k \in KeyValues}
          \cup {<<"PersistentReserveOut", With(Po(7, 1, k, s), [unreg |-> Q(u), rtpi |-> Q(1), tidprotocol |-> Q(0), tidformat |-> Q(0), tiddata |-> Tail(Port(j))])>> :
                    k \in KeyValues, s \in KeyValues, u \in {0, 1}, j \in 1..N}
Prins == {<<"PersistentReserveIn", [action |-> Q(a)]>> : a \in 0..3}
Plain == {<<n, [x \in {} |-> 0]>> : n \in {"Reserve6", "Release6", "Reserve10", "Release10"}}
KeyOps == Prouts \cup Prins \cup Plain \cup {<<"Read10", With(Qs, [lba |-> Q(0), length |-> Q(1)])>>, Sent("Write10", 0, Fill(7))}

\* ---- what is sent, by the layouts ------------------------------------------------------
CdbOf(o) == C!Encode(o[1], C!Vals(o[1], o[2]))
ListOf(o) ==
    CASE o[1] = "PersistentReserveOut" ->
            LET a == o[2]
                vals == [f \in DOMAIN a \ {"tiddata"} |-> a[f].v]
            IN IF C!N(a, "action") = 7
               THEN C!Pack(25, C!Ones(C!MoveList, With(vals, [tidlen |-> OfNat(1 + Len(a.tiddata))]))) \o a.tiddata
               ELSE C!Pack(24, C!Ones(C!PrList, vals))
      [] o[1] = "Unmap" -> LET n == 16 * Len(o[2].ranges)
                           IN PadTo(OfNat(n + 6), 2) \o PadTo(OfNat(n), 2) \o Zeros(4)
                              \o Concat([i \in DOMAIN o[2].ranges |-> PadTo(o[2].ranges[i].lba.v, 8) \o PadTo(o[2].ranges[i].count.v, 4) \o Zeros(4)])
      [] "data" \in DOMAIN o[2] -> o[2].data
      [] OTHER -> <<>>
Faithful(o) == Meaning(Bs, CdbOf(o), ListOf(o)) = Asked(o[1], o[2])

\* ---- blocks, seen from the history -----------------------------------------------------------
\* what entry e of the log left in block l, or <<>>
Left(e, l) ==
    IF e.status # 0 THEN <<>>
    ELSE LET m == e.m
             In(lba, n) == l >= ToNat(lba) /\ l < ToNat(lba) + ToNat(n)
             Of(lba, data) == SubSeq(data, Bs * (l - ToNat(lba)) + 1, Bs * (l - ToNat(lba) + 1))
         IN CASE m.do = "write" /\ In(m.lba, m.n) -> Of(m.lba, m.data)
              [] m.do = "same" /\ In(m.lba, m.n) -> m.data
              [] m.do = "caw" /\ In(m.lba, m.n) -> Of(m.lba, SubSeq(m.data, 1 + Len(m.data) \div 2, Len(m.data)))
              [] m.do = "unmap" /\ (\E i \in DOMAIN m.ranges : In(m.ranges[i].lba, m.ranges[i].count)) -> Zeros(Bs)
              [] OTHER -> <<>>
RECURSIVE Last(_, _)
Last(h, l) == IF h = <<>> THEN Old(l) ELSE LET x == Left(h[Len(h)], l) IN IF x # <<>> THEN x ELSE Last(SubSeq(h, 1, Len(h) - 1), l)
Media1(m, r, h) ==
    /\ r.status # 0 => r.st = st
    /\ r.status = 0 /\ m.do = "read" => r.data = Concat([i \in 1..ToNat(m.n) |-> Last(h, ToNat(m.lba) + i - 1)])
    /\ r.status = 0 => \A l \in 0..(Blocks - 1) : Block(r.st, OfNat(l)) = (IF Left([m |-> m, status |-> 0], l) # <<>> THEN Left([m |-> m, status |-> 0], l)
                                                                           ELSE Block(st, OfNat(l)))
    /\ DOMAIN r.st.blocks \subseteq {OfNat(l) : l \in 0..(Blocks - 1)}
    /\ r.status = 0 /\ m.do = "caw" => SubSeq(m.data, 1, Len(m.data) \div 2) = Reading(st, m.lba, ToNat(m.n))

\* ---- reservations, as rules -------------------------------------------------------------------
Shape(s) == /\ s.holder = 0 <=> s.type = 0
            /\ s.holder # 0 => s.type \in Types /\ (IF All(s.type) THEN \E i \in Who(s) : Registered(s, i) ELSE Registered(s, s.holder))
            /\ s.lock # 0 => \A i \in Who(s) : ~Registered(s, i)
SameKeys(s, but) == \A i \in Who(s) : i \in but \/ s.keys[i] = st.keys[i]
SameHold(s) == s.holder = st.holder /\ s.type = st.type
Done(m) == m.do = "prout" /\ m.action \in {0, 3, 4, 5, 6, 7}
Rules(who, m, r) ==
    LET s == r.st
    IN /\ Shape(s)
       /\ r.status # 0 => s = st
       /\ ~Done(m) => s.gen = st.gen /\ SameKeys(s, {})
       /\ m.do \notin {"prout"} => SameHold(s) /\ SameKeys(s, {})
       /\ m.do \notin {"reserve", "release"} => s.lock = st.lock
       /\ Done(m) /\ r.status = 0 => s.gen = Add(st.gen, <<1>>) \/ (m.action \in {0, 6} /\ s = st /\ m.sakey = <<>>)
       \* only a registered initiator that knows its key can do more than register itself
       /\ m.do = "prout" /\ m.action \notin {0, 6} /\ r.status = 0 => Registered(st, who) /\ m.key = st.keys[who]
       /\ m.do = "prout" /\ m.action \in {0, 6} => SameKeys(s, {who}) /\ (r.status = 0 => s.keys[who] = m.sakey)
       /\ m.do = "prout" /\ m.action = 0 /\ r.status = 0 => m.key = st.keys[who]
       /\ m.do = "prout" /\ m.action \in {0, 6} /\ m.sakey # <<>> => SameHold(s)
       /\ m.do = "prout" /\ m.action = 1 /\ r.status = 0 => Holds(s, who) /\ s.type = m.type /\ (st.holder # 0 => SameHold(s))
       /\ m.do = "prout" /\ m.action = 2 /\ ~SameHold(s) => Holds(st, who) /\ s.holder = 0
       /\ m.do = "prout" /\ m.action = 3 /\ r.status = 0 => s.holder = 0 /\ \A i \in Who(s) : ~Registered(s, i)
       /\ m.do = "prout" /\ m.action \in {4, 5} /\ r.status = 0 =>
             LET all == st.holder # 0 /\ All(st.type) /\ m.sakey = <<>>
             IN /\ s.keys[who] = st.keys[who]
                /\ \A i \in Who(s) \ {who} : s.keys[i] = (IF all \/ st.keys[i] = m.sakey THEN <<>> ELSE st.keys[i])
                /\ ~SameHold(s) => (Holds(s, who) /\ s.type = m.type)
                /\ (st.holder # 0 /\ ~All(st.type) /\ st.keys[st.holder] # m.sakey) => SameHold(s)
       /\ m.do = "prout" /\ m.action = 7 /\ r.status = 0 => st.holder = who /\ s.holder = m.to /\ s.type = st.type /\ s.keys[m.to] = m.sakey /\ SameKeys(s, {who, m.to})
       \* who may read and write (SPC-4 table 66)
       /\ m.do = "read" /\ r.status # 24 => (st.lock \in {0, who} /\ (st.type \in {0, 1, 5, 7} \/ Holds(st, who) \/ (st.type \in {6, 8} /\ Registered(st, who))))
       /\ m.do = "write" /\ r.status # 24 => (st.lock \in {0, who} /\ (st.type = 0 \/ Holds(st, who) \/ (st.type \in {5, 6, 7, 8} /\ Registered(st, who))))
       /\ m.do \in {"read", "write"} /\ r.status = 24 => (st.lock \notin {0, who} \/ (st.holder # 0 /\ ~Holds(st, who)))
       /\ m.do = "reserve" /\ r.status = 0 => s.lock = who
       /\ m.do = "release" /\ s.lock # st.lock => st.lock = who /\ s.lock = 0
Reported(m, r) ==
    m.do = "prin" /\ r.status = 0 =>
        LET x == D!Value("prin", [action |-> m.action], r.data)
            regs == Registrants(st)
        IN CASE m.action = 0 -> /\ x.v["pr_generation"].v = st.gen
                                /\ x.v["key_list"].v = [i \in DOMAIN regs |-> [t |-> "i", v |-> st.keys[regs[i]]]]
             [] m.action = 1 -> st.holder # 0 => /\ x.v["pr_type"].v = OfNat(st.type)
                                                 /\ x.v["reservation_key"].v = HolderKey(st)
             [] m.action = 2 -> x.v["persist_through_power_lost_activates"].v = (IF st.aptpl THEN <<1>> ELSE <<>>)
             [] m.action = 3 -> regs # <<>> => Len(x.v["full_status_descriptors"].v) = Len(regs) /\ \A i \in DOMAIN regs :
                                     LET d == x.v["full_status_descriptors"].v[i].v
                                     IN d["reservation_key"].v = st.keys[regs[i]] /\ d["reservation_holder"].v = (IF Holds(st, regs[i]) THEN <<1>> ELSE <<>>)

Do(who, o, m) ==
    LET r == Step(st, who, m)
    IN /\ Assert(st # Device(Bs, OfNat(Blocks), N) \/ Faithful(o), <<"not faithful", o, CdbOf(o), ListOf(o), Meaning(Bs, CdbOf(o), ListOf(o)), m>>)
       /\ Assert(Part = "keys" \/ Media1(m, r, log), <<"blocks", st, m, r>>)
       /\ Assert(Rules(who, m, r), <<"rules", st, who, m, r>>)
       /\ Assert(Reported(m, r), <<"reported", st, m, r>>)
       /\ st' = r.st
       /\ log' = IF Part = "keys" THEN log ELSE Append(log, [who |-> who, name |-> o[1], a |-> o[2], m |-> m, status |-> r.status])
MediaMs == {<<o, Asked(o[1], o[2])>> : o \in MediaOps}
KeyMs == {<<o, Asked(o[1], o[2])>> : o \in KeyOps}
Init == st = Device(Bs, OfNat(Blocks), N) /\ log = <<>>

Right(who, o) == "key" \notin DOMAIN o[2] \/ o[2].key.v = st.keys[who]
Random(who) ==
    LET S == IF RandomElement(1..2) = 1 \/ Part = "media" THEN MediaOps ELSE KeyOps
        T == IF RandomElement(1..4) = 1 THEN S ELSE {o \in S : Right(who, o)}
    IN IF S = MediaOps THEN RandomElement({RandomElement(Reads1 \cup Caps), RandomElement(Writes1), RandomElement(Sames \cup Writes1), RandomElement(Caws), RandomElement(Unmaps)})
       ELSE RandomElement({RandomElement(T), RandomElement(T \cap Prouts), RandomElement(Prins \cup Plain), RandomElement(T \cap Prouts)})
Next == IF Part = "all" \/ Export
        THEN Len(log) < Depth /\ \E who \in {RandomElement(1..N)} : \E o \in {Random(who)} : Do(who, o, Asked(o[1], o[2]))
        ELSE Len(log) < Depth /\ \E who \in 1..N, x \in (IF Part = "media" THEN MediaMs ELSE KeyMs) : Do(who, x[1], x[2])
Spec == Init /\ [][Next]_<<st, log>>
NoGen == [s |-> [st EXCEPT !.gen = <<>>], l |-> log]
Shown == Export /\ Len(log) = Depth => PrintT(<<"BEH", ToJson([bs |-> Bs, size |-> Blocks, n |-> N, ops |-> [i \in DOMAIN log |-> [who |-> log[i].who, name |-> log[i].name, a |-> log[i].a]]])>>)
===============================================================================
