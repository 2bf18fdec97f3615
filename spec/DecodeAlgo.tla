------------------------------ MODULE DecodeAlgo ------------------------------
(* Answers, built step by step: (1) every answer of fixed form with exactly one bit set, or all bits but one of those after
   its header; (2) answers that are lists, item by item.  Checked: no bit belongs to two values, no value misses a bit of
   its width, and a list decodes to its items whatever stands before or after them.  Every state is an answer to replay.  *)
EXTENDS Decode, Json
CONSTANTS Which, Depth
VARIABLES shape, bit, inv, items
vars == <<shape, bit, inv, items>>

P0 == [page |-> 0, action |-> 0, alloc |-> 16384, allow |-> FALSE, format |-> 0, conf |-> <<>>]
Pg(p) == [P0 EXCEPT !.page = p]
Text8 == <<65, 66, 67, 32, 32, 32, 32, 32>>
Blanks(n) == [i \in 1..n |-> 32]

\* ---- fixed forms: [kind, par, base, lo, n]: bits of bytes lo .. lo + n - 1 are set one at a time -------------------------
Fix(kind, par, base, lo, n) == [kind |-> kind, par |-> par, base |-> base, lo |-> lo, n |-> n]
Vp(p, n) == <<0, p, n \div 256, n % 256>>
D(ty, body) == [Fix("vpd", Pg(131), Vp(131, 4 + Len(body)) \o <<0, ty, 0, Len(body)>> \o body, 8, Len(body)) EXCEPT !.lo = 8]
Conf1(ty) == <<1, 0, 0, 48, 0, 0, 0, 0, 0, 0, 1, 36>> \o Zeros(8) \o Blanks(28) \o <<ty, 1, 0, 0>>
Fixed == <<
  Fix("inquiry", P0, <<0, 0, 0, 0, 92, 0, 0, 0>> \o Text8 \o Blanks(20) \o Zeros(61), 0, 4),
  Fix("inquiry", P0, <<0, 0, 0, 0, 92, 0, 0, 0>> \o Text8 \o Blanks(20) \o Zeros(61), 5, 3),
  Fix("inquiry", P0, <<0, 0, 0, 0, 92, 0, 0, 0>> \o Text8 \o Blanks(20) \o Zeros(61), 56, 18),
  Fix("vpd", Pg(176), Vp(176, 60) \o Zeros(60), 4, 60),
  Fix("vpd", Pg(178), Vp(178, 4) \o Zeros(4), 4, 4),
  Fix("vpd", Pg(192), Vp(192, 4) \o Zeros(4), 4, 4),
  Fix("vpd", Pg(137), Vp(137, 568) \o Zeros(568), 36, 4), Fix("vpd", Pg(137), Vp(137, 568) \o Zeros(568), 43, 1),
  Fix("vpd", Pg(137), Vp(137, 568) \o Zeros(568), 47, 12),
  Fix("prin", [P0 EXCEPT !.action = 1], <<0, 0, 0, 0, 0, 0, 0, 16>> \o Zeros(16), 0, 4), Fix("prin", [P0 EXCEPT !.action = 1], <<0, 0, 0, 0, 0, 0, 0, 16>> \o Zeros(16), 8, 16),
  Fix("prin", [P0 EXCEPT !.action = 2], <<0, 8, 0, 0, 0, 0, 0, 0>>, 2, 6),
  Fix("prin", [P0 EXCEPT !.action = 3], <<0, 0, 0, 0, 0, 0, 0, 26>> \o Zeros(20) \o <<0, 0, 0, 2>> \o <<0, 0>>, 8, 20),
  Fix("prin", [P0 EXCEPT !.action = 3], <<0, 0, 0, 0, 0, 0, 0, 26>> \o Zeros(20) \o <<0, 0, 0, 2>> \o <<0, 0>>, 32, 1),
  Fix("prin", P0, <<0, 0, 0, 0, 0, 0, 0, 16>> \o Zeros(16), 0, 4), Fix("prin", P0, <<0, 0, 0, 0, 0, 0, 0, 16>> \o Zeros(16), 8, 16),
  Fix("rtpg", P0, <<0, 0, 0, 12>> \o Zeros(7) \o <<1>> \o Zeros(4), 4, 7), Fix("rtpg", P0, <<0, 0, 0, 12>> \o Zeros(7) \o <<1>> \o Zeros(4), 12, 4),
  Fix("rtpg", [P0 EXCEPT !.format = 1], <<0, 0, 0, 16, 16, 0, 0, 0>> \o Zeros(7) \o <<1>> \o Zeros(4), 5, 10),
  Fix("cap10", P0, Zeros(8), 0, 8), Fix("cap16", P0, Zeros(32), 0, 32),
  Fix("copy", P0, Zeros(44), 0, 43),
  Fix("ses", Pg(1), Conf1(4), 4, 6), Fix("ses", Pg(1), Conf1(0), 48, 1), Fix("ses", Pg(1), Conf1(4), 50, 1),
  D(2, Zeros(8)), D(2, Zeros(12)), D(2, Zeros(16)), D(4, Zeros(4)), D(5, Zeros(4)), D(6, Zeros(4)),
  [D(3, <<32>> \o Zeros(7)) EXCEPT !.lo = 9, !.n = 7], [D(3, <<48>> \o Zeros(7)) EXCEPT !.lo = 9, !.n = 7],
  [D(3, <<80>> \o Zeros(7)) EXCEPT !.lo = 9, !.n = 7], [D(3, <<96>> \o Zeros(15)) EXCEPT !.lo = 9, !.n = 15],
  [D(0, <<>>) EXCEPT !.lo = 4, !.n = 1]>>
  \o [i \in 1..28 |-> Fix("ses", [Pg(2) EXCEPT !.conf = Conf1(i - 1)], <<2, 0, 0, 12>> \o Zeros(12), 12, 4)]
FixedOf == {i \in DOMAIN Fixed : Fixed[i].kind \in Which \/ (Fixed[i].kind = "vpd" /\ Fixed[i].par.page = 131 /\ "designator" \in Which)}

Flip(b, i, k) == [b EXCEPT ![i + 1] = IF HasBit(@, k) THEN @ - P2(k) ELSE @ + P2(k)]
OneBit(s, n) == Flip(s.base, s.lo + (n \div 8), 7 - (n % 8))
AllBut(s, n) == LET full == [i \in DOMAIN s.base |-> IF i > s.lo /\ i <= s.lo + s.n THEN 255 ELSE s.base[i]]
                IN Flip(full, s.lo + (n \div 8), 7 - (n % 8))

\* ---- the leaves of a tree -----------------------------------------------------------------------------------------
RECURSIVE Leaves(_, _)
Leaves(x, path) ==
    CASE x.t = "o" -> UNION {Leaves(x.v[f], Append(path, f)) : f \in DOMAIN x.v}
      [] x.t = "l" -> UNION {Leaves(x.v[i], Append(path, ToString(i))) : i \in DOMAIN x.v}
      [] OTHER -> {<<path, x>>}
Value1(s, b) == Leaves(Value(s.kind, s.par, b), <<>>)
Changed(s, b) == Value1(s, b) \ Value1(s, s.base)
IsPower(v) == v # <<>> /\ (\E k \in 0..7 : v[1] = P2(k)) /\ \A i \in 2..Len(v) : v[i] = 0
\* one bit is (part of) at most one value, of a power of two
OneValue == (shape # 0 /\ ~inv /\ items = <<>>) =>
    LET s == Fixed[shape]
        c == Changed(s, OneBit(s, bit))
    IN /\ Enough(s.kind, s.par, OneBit(s, bit))
       /\ Cardinality(c) <= 1
       /\ \A l \in c : l[2].t = "i" => IsPower(l[2].v)

\* ---- lists ----------------------------------------------------------------------------------------------------
Fill(n, i) == [j \in 1..n |-> ((37 * i + 11 * j) % 255) + 1]
Ds(ty, n, i) == <<16 * (i % 16) + 1 + (i % 3), ty + 16 * (i % 4), 0, n>>
DsBody(m, i) ==
    CASE m \in 0..15 /\ m \notin {1, 2, 3, 4, 5, 6} -> Ds(m, 5 + m + i, i) \o Fill(5 + m + i, i)
      [] m = 1 -> Ds(1, 8 + i, i) \o Text8 \o Fill(i, i)
      [] m = 2 -> Ds(2, 8, i) \o Fill(8, i)
      [] m = 16 -> Ds(2, 12, i) \o Fill(12, i)
      [] m = 17 -> Ds(2, 16, i) \o Fill(16, i)
      [] m = 3 -> Ds(3, 8, i) \o <<47>> \o Fill(7, i)
      [] m = 18 -> Ds(3, 8, i) \o <<63>> \o Fill(7, i)
      [] m = 19 -> Ds(3, 8, i) \o <<95>> \o Fill(7, i)
      [] m = 20 -> Ds(3, 16, i) \o <<111>> \o Fill(15, i)
      [] m = 21 -> Ds(0, 0, i)
      [] OTHER -> Ds(m, 4, i) \o Fill(4, i)
Tid(m) == CASE m = 0 -> 1 [] m = 1 -> 24 [] m = 2 -> 44 [] OTHER -> 260
ItemBytes(k, m, i) ==
    CASE k = "designator" -> DsBody(m, i)
      [] k = "prin" -> Fill(20, i) \o <<0, 0, Tid(m) \div 256, Tid(m) % 256>> \o Fill(Tid(m), i + 1)
      [] k = "keys" -> Fill(8, i + 3 * m)
      [] k = "rtpg" \/ k = "rtpgx" -> Fill(7, i) \o <<m>> \o Fill(4 * m, i + 2)
      [] k = "luns" -> CASE m = 0 -> Zeros(8) [] m = 1 -> <<0, i>> \o Zeros(6) [] m = 2 -> <<63, 255>> \o Zeros(6) [] m = 3 -> <<1, 0>> \o Zeros(6)
                         [] m = 4 -> <<64, 1>> \o Zeros(6) [] m = 5 -> <<128, i>> \o Zeros(6) [] m = 6 -> <<0, 1, 0, 1>> \o Zeros(4) [] OTHER -> <<0, i>> \o Zeros(5) \o <<1>>
Menu(k) == CASE k = "designator" -> 0..21 [] k = "prin" -> 0..3 [] k = "keys" -> 0..1 [] k \in {"rtpg", "rtpgx"} -> {0, 1, 2, 5} [] k = "luns" -> 0..7
Lists == {"designator", "prin", "keys", "rtpg", "rtpgx", "luns"}
Kind(k) == CASE k = "designator" -> "vpd" [] k = "keys" -> "prin" [] k = "rtpgx" -> "rtpg" [] OTHER -> k
Par(k, a) == CASE k = "designator" -> Pg(131) [] k = "prin" -> [P0 EXCEPT !.action = 3] [] k = "rtpgx" -> [P0 EXCEPT !.format = 1] [] k = "luns" -> [P0 EXCEPT !.allow = a]
            [] OTHER -> P0
B4(n) == <<0, 0, n \div 256, n % 256>>
Page(k, its) ==
    LET body == Concat([i \in DOMAIN its |-> ItemBytes(k, its[i], i)])
    IN CASE k = "designator" -> Vp(131, Len(body)) \o body
         [] k \in {"prin", "keys"} -> <<0, 0, 1, 44>> \o B4(Len(body)) \o body
         [] k = "rtpg" -> B4(Len(body)) \o body
         [] k = "rtpgx" -> B4(Len(body) + 4) \o <<16, 0, 0, 0>> \o body
         [] k = "luns" -> B4(Len(body)) \o <<0, 0, 0, 0>> \o body
ListName(k) == CASE k = "designator" -> "designators_list" [] k = "prin" -> "full_status_descriptors" [] k = "keys" -> "key_list"
                 [] k \in {"rtpg", "rtpgx"} -> "descriptor_list" [] OTHER -> "lun_list"
ItemValue(k, b) == CASE k = "designator" -> Designator(b) [] k = "prin" -> Registrants(b)[1] [] k = "keys" -> I(Strip(b))
                     [] k \in {"rtpg", "rtpgx"} -> Groups(b)[1] [] OTHER -> I(Strip(Cut(b, 2)))
\* lists: shape = 0 and inv says whether unusual LUNs are allowed; bit carries the kind
Whole == (shape = 0) =>
    LET k == items[1]
        its == Tail(items)
        page == Page(k, its)
        v == Value(Kind(k), Par(k, inv), page)
        bad == k = "luns" /\ ~inv /\ \E i \in DOMAIN its : its[i] >= 4
    IN /\ Enough(Kind(k), Par(k, inv), page)
       /\ bad <=> v.t = "x"
       /\ ~bad => \/ v.v[ListName(k)] = Ls([i \in DOMAIN its |-> ItemValue(k, ItemBytes(k, its[i], i))])
                  \/ its = <<>> /\ v.v[ListName(k)].t = "or"

Init == \/ /\ shape \in FixedOf
           /\ bit = 0
           /\ inv \in BOOLEAN
           /\ items = <<>>
        \/ /\ shape = 0 /\ bit = 0
           /\ \E k \in Lists \cap Which : items = <<k>>
           /\ inv \in BOOLEAN
Next == \/ /\ shape # 0
           /\ bit' = bit + 1 /\ bit' < 8 * Fixed[shape].n
           /\ UNCHANGED <<shape, inv, items>>
        \/ /\ shape = 0 /\ Len(items) <= Depth
           /\ \E m \in Menu(items[1]) : items' = Append(items, m)
           /\ UNCHANGED <<shape, bit, inv>>
Spec == Init /\ [][Next]_vars
Answer == IF shape = 0 THEN [kind |-> Kind(items[1]), par |-> Par(items[1], inv), page |-> Page(items[1], Tail(items))]
          ELSE LET s == Fixed[shape] IN [kind |-> s.kind, par |-> s.par, page |-> IF inv THEN AllBut(s, bit) ELSE OneBit(s, bit)]
Shown == PrintT(<<"BEH", ToJson(Answer)>>)
=============================================================================
