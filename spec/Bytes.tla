------------------------------- MODULE Bytes -------------------------------
(* Byte strings, bit fields and unbounded naturals for a model checker whose
   integers have 32 bits.  A byte string is a sequence of 0..255.  A natural
   of any size is its minimal big-endian byte string (zero is <<>>).        *)
EXTENDS Integers, Sequences, FiniteSets

Byte == 0..255

\* -- byte strings ----------------------------------------------------------
Zeros(n) == [i \in 1..n |-> 0]
At(b, i) == b[i + 1]                          \* 0-based, as in the standards
Slice(b, a, n) ==                             \* n bytes from offset a, cut at the end of b
    SubSeq(b, a + 1, IF a + n <= Len(b) THEN a + n ELSE Len(b))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Rev(_)
Rev(s) == IF s = <<>> THEN <<>> ELSE Append(Rev(Tail(s)), Head(s))
IsPrefixOf(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

\* -- naturals as byte strings ----------------------------------------------
Strip(b) ==                                   \* without leading zeros
    LET nz == {i \in DOMAIN b : b[i] # 0}
    IN IF nz = {} THEN <<>>
       ELSE LET m == CHOOSE i \in nz : \A j \in nz : i <= j IN SubSeq(b, m, Len(b))
Fits(v, n) == Len(v) <= n                     \* v < 256^n, for a stripped v
PadTo(v, n) == Zeros(n - Len(v)) \o v         \* big-endian in n bytes
RECURSIVE ToNat(_)                            \* only for values below 2^31
ToNat(b) == IF b = <<>> THEN 0 ELSE 256 * ToNat(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
Small(v) == Len(v) < 4 \/ (Len(v) = 4 /\ v[1] < 128)
RECURSIVE OfNat(_)
OfNat(n) == IF n = 0 THEN <<>> ELSE Append(OfNat(n \div 256), n % 256)
LE(b) == Strip(Rev(b))                        \* a little-endian field

RECURSIVE MulDigit(_, _, _)                   \* little-endian digits * d + carry
MulDigit(a, d, c) ==
    IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 256>> \o MulDigit(<<>>, d, c \div 256))
    ELSE LET t == Head(a) * d + c IN <<t % 256>> \o MulDigit(Tail(a), d, t \div 256)
RECURSIVE AddLE(_, _, _)
AddLE(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET x == IF a = <<>> THEN 0 ELSE Head(a)
             y == IF b = <<>> THEN 0 ELSE Head(b)
             t == x + y + c
         IN <<t % 256>> \o AddLE(IF a = <<>> THEN a ELSE Tail(a),
                                 IF b = <<>> THEN b ELSE Tail(b), t \div 256)
RECURSIVE MulLE(_, _)
MulLE(a, b) == IF b = <<>> THEN <<>>
               ELSE AddLE(MulDigit(a, Head(b), 0), <<0>> \o MulLE(a, Tail(b)), 0)
Mul(a, b) == Strip(Rev(MulLE(Rev(a), Rev(b))))
Add(a, b) == Strip(Rev(AddLE(Rev(a), Rev(b), 0)))
Less(a, b) ==                                 \* both stripped
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E i \in DOMAIN a : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
LessEq(a, b) == a = b \/ Less(a, b)

\* -- bits -------------------------------------------------------------------
Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
P2(n) == Pow2[n + 1]
BitsOf(x, hi, lo) == (x \div P2(lo)) % P2(hi - lo + 1)
HasBit(x, k) == (x \div P2(k)) % 2 = 1
\* pieces <<byte, hi, lo>>, most significant first -> one sequence of bits
RECURSIVE PieceBits(_, _)
PieceBits(b, ps) ==
    IF ps = <<>> THEN <<>>
    ELSE LET p == Head(ps)
             w == p[2] - p[3] + 1
         IN [k \in 1..w |-> BitsOf(At(b, p[1]), p[2] - k + 1, p[2] - k + 1)] \o PieceBits(b, Tail(ps))
RECURSIVE BitsToBytes(_)
BitsToBytes(s) ==                             \* Len(s) is a multiple of 8
    IF s = <<>> THEN <<>>
    ELSE <<s[1] * 128 + s[2] * 64 + s[3] * 32 + s[4] * 16 + s[5] * 8 + s[6] * 4 + s[7] * 2 + s[8]>>
         \o BitsToBytes(SubSeq(s, 9, Len(s)))
BitNat(s) == LET r == (8 - (Len(s) % 8)) % 8 IN Strip(BitsToBytes(Zeros(r) \o s))

\* -- text -------------------------------------------------------------------
Blank == {0, 32}
Trim(b) ==
    LET k == {i \in DOMAIN b : b[i] \notin Blank}
    IN IF k = {} THEN <<>>
       ELSE SubSeq(b, CHOOSE i \in k : \A j \in k : i <= j, CHOOSE i \in k : \A j \in k : j <= i)

\* -- observed values ---------------------------------------------------------
(* What the driver saw is a tagged value [t, v]: t is "i" a natural, "n" a negative
   number (v its magnitude), "b" bytes, "s" text (v its code points), "z" None,
   "m" no such attribute, "l" a list (v a sequence of values), "o" an object
   (v a record of values), "x" an exception (v the names of its classes).       *)
Missing == [t |-> "m", v |-> <<>>]
Nil == [t |-> "z", v |-> <<>>]
Get(o, f) == IF o.t # "o" THEN Missing ELSE IF f \in DOMAIN o.v THEN o.v[f] ELSE Missing
IsNat(o, n) == o.t = "i" /\ o.v = n
IsBytes(o, b) == o.t = "b" /\ o.v = b
IsText(o, b) == o.t \in {"s", "b"} /\ Trim(o.v) = Trim(b)
IsNone(o) == o.t = "z"
IsList(o) == o.t = "l"
Raised(o) == o.t = "x"
RaisedA(o, c) == o.t = "x" /\ c \in Range(o.v)
=============================================================================
