------------------------------ MODULE CborNum ------------------------------
(***************************************************************************)
(* Unsigned 64 bit numbers as big-endian byte sequences (TLC integers are  *)
(* 32 bit), and header arguments <<width, bytes>> with width 0 (immediate),*)
(* 1, 2, 4 or 8 bytes.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC

Byte8 == 0..255

Zeros(n) == [i \in 1..n |-> 0]

Pad8(v) == IF Len(v) = 8 THEN v ELSE Zeros(8 - Len(v)) \o v

\* the number is below 2^31 and can be handled as a TLC integer
Small(v) == \/ Len(v) < 4
            \/ /\ \A i \in 1..(Len(v) - 4) : v[i] = 0
               /\ v[Len(v) - 3] < 128

RECURSIVE NatFrom(_, _, _)
NatFrom(v, i, acc) == IF i > Len(v) THEN acc ELSE NatFrom(v, i + 1, acc * 256 + v[i])

Huge == 2000000000

\* value as a TLC integer, everything from 2*10^9 on is Huge
ToNat(v) == IF ~Small(v) THEN Huge
            ELSE LET n == NatFrom(v, 1, 0) IN IF n > Huge THEN Huge ELSE n

\* big-endian bytes of a TLC integer on w bytes
BE(n, w) == [i \in 1..w |->
               LET k == w - i IN
               CASE k = 0 -> n % 256
                 [] k = 1 -> (n \div 256) % 256
                 [] k = 2 -> (n \div 65536) % 256
                 [] k = 3 -> n \div 16777216
                 [] OTHER -> 0]

\* lexicographic order of equally long byte sequences
RECURSIVE LexLE(_, _, _)
LexLE(a, b, i) == IF i > Len(a) THEN TRUE
                  ELSE IF a[i] = b[i] THEN LexLE(a, b, i + 1) ELSE a[i] < b[i]
LE8(a, b) == LexLE(Pad8(a), Pad8(b), 1)

\* number of significant bytes
RECURSIVE LeadZeros(_, _)
LeadZeros(v, i) == IF i > Len(v) \/ v[i] # 0 THEN i - 1 ELSE LeadZeros(v, i + 1)
Sig(v) == Len(v) - LeadZeros(v, 1)

FitsBytes(v, w) == Sig(v) <= w

(* shortest width that can carry the number *)
CanonW(v) == LET s == Sig(v) IN
             CASE s = 0 -> 0
               [] s = 1 -> IF v[Len(v)] < 24 THEN 0 ELSE 1
               [] s = 2 -> 2
               [] s \in 3..4 -> 4
               [] OTHER -> 8

\* bytes of the argument for width w (width 0 holds one byte, the immediate)
WBytes(w) == IF w = 0 THEN 1 ELSE w
ToWidth(v, w) == SubSeq(Pad8(v), 9 - WBytes(w), 8)
Canon(v) == ToWidth(v, CanonW(v))

IsCanon(w, v) == w = CanonW(v)

Not8(v) == LET p == Pad8(v) IN [i \in 1..8 |-> 255 - p[i]]

\* the number after it
Next8(v) == LET S == {i \in 1..Len(v) : v[i] # 255}
                k == CHOOSE i \in S : \A j \in S : j <= i
            IN IF S = {} THEN Zeros(Len(v))
               ELSE [i \in 1..Len(v) |-> IF i < k THEN v[i] ELSE IF i = k THEN v[i] + 1 ELSE 0]

NatBytes(n) == BE(n, 4)

Str(n) == ToString(n)

(* Loops over inputs of any size are written by halves, so that nothing is *)
(* as deep as the input is long: at most 2^Rounds(n) >= n + 1 steps        *)
Rounds(n) == IF n < 8 THEN 3 ELSE IF n < 32 THEN 5 ELSE IF n < 200 THEN 8 ELSE 30

\* all of them, one after the other
RECURSIVE CatHalves(_, _, _)
CatHalves(ss, a, b) == IF a > b THEN <<>> ELSE IF a = b THEN ss[a]
                       ELSE LET m == (a + b) \div 2 IN CatHalves(ss, a, m) \o CatHalves(ss, m + 1, b)
Cat(ss) == LET xs == TLCEval(ss) IN CatHalves(xs, 1, Len(xs))
Bool(b) == IF b THEN "true" ELSE "false"
=============================================================================
