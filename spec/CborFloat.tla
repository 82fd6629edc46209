----------------------------- MODULE CborFloat -----------------------------
(***************************************************************************)
(* IEEE 754 binary16/32/64 as bit sequences (most significant first), and  *)
(* conversion between them: exact when the target can hold the number,     *)
(* otherwise to nearest, ties to even.                                     *)
(***************************************************************************)
EXTENDS CborNum

\* exponent and fraction bits and bias by width in bytes
EBits(w) == CASE w = 2 -> 5 [] w = 4 -> 8 [] w = 8 -> 11
MBits(w) == CASE w = 2 -> 10 [] w = 4 -> 23 [] w = 8 -> 52
Bias(w) == CASE w = 2 -> 15 [] w = 4 -> 127 [] w = 8 -> 1023

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024>>
ByteBits(x) == [i \in 1..8 |-> (x \div Pow2[9 - i]) % 2]
Bits(v) == [i \in 1..(8 * Len(v)) |-> ByteBits(v[((i - 1) \div 8) + 1])[((i - 1) % 8) + 1]]
BitsByte(b, i) == b[i] * 128 + b[i+1] * 64 + b[i+2] * 32 + b[i+3] * 16 + b[i+4] * 8 + b[i+5] * 4 + b[i+6] * 2 + b[i+7]
Unbits(b) == [i \in 1..(Len(b) \div 8) |-> BitsByte(b, 8 * (i - 1) + 1)]
RECURSIVE BitNat(_, _, _)
BitNat(b, i, acc) == IF i > Len(b) THEN acc ELSE BitNat(b, i + 1, 2 * acc + b[i])
NatBits(n, k) == [i \in 1..k |-> (n \div Pow2[k - i + 1]) % 2]
AnyOne(b) == \E i \in 1..Len(b) : b[i] = 1
First1(b) == CHOOSE i \in 1..Len(b) : b[i] = 1 /\ \A j \in 1..(i - 1) : b[j] = 0

(* the number stored in w bytes v: sign, and 1.frac * 2^exp *)
Unpack(w, v) ==
  LET b == Bits(v)
      e == BitNat(SubSeq(b, 2, 1 + EBits(w)), 1, 0)
      f == SubSeq(b, 2 + EBits(w), 8 * w)
      s == b[1]
      top == Pow2[EBits(w)] * 2 - 1
  IN IF e = top THEN IF AnyOne(f) THEN [cls |-> "nan", s |-> s, x |-> 0, f |-> <<>>]
                     ELSE [cls |-> "inf", s |-> s, x |-> 0, f |-> <<>>]
     ELSE IF e = 0 THEN
        IF ~AnyOne(f) THEN [cls |-> "zero", s |-> s, x |-> 0, f |-> <<>>]
        ELSE LET k == First1(f) IN
             [cls |-> "num", s |-> s, x |-> 1 - Bias(w) - k, f |-> SubSeq(f, k + 1, Len(f))]
     ELSE [cls |-> "num", s |-> s, x |-> e - Bias(w), f |-> f]

RECURSIVE Inc(_, _)
Inc(b, i) == IF i = 0 THEN b
             ELSE IF b[i] = 0 THEN [b EXCEPT ![i] = 1]
             ELSE Inc([b EXCEPT ![i] = 0], i - 1)

InfBits(w) == [i \in 1..EBits(w) |-> 1] \o Zeros(MBits(w))
\* exponent and fraction bits of the number in the target format
PackBits(w, n) ==
  LET sub == n.x < 1 - Bias(w)
      d == (1 - Bias(w)) - n.x          \* places below the smallest normal
      e == IF sub THEN 0 ELSE n.x + Bias(w)
      m == IF sub THEN (IF d > MBits(w) + 2 THEN Zeros(MBits(w) + 1) \o <<1>>
                        ELSE Zeros(d - 1) \o <<1>> \o n.f)
           ELSE n.f
      mm == IF Len(m) < MBits(w) THEN m \o Zeros(MBits(w) - Len(m)) ELSE m
      keep == SubSeq(mm, 1, MBits(w))
      rest == SubSeq(mm, MBits(w) + 1, Len(mm))
      up == Len(rest) > 0 /\ rest[1] = 1 /\
            (AnyOne(SubSeq(rest, 2, Len(rest))) \/ keep[MBits(w)] = 1)
  IN IF n.x > Bias(w) THEN InfBits(w)
     ELSE LET raw == NatBits(e, EBits(w)) \o keep IN
          IF up THEN Inc(raw, Len(raw)) ELSE raw

\* n in w bytes; <<>> stands for any NaN
Pack(w, n) ==
  CASE n.cls = "nan" -> <<>>
    [] n.cls = "inf" -> Unbits(<<n.s>> \o InfBits(w))
    [] n.cls = "zero" -> Unbits(<<n.s>> \o Zeros(8 * w - 1))
    [] OTHER -> Unbits(<<n.s>> \o PackBits(w, n))

Convert(from, v, to) == Pack(to, Unpack(from, v))
=============================================================================
