------------------------------- MODULE MCFloat -------------------------------
(***************************************************************************)
(* The conversions: on every half precision number (MODE halves), on       *)
(* single precision numbers of every exponent (singles), and on double     *)
(* precision numbers of every exponent, with fractions on both sides of    *)
(* and at the middle between two singles (doubles).                        *)
(***************************************************************************)
EXTENDS CborFloat, Emit
Mode == IOEnv.MODE
K == atoi(IOEnv.K)        \* 1: one sign for each exponent, 2: both
VARIABLES hi, lo, V
vars == <<hi, lo, V>>

One(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
Ones1(n) == [k \in 1..n |-> 1]
From(n, i) == [k \in 1..n |-> IF k >= i THEN 1 ELSE 0]
Zs(n) == [k \in 1..n |-> 0]
ESet == CASE Mode = "halves" -> 0..255 [] Mode = "singles" -> 0..255 [] Mode = "doubles" -> 0..2047
ExpBits(e, n) == [i \in 1..n |-> (e \div Pow2[n - i + 1]) % 2]
\* exponents where the result is a subnormal single, or nearly
Sub(e) == e \in 870..898
Fr23 == <<Zs(23), One(23, 23), One(23, 1), Ones1(23), SubSeq(Ones1(22), 1, 22) \o <<0>>, One(23, 12)>>
Keeps == <<Zs(23), One(23, 23), One(23, 1), Ones1(23), Ones1(22) \o <<0>>>>
Rests == <<Zs(29), One(29, 29), <<0>> \o Ones1(28), One(29, 1), <<1>> \o One(28, 28), Ones1(29)>>
Fr52 == TLCEval([i \in 1..30 |-> Keeps[((i - 1) \div 6) + 1] \o Rests[((i - 1) % 6) + 1]])
FrSub == TLCEval([i \in 1..204 |-> LET t == ((i - 1) \div 4) + 1 IN
                    CASE i % 4 = 1 -> One(52, t) [] i % 4 = 2 -> From(52, t) [] i % 4 = 3 -> From(52, t + 1)
                      [] i % 4 = 0 -> [One(52, t) EXCEPT ![t + 1] = 1]])
Fracs(e) == IF Mode = "singles" THEN Fr23 ELSE IF Sub(e) THEN Fr52 \o FrSub ELSE Fr52
Signs(e) == IF K > 1 THEN <<0, 1>> ELSE <<e % 2>>
W == CASE Mode = "halves" -> 2 [] Mode = "singles" -> 4 [] Mode = "doubles" -> 8
Make(e, s, f) == Unbits(<<s>> \o ExpBits(e, EBits(W)) \o f)
\* the numbers of one exponent, or the halves with one upper byte
Numbers(e) ==
  IF Mode = "halves" THEN [i \in 1..256 |-> <<e, i - 1>>]
  ELSE LET fs == Fracs(e)  ss == Signs(e)  n == Len(fs) IN
       TLCEval([i \in 1..(n * Len(ss)) |-> Make(e, ss[((i - 1) \div n) + 1], fs[((i - 1) % n) + 1])])

Init == hi \in ESet /\ lo = 0 /\ V = <<>>
Next == /\ lo = 0 /\ hi' = hi
        /\ LET ns == TLCEval(Numbers(hi)) IN \E i \in 1..Len(ns) : lo' = i /\ V' = ns[i]
Spec == Init /\ [][Next]_vars
IsNan(v) == Unpack(Len(v), v).cls = "nan"
AbsOf(v) == [v EXCEPT ![1] = @ % 128]

-----------------------------------------------------------------------------
\* widening is exact: there and back is the identity, directly or through single
BackH(v) == LET s == Convert(2, v, 4)  d == Convert(2, v, 8) IN
            Convert(4, s, 2) = v /\ Convert(8, d, 2) = v /\ Convert(4, s, 8) = d /\ Convert(8, d, 4) = s
Back == (lo > 0 /\ ~IsNan(V)) => CASE Mode = "halves" -> BackH(V)
                                   [] Mode = "singles" -> Convert(8, Convert(4, V, 8), 4) = V
                                   [] OTHER -> TRUE
\* the order of magnitudes is kept: successive halves have increasing singles and doubles
Lt(a, b) == LE8(a, b) /\ a # b
NextH(v) == IF v[2] = 255 THEN <<v[1] + 1, 0>> ELSE <<v[1], v[2] + 1>>
Mono == (lo > 0 /\ Mode = "halves" /\ hi < 128 /\ ~IsNan(V) /\ V # <<124, 0>>) =>
        LET n == NextH(V) IN Lt(Convert(2, V, 4), Convert(2, n, 4)) /\ Lt(Convert(2, V, 8), Convert(2, n, 8))

\* a double becomes the nearest single, by its neighbours: middles are sums of bit patterns halved
RECURSIVE Sum(_, _, _, _)
Sum(a, b, i, c) == IF i = 0 THEN <<>> ELSE LET x == a[i] + b[i] + c IN Append(Sum(a, b, i - 1, x \div 256), x % 256)
Halved(v) == [i \in 1..Len(v) |-> (v[i] \div 2) + (IF i > 1 /\ v[i - 1] % 2 = 1 THEN 128 ELSE 0)]
Plus1(v) == Sum(v, Zeros(Len(v) - 1) \o <<1>>, Len(v), 0)
Minus1(v) == Sum(v, [i \in 1..Len(v) |-> 255], Len(v), 0)
Mid(a, b) == \* the double half way between single a and the next one, b
  IF a = Zeros(4) THEN <<54, 144, 0, 0, 0, 0, 0, 0>>
  ELSE IF b = <<127, 128, 0, 0>> THEN <<71, 239, 255, 255, 240, 0, 0, 0>>
  ELSE Halved(Sum(Convert(4, a, 8), Convert(4, b, 8), 8, 0))
Nearest == (lo > 0 /\ Mode = "doubles" /\ ~IsNan(V)) =>
  LET d == AbsOf(V)  r == Convert(8, V, 4)  s == AbsOf(r)  even == s[4] % 2 = 0 IN
  /\ (r[1] >= 128) = (V[1] >= 128)
  /\ s # Zeros(4) => LET m == Mid(Minus1(s), s) IN Lt(m, d) \/ (m = d /\ even)
  /\ s # <<127, 128, 0, 0>> => LET m == Mid(s, Plus1(s)) IN Lt(d, m) \/ (m = d /\ even)
\* known points
Points == (lo = 0 /\ hi = 0) =>
          /\ Convert(2, <<60, 0>>, 4) = <<63, 128, 0, 0>>            \* 1.0
          /\ Convert(2, <<0, 1>>, 4) = <<51, 128, 0, 0>>              \* 2^-24
          /\ Convert(2, <<123, 255>>, 8) = <<64, 239, 252, 0, 0, 0, 0, 0>>   \* 65504
          /\ Convert(2, <<252, 0>>, 4) = <<255, 128, 0, 0>>           \* -inf
          /\ Convert(8, <<63, 185, 153, 153, 153, 153, 153, 154>>, 4) = <<61, 204, 204, 205>>  \* 0.1
          /\ Convert(8, <<71, 239, 255, 255, 240, 0, 0, 0>>, 4) = <<127, 128, 0, 0>>  \* rounds up to inf
          /\ Convert(8, <<71, 239, 255, 255, 239, 255, 255, 255>>, 4) = <<127, 127, 255, 255>>
          /\ Convert(8, <<54, 144, 0, 0, 0, 0, 0, 0>>, 4) = <<0, 0, 0, 0>>     \* 2^-150 to even zero
          /\ Convert(8, <<54, 144, 0, 0, 0, 0, 0, 1>>, 4) = <<0, 0, 0, 1>>

-----------------------------------------------------------------------------
RECURSIVE Buf(_, _)
Buf(ns, i) == IF i > Len(ns) THEN <<>> ELSE <<CASE W = 2 -> 249 [] W = 4 -> 250 [] W = 8 -> 251>> \o ns[i] \o Buf(ns, i + 1)
Sessions == lo = 0 => LET ns == Numbers(hi) IN
  Emit("reader", Buf(ns, 1), [i \in 1..Len(ns) |-> Op("f", "float", "")])
==============================================================================
