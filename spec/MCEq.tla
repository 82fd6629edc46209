-------------------------------- MODULE MCEq --------------------------------
(***************************************************************************)
(* Pairs of items: for each item of a set, it and every other item of the  *)
(* set that is near it: its other spellings, its near misses, the same     *)
(* number as another float, and the other items of its kind.               *)
(***************************************************************************)
EXTENDS CborEq, Mutate, Emit
K == atoi(IOEnv.K)
VARIABLES x, y
vars == <<x, y>>

Floats2 == {<<0, 0>>, <<128, 0>>, <<60, 0>>, <<60, 1>>, <<188, 0>>, <<124, 0>>, <<252, 0>>, <<126, 0>>, <<126, 1>>, <<124, 1>>, <<254, 0>>, <<0, 1>>, <<4, 0>>, <<123, 255>>}
FloatItem(v) == <<CASE Len(v) = 2 -> 249 [] Len(v) = 4 -> 250 [] Len(v) = 8 -> 251>> \o v
\* the same number in every width that holds it
Same(v) == {v} \cup {Convert(Len(v), v, t) : t \in {u \in {2, 4, 8} : u > Len(v) /\ Unpack(Len(v), v).cls # "nan"}}
NanWide(v) == {<<127, 192, 0, 0>>, <<127, 192, 0, 1>>, <<255, 192, 0, 0>>, <<127, 248, 0, 0, 0, 0, 0, 0>>, <<127, 248, 0, 0, 0, 0, 0, 1>>}
FloatSet == {FloatItem(u) : u \in UNION {Same(v) : v \in Floats2} \cup NanWide(0)}

Nums == {N64x : N64x \in {<<0>>, <<1>>, <<23>>, <<24>>, <<255>>, <<1, 0>>, <<255, 255>>, <<1, 0, 0>>, <<255, 255, 255, 255>>, <<1, 0, 0, 0, 0>>,
                          <<128, 0, 0, 0, 0, 0, 0, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>}}
IntItems == {EncHeadCanon(m, Pad8(v)) : m \in {0, 1}, v \in Nums}
Small3 == {<<0>>, <<97, 97>>, <<65, 7>>, <<246>>, <<129, 0>>, <<161, 0, 1>>, <<193, 0>>, <<249, 60, 0>>, <<224>>}
Seeds == IntItems \cup FloatSet \cup {<<224>>, <<243>>, <<248, 0>>, <<248, 20>>, <<248, 255>>, <<244>>, <<245>>, <<246>>, <<247>>}
  \cup {<<64>>, <<65, 7>>, <<66, 7, 8>>, <<67, 1, 2, 3>>, <<95, 65, 7, 64, 65, 8, 255>>, <<96>>, <<97, 97>>, <<98, 195, 169>>, <<99, 97, 98, 99>>, <<127, 97, 97, 97, 98, 255>>}
  \cup {<<128>>, <<160>>, <<159, 255>>, <<191, 255>>} \cup {<<129>> \o e : e \in Small3} \cup {<<193>> \o e : e \in Small3}
  \cup {<<161>> \o e \o <<1>> : e \in Small3} \cup {<<161, 0>> \o e : e \in Small3}
  \cup {<<130, 0, 1>>, <<130, 1, 0>>, <<131, 0, 0, 0>>, <<131, 0, 1, 2>>, <<162, 0, 1, 1, 0>>, <<162, 1, 0, 0, 1>>, <<162, 0, 0, 0, 1>>, <<162, 97, 97, 0, 97, 98, 1>>,
        <<130, 65, 7, 97, 97>>, <<216, 30, 130, 1, 2>>, <<194, 65, 1>>, <<193, 193, 193, 0>>, <<129, 129, 129, 0>>, <<161, 129, 0, 161, 0, 1>>, <<129, 161, 0, 193, 1>>}
Deeper == {<<129>> \o a : a \in {<<129>> \o e : e \in Small3} \cup {<<161, 0>> \o e : e \in Small3}} \cup {<<130>> \o e \o f : e, f \in Small3}
          \cup {<<162, 0>> \o e \o <<1>> \o f : e, f \in Small3}
Items == IF K < 2 THEN Seeds ELSE Seeds \cup Deeper

IsOne(b) == b # <<>> /\ LET a == Scan(b, 0) IN a.st = "ok" /\ a.p = Len(b)
Kind(b) == LeadKind(b[1])
Group(k) == IF k \in ConstKinds THEN "constant" ELSE IF k \in IntKinds THEN "int" ELSE k
Near(b) == {b} \cup Spellings(b) \cup {c \in Misses(b) : IsOne(c)} \cup {c \in Seeds : Group(Kind(c)) = Group(Kind(b))}
           \cup (IF Group(Kind(b)) = "int" THEN {EncHead(m, w, ToWidth(Hdr(b, 0).v, w)) : m \in {0, 1}, w \in {u \in {1, 2, 4, 8} : u >= CanonW(Hdr(b, 0).v)}} ELSE {})

Init == x \in Items /\ y = <<>>
Next == y = <<>> /\ x' = x /\ y' \in Near(x)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what is kept of an item that was read; kept of a string: its chunks with their heads
Kept(b) == LET r == ReadAny(b, 0)  k == Group(Kind(b)) IN
  CASE k \in {"Bytes", "Text"} -> <<k, r.ind, r.ch>>
    [] k \in {"Array", "Map", "Tag"} -> <<k, r.ind, r.w, r.v, PartBytes(b, r)>>
    [] OTHER -> <<r.k, r.w, r.v>>
Readable(b) == ReadAny(b, 0).st = "ok"
\* two items are kept as the same exactly when they are the same bytes
Faithful == (y # <<>> /\ Readable(x) /\ Readable(y)) => ((Kept(x) = Kept(y)) <=> (x = y))

-----------------------------------------------------------------------------
Typed(b) == CASE Kind(b) \in IntKinds -> {KindOp(Kind(b)), "scalar"}
              [] Kind(b) \in {"Bytes", "Text", "Array", "Map", "Tag"} -> {KindOp(Kind(b)), KindOp(Kind(b)) \o "owned"}
              [] OTHER -> {KindOp(Kind(b))}
RECURSIVE ListOf(_)
ListOf(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE e \in S : TRUE IN <<e>> \o ListOf(S \ {e})
All == AnyHows \cup ItemHows \cup {"decoded"}
Sessions == y = <<>> =>
  LET ys == TLCEval(ListOf(Near(x))) IN
  \A h \in All \cup Typed(x) :
     Emit("pair", x, [i \in 1..Len(ys) |-> OpA("", "eq", h, 0, <<ys[i]>>)])
=============================================================================
