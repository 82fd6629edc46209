----------------------------- MODULE CborTypes -----------------------------
(***************************************************************************)
(* Typed values: what the bytes of an item mean as a Rust type, and the    *)
(* bytes a value of the type is written as.                                *)
(* A value is [k |-> kind, b |-> bytes, l |-> parts].                      *)
(* A type is named; Types gives its description (t, and what it needs).    *)
(* Derived types are described by the same records, read from a file.      *)
(***************************************************************************)
EXTENDS CborReader, Json, IOUtils, SequencesExt

V(k, b, l) == [k |-> k, b |-> b, l |-> l]

Ty(t) == [t |-> t]
TyW(t, w) == [t |-> t, w |-> w]
TyOf(t, of) == [t |-> t, of |-> of]

Native ==
  [bool |-> Ty("bool"), u8 |-> TyW("uint", 1), u16 |-> TyW("uint", 2), u32 |-> TyW("uint", 4),
   u64 |-> TyW("uint", 8), text |-> Ty("text"), bytes |-> Ty("bytes"), b0 |-> TyW("fixed", 0),
   b1 |-> TyW("fixed", 1), b4 |-> TyW("fixed", 4), b16 |-> TyW("fixed", 16), b24 |-> TyW("fixed", 24), b64 |-> TyW("fixed", 64), b256 |-> TyW("fixed", 256), b300 |-> TyW("fixed", 300), b32 |-> TyW("fixed", 32),
   scalar |-> Ty("scalar"), data |-> Ty("data"), simple |-> Ty("simple"),
   list_u8 |-> TyOf("list", "u8"), list_u16 |-> TyOf("list", "u16"), list_u64 |-> TyOf("list", "u64"),
   list_text |-> TyOf("list", "text"), list_bytes |-> TyOf("list", "bytes"),
   list_bool |-> TyOf("list", "bool"), list_scalar |-> TyOf("list", "scalar"),
   list_list_u16 |-> TyOf("list", "list_u16"), list_raw_u16 |-> TyOf("list", "raw_u16"),
   list_b4 |-> TyOf("list", "b4"), raw_u16 |-> TyOf("raw", "u16"), raw_text |-> TyOf("raw", "text"),
   raw_data |-> TyOf("raw", "data"), raw_list_u16 |-> TyOf("raw", "list_u16"),
   datetime |-> Ty("datetime"), posbig |-> Ty("posbig"), negbig |-> Ty("negbig"),
   encoded |-> Ty("encoded"), rational |-> Ty("rational"), nothing |-> Ty("nothing"), two |-> Ty("two")]

(* the derived ones: a list of descriptions with a name n each *)
DerivedList == IF IOEnv.SCHEMA = "" THEN <<>> ELSE JsonDeserialize(IOEnv.SCHEMA)
Derived == [n \in {DerivedList[x].n : x \in 1..Len(DerivedList)} |->
              DerivedList[CHOOSE x \in 1..Len(DerivedList) : DerivedList[x].n = n]]
\* (no @@, no recursion in what follows: TLC then works these definitions out once)
Types == [n \in DOMAIN Native \cup DOMAIN Derived |-> IF n \in DOMAIN Native THEN Native[n] ELSE Derived[n]]

-----------------------------------------------------------------------------
(* decoding: [st |-> "ok", v, p] or st = "err" with words s, numbers b, the *)
(* path (indexes and field names, innermost first), and alt. Where several  *)
(* things are wrong, other has the further reports, any of which is true    *)
DOk(v, p) == [st |-> "ok", v |-> v, p |-> p]
DErr(s, b) == [st |-> "err", s |-> s, b |-> b, alt |-> FALSE, path |-> <<>>, other |-> <<>>]
\* a report in free words: the words and numbers that have to be in it, and what was found
DCustom(words, found, nums) == DErr(<<"custom">> \o words, <<found>> \o nums)
Nothing == <<>>
DOf(r) == [st |-> "err", s |-> r.e.s, b |-> r.e.b, alt |-> r.e.alt, path |-> <<>>, other |-> <<>>]
Report1(r) == [s |-> r.s, b |-> r.b, path |-> r.path]
Or(r, q) == [r EXCEPT !.other = (@ \o <<Report1(q)>>) \o q.other, !.alt = @ \/ q.alt]
At(r, w) == [r EXCEPT !.path = Append(@, w), !.other = [i \in 1..Len(@) |-> [@[i] EXCEPT !.path = Append(@, w)]]]
\* the refusals among these: one of them, the others as true
IsErr(r) == r.st = "err"
OneOf(bad) == IF Len(bad) > 6 THEN FoldLeft(Or, bad[1], SubSeq(bad, 2, 4) \o <<bad[Len(bad)]>>) ELSE FoldLeft(Or, bad[1], Tail(bad))
OrAlso(r, more) == IF more = <<>> THEN r ELSE Or(r, OneOf(more))
At2(r, w) == IF IsErr(r) THEN At(r, w) ELSE r
AltErr(r) == IF r.st = "ok" THEN r ELSE [r EXCEPT !.alt = TRUE]

Ones(w) == Zeros(8 - w) \o [i \in 1..w |-> 255]
EncV(B, p, q) == V("enc", SubSeq(B, p + 1, q), <<>>)

\* the item read as the kind op: its read record with the value made by Mk
Simple(op, B, p, Mk(_)) == LET r == Read(op, B, p) IN IF r.st = "ok" THEN Mk(r) ELSE DOf(r)

N64(n) == Pad8(NatBytes(n))
TrailErr == DErr(<<"trailing">>, <<>>)

(* content of a tag that has to be num; Mk gets tag and the content read    *)
(* as op                                                                   *)
Tagged(num, op, kind, B, p) ==
  LET t == Read("tag", B, p) IN
  IF t.st # "ok" THEN DOf(t)
  ELSE LET x == Slice(B, t.parts[1])  r == Read(op, x, 0)
           content == IF r.st # "ok" THEN <<DOf(r)>> ELSE <<>>
       IN
       IF Pad8(t.v) # N64(num) THEN OrAlso(DErr(<<"tag">>, <<N64(num), Pad8(t.v)>>), content)
       ELSE IF r.st # "ok" THEN DOf(r)
       ELSE DOk(V(kind, IF kind = "datetime" THEN <<>> ELSE Payload(r), <<EncV(B, p, t.p)>>), t.p)

ScalarV(k, v) == V(k, Pad8(v), <<>>)

\* an integer or a big number
RatPart(x, neg) ==
  LET k == PeekKind(x, 0) IN
  IF k.st # "ok" THEN DOf(k)
  ELSE IF k.k = "Positive" \/ (neg /\ k.k = "Negative")
       THEN LET r == Read("scalar", x, 0) IN IF r.st = "ok" THEN DOk(ScalarV(r.k, r.v), r.p) ELSE DOf(r)
  ELSE IF k.k = "Tag"
       THEN LET a == Tagged(2, "bytes", "posbig", x, 0) IN
            IF a.st = "ok" \/ ~neg THEN a
            ELSE LET b == Tagged(3, "bytes", "negbig", x, 0) IN IF b.st = "ok" THEN b ELSE Or(b, a)
  ELSE DErr(<<"type">> \o (IF neg THEN <<"Negative", "Positive", "Tag">> ELSE <<"Positive", "Tag">>) \o <<k.k>>, <<>>)

RatContent(x) ==
  LET a == Read("array", x, 0) IN
  IF a.st # "ok" THEN DOf(a)
  ELSE LET n == IF Len(a.parts) < 1 THEN DErr(<<>>, <<>>) ELSE RatPart(Slice(x, a.parts[1]), TRUE)
           d == IF Len(a.parts) < 2 THEN DErr(<<>>, <<>>) ELSE RatPart(Slice(x, a.parts[2]), FALSE)
           bad == SelectSeq(SubSeq(<<n, d>>, 1, IF Len(a.parts) < 2 THEN Len(a.parts) ELSE 2), IsErr)
       IN IF Len(a.parts) # 2 THEN OrAlso(DErr(<<"length">>, <<N64(2), N64(Len(a.parts))>>), bad)
          ELSE IF bad # <<>> THEN OneOf(bad)
          ELSE DOk(<<n.v, d.v>>, 0)
Rational(B, p) ==
  LET t == Read("tag", B, p) IN
  IF t.st # "ok" THEN DOf(t)
  ELSE LET r == RatContent(Slice(B, t.parts[1])) IN
       IF Pad8(t.v) # N64(30) THEN OrAlso(DErr(<<"tag">>, <<N64(30), Pad8(t.v)>>), SelectSeq(<<r>>, IsErr))
       ELSE IF r.st # "ok" THEN r
       ELSE DOk(V("rational", <<>>, <<r.v[1], r.v[2], EncV(B, p, t.p)>>), t.p)

-----------------------------------------------------------------------------
(* numbers of the fields of an integer-keyed map and of the variants of an  *)
(* enum: 8 bytes each, from start on, one after the other, jumping over     *)
(* skips                                                                    *)
InSeq(x, s) == \E i \in 1..Len(s) : s[i] = x
FreeFrom(n, skips) == FoldLeft(LAMBDA m, x : IF InSeq(m, skips) THEN Next8(m) ELSE m, n, skips)
NumbersOf(t) ==
  FoldLeft(LAMBDA acc, x : Append(acc, FreeFrom(IF acc = <<>> THEN t.start ELSE Next8(acc[Len(acc)]), t.skips)),
           <<>>, IF t.t = "struct" THEN t.fields ELSE t.vars)
AllNumbers == [n \in DOMAIN Derived |-> NumbersOf(Derived[n])]
Numbers(t) == AllNumbers[t.n]

NoneV == V("none", <<>>, <<>>)
SomeV(v) == V("some", <<>>, <<v>>)
IndexOf(x, s) == IF InSeq(x, s) THEN CHOOSE i \in 1..Len(s) : s[i] = x ELSE 0

RECURSIVE Dec(_, _, _), Whole(_, _), DecList(_, _), DecSeq(_, _, _, _, _),
          FieldsOf(_, _), DecParts(_, _), DecMap(_, _, _), DecContent(_, _, _), DecEnum(_, _, _)

(* x is the complete encoding of one value *)
Whole(n, x) ==
  LET r == Dec(n, x, 0) IN
  IF r.st # "ok" THEN r
  ELSE IF r.p = Len(x) THEN r
  ELSE DErr(<<"trailing">>, <<N64(r.p), N64(Len(x) - r.p), <<x[r.p + 1]>>>>)

DecList(of, parts) ==
  LET rs == TLCEval([i \in 1..Len(parts) |-> Dec(of, parts[i], 0)])
      bad == {i \in 1..Len(rs) : rs[i].st # "ok"}
  IN IF bad = {} THEN DOk(V("list", <<>>, [i \in 1..Len(rs) |-> rs[i].v]), 0)
     ELSE OneOf(SelectSeq([i \in 1..Len(rs) |-> IF i \in bad THEN At(rs[i], Str(i - 1)) ELSE rs[i]], IsErr))

Dec(n, B, p) ==
  LET T == Types[n] IN
  CASE T.t = "bool" -> Simple("bool", B, p, LAMBDA r : DOk(V(r.k, <<>>, <<>>), r.p))
    [] T.t = "uint" -> Simple("positive", B, p, LAMBDA r :
          IF FitsBytes(r.v, T.w) THEN DOk(V("uint", Pad8(r.v), <<>>), r.p)
          ELSE DErr(<<"range">>, <<Zeros(8), Ones(T.w), Pad8(r.v)>>))
    [] T.t = "text" -> Simple("text", B, p, LAMBDA r : DOk(V("text", Payload(r), <<>>), r.p))
    [] T.t = "bytes" -> Simple("bytes", B, p, LAMBDA r : DOk(V("bytes", Payload(r), <<>>), r.p))
    [] T.t = "fixed" -> Simple("bytes", B, p, LAMBDA r :
          LET d == Payload(r) IN
          IF Len(d) = T.w THEN DOk(V("bytes", d, <<>>), r.p)
          ELSE DErr(<<"length">>, <<N64(T.w), N64(Len(d))>>))
    [] T.t = "scalar" -> Simple("scalar", B, p, LAMBDA r : DOk(ScalarV(r.k, r.v), r.p))
    [] T.t = "simple" -> Simple("byte", B, p, LAMBDA r : DOk(V("byte", r.v, <<>>), r.p))
    [] T.t = "data" -> LET r == ReadAny(B, p) IN
          IF r.st = "ok" THEN DOk(V("data", SubSeq(B, p + 1, r.p), <<>>), r.p) ELSE DOf(r)
    [] T.t = "raw" -> LET a == Scan(B, p) IN
          IF a.st # "ok" THEN DOf(Inside(a))
          ELSE LET x == SubSeq(B, p + 1, a.p)  r == Whole(T.of, x) IN
               IF r.st = "ok" THEN DOk(V("raw", x, <<>>), a.p) ELSE r
    [] T.t = "list" -> LET a == Read("array", B, p) IN
          IF a.st # "ok" THEN DOf(a)
          ELSE LET r == DecList(T.of, PartBytes(B, a)) IN
               IF r.st = "ok" THEN DOk(r.v, a.p) ELSE r
    [] T.t = "datetime" -> Tagged(0, "text", "datetime", B, p)
    [] T.t = "posbig" -> Tagged(2, "bytes", "posbig", B, p)
    [] T.t = "negbig" -> Tagged(3, "bytes", "negbig", B, p)
    [] T.t = "encoded" -> Tagged(24, "bytes", "encoded", B, p)
    [] T.t = "rational" -> Rational(B, p)
    [] T.t = "nothing" -> DOk(V("nothing", <<>>, <<>>), p)
    [] T.t = "two" -> LET a == Dec("u64", B, p) IN
          IF a.st # "ok" THEN a
          ELSE LET b == Dec("u64", B, a.p) IN
               IF b.st # "ok" THEN b ELSE DOk(V("two", <<>>, <<a.v, b.v>>), b.p)
    [] T.t = "struct" ->
          IF T.tag = <<>> THEN DecContent(T, B, p)
          ELSE LET t == Read("tag", B, p) IN
               IF t.st # "ok" THEN DOf(t)
               ELSE LET r == DecContent(T, Slice(B, t.parts[1]), 0) IN
                    IF Pad8(t.v) # T.tag THEN OrAlso(DErr(<<"tag">>, <<T.tag, Pad8(t.v)>>), SelectSeq(<<r>>, IsErr))
                    ELSE IF r.st = "ok" THEN DOk(r.v, t.p) ELSE r
    [] T.t = "enum" -> DecEnum(T, B, p)

-----------------------------------------------------------------------------
(* derived structures; named fields show up in the path, tuple fields do not *)
Named(T, r, f) == IF r.st # "ok" /\ T.named THEN At(r, f.n) ELSE r
StructV(l) == V("struct", <<>>, l)

\* fields one after the other in the same reader
DecSeq(T, i, B, p, acc) ==
  IF i > Len(T.fields) THEN DOk(StructV(acc), p)
  ELSE LET f == T.fields[i]  r == Dec(f.of, B, p) IN
       IF r.st # "ok" THEN Named(T, r, f) ELSE DecSeq(T, i + 1, B, r.p, Append(acc, r.v))

\* fields from the elements xs, as far as there are any
FieldsOf(T, xs) ==
  LET n == IF Len(xs) < Len(T.fields) THEN Len(xs) ELSE Len(T.fields)
  IN TLCEval([i \in 1..n |-> Named(T, Whole(T.fields[i].of, xs[i]), T.fields[i])])
DecParts(T, xs) ==
  LET last == T.form = "lastopt"
      n == Len(T.fields)
      rs == FieldsOf(T, xs)
      bad == SelectSeq(rs, IsErr)
  IN IF Len(xs) # n /\ ~(last /\ Len(xs) = n - 1)
     THEN OrAlso(DCustom(<<>>, N64(Len(xs)), <<N64(n)>> \o (IF last THEN <<N64(n - 1)>> ELSE <<>>)), bad)
     ELSE IF bad # <<>> THEN OneOf(bad)
     ELSE DOk(StructV(TLCEval([i \in 1..n |-> IF i > Len(xs) THEN NoneV
                                               ELSE IF last /\ i = n THEN SomeV(rs[i].v) ELSE rs[i].v])), 0)

\* fields from entries: keys at odd places, values at even ones
DecMap(T, nums, parts) ==
  LET n == Len(parts) \div 2
      ks == TLCEval([i \in 1..n |-> Dec("u64", parts[2 * i - 1], 0)])
      \* the field of an entry, 0 when there is none
      fs == TLCEval([i \in 1..n |-> IF ks[i].st = "ok" THEN IndexOf(ks[i].v.b, nums) ELSE 0])
      vs == TLCEval([i \in 1..n |-> IF fs[i] = 0 THEN ks[i] ELSE At2(Dec(T.fields[fs[i]].of, parts[2 * i], 0), T.fields[fs[i]].n)])
      Again(i) == fs[i] # 0 /\ \E h \in 1..(i - 1) : fs[h] = fs[i]
      BadKey(i) == IF ks[i].st # "ok" THEN <<ks[i]>>
                   ELSE IF fs[i] = 0 \/ Again(i) THEN <<DCustom(<<>>, Nothing, <<Pad8(ks[i].v.b)>>)>> ELSE <<>>
      BadVal(i) == IF fs[i] # 0 /\ vs[i].st # "ok" THEN <<vs[i]>> ELSE <<>>
      entries == Cat(TLCEval([i \in 1..n |-> BadKey(i) \o BadVal(i)]))
      lack == Cat(TLCEval([j \in 1..Len(nums) |->
                IF T.fields[j].must /\ ~InSeq(j, fs) THEN <<DCustom(<<T.fields[j].n>>, Nothing, <<>>)>> ELSE <<>>]))
      bad == entries \o lack
      At1(j) == CHOOSE i \in 1..n : fs[i] = j
  IN IF bad # <<>> THEN OneOf(bad)
     ELSE DOk(StructV(TLCEval([j \in 1..Len(nums) |->
            IF ~InSeq(j, fs) THEN NoneV ELSE IF T.fields[j].must THEN vs[At1(j)].v ELSE SomeV(vs[At1(j)].v)])), 0)

DecContent(T, B, p) ==
  CASE T.form = "flat" -> DecSeq(T, 1, B, p, <<>>)
    [] T.form \in {"array", "lastopt"} -> LET a == Read("array", B, p) IN
         IF a.st # "ok" THEN DOf(a)
         ELSE LET r == DecParts(T, PartBytes(B, a)) IN
              IF r.st = "ok" THEN DOk(r.v, a.p) ELSE r
    [] T.form = "mapint" -> LET m == Read("map", B, p) IN
         IF m.st # "ok" THEN DOf(m)
         ELSE LET r == DecMap(T, Numbers(T), PartBytes(B, m)) IN
              IF r.st = "ok" THEN DOk(r.v, m.p) ELSE r

-----------------------------------------------------------------------------
(* derived enums: the value is the index of the variant and its fields *)
EnumV(i, l) == V("enum", <<i>>, l)

\* the fields of a variant from the elements after the number, as far as there are any
RECURSIVE VarFields(_, _)
VarFields(var, xs) ==
  LET n == IF Len(xs) - 1 < Len(var.fields) THEN Len(xs) - 1 ELSE Len(var.fields)
      One(f, x) == IF f.vec
                   THEN LET a == Read("array", x, 0) IN
                        IF a.st # "ok" THEN DOf(a) ELSE DecList(f.of, PartBytes(x, a))
                   ELSE LET r == Whole(f.of, x) IN IF IsErr(r) /\ var.named THEN At(r, f.n) ELSE r
  IN TLCEval([i \in 1..n |-> One(var.fields[i], xs[i + 1])])

DecEnum(T, B, p) ==
  LET nums == Numbers(T) IN
  CASE T.form = "enumint" -> LET r == Dec("u64", B, p) IN
         IF r.st # "ok" THEN r
         ELSE LET j == IndexOf(r.v.b, nums) IN
              IF j = 0 THEN DCustom(<<>>, Nothing, <<Pad8(r.v.b)>>) ELSE DOk(EnumV(j, <<>>), r.p)
    [] T.form = "tagvariant" -> LET a == Read("array", B, p) IN
         IF a.st # "ok" THEN DOf(a)
         ELSE IF Len(a.parts) = 0 THEN DCustom(<<>>, Nothing, <<>>)
         ELSE LET xs == PartBytes(B, a)  k == Whole("u64", xs[1]) IN
              IF k.st # "ok" THEN k
              ELSE LET j == IndexOf(k.v.b, nums) IN
                   IF j = 0 THEN DCustom(<<>>, Nothing, <<Pad8(k.v.b)>>)
                   ELSE LET want == Len(T.vars[j].fields) + 1
                            rs == VarFields(T.vars[j], xs)
                            bad == SelectSeq(rs, IsErr)
                        IN
                        IF Len(xs) # want
                        THEN OrAlso(Or(DCustom(<<>>, N64(Len(xs)), <<N64(want)>>), DCustom(<<>>, N64(Len(xs) - 1), <<N64(want - 1)>>)), bad)
                        ELSE IF bad # <<>> THEN OneOf(bad)
                        ELSE DOk(EnumV(j, TLCEval([i \in 1..Len(rs) |-> rs[i].v])), a.p)
    [] T.form = "enumtype" -> LET k == PeekKind(B, p) IN
         IF k.st # "ok" THEN DOf(k)
         ELSE LET j == IndexOf(k.k, [x \in 1..Len(T.vars) |-> T.vars[x].kind]) IN
              IF j = 0 THEN DCustom(<<k.k>>, Nothing, <<>>)
              ELSE IF T.vars[j].fields = <<>> THEN DOk(EnumV(j, <<>>), p + 1)
              ELSE LET r == Dec(T.vars[j].fields[1].of, B, p) IN
                   IF r.st = "ok" THEN DOk(EnumV(j, <<r.v>>), r.p) ELSE r

-----------------------------------------------------------------------------
(* encoding *)
CanonStr(k, d) == EncHeadCanon(MajorOf(k), N64(Len(d))) \o d
ArrHead(n) == EncHeadCanon(4, N64(n))
MapHead(n) == EncHeadCanon(5, N64(n))
EncNum(v) == EncHeadCanon(0, v)
EncByte(x) == IF x < 20 THEN <<224 + x>> ELSE <<248, x>>

RECURSIVE Enc(_, _), EncAll(_, _), EncFields(_, _, _), EncEntries(_, _, _, _)
EncAll(of, l) == Cat([i \in 1..Len(l) |-> Enc(of, l[i])])

Enc(n, v) ==
  LET T == Types[n] IN
  CASE T.t = "bool" -> <<IF v.k = "True" THEN 245 ELSE 244>>
    [] T.t = "uint" -> EncHeadCanon(0, v.b)
    [] T.t = "text" -> CanonStr("Text", v.b)
    [] T.t \in {"bytes", "fixed"} -> CanonStr("Bytes", v.b)
    [] T.t = "scalar" -> EncHeadCanon(MajorOf(v.k), v.b)
    [] T.t = "simple" -> EncByte(v.b[1])
    [] T.t \in {"data", "raw"} -> v.b
    [] T.t = "list" -> ArrHead(Len(v.l)) \o EncAll(T.of, v.l)
    [] T.t \in {"datetime", "posbig", "negbig", "encoded"} -> v.l[1].b
    [] T.t = "rational" -> v.l[3].b
    [] T.t = "nothing" -> <<>>
    [] T.t = "two" -> Enc("u64", v.l[1]) \o Enc("u64", v.l[2])
    [] T.t = "struct" ->
         (IF T.tag = <<>> THEN <<>> ELSE EncHeadCanon(6, T.tag)) \o
         (CASE T.form = "flat" -> EncFields(T, v.l, 1)
            [] T.form = "array" -> ArrHead(Len(v.l)) \o EncFields(T, v.l, 1)
            [] T.form = "lastopt" ->
                 LET last == v.l[Len(v.l)] IN
                 IF last.k = "none" THEN ArrHead(Len(v.l) - 1) \o EncFields(T, SubSeq(v.l, 1, Len(v.l) - 1), 1)
                 ELSE ArrHead(Len(v.l)) \o EncFields(T, [v.l EXCEPT ![Len(v.l)] = last.l[1]], 1)
            [] T.form = "mapint" ->
                 MapHead(Len(SelectSeq([j \in 1..Len(v.l) |-> T.fields[j].must \/ v.l[j].k = "some"], LAMBDA x : x)))
                 \o EncEntries(T, Numbers(T), v.l, 1))
    [] T.t = "enum" ->
         LET j == v.b[1]  nums == Numbers(T)  var == T.vars[j] IN
         CASE T.form = "enumint" -> EncNum(nums[j])
           [] T.form = "tagvariant" -> ArrHead(1 + Len(v.l)) \o EncNum(nums[j]) \o EncFields(var, v.l, 1)
           [] T.form = "enumtype" -> IF var.fields = <<>> THEN <<246>> ELSE Enc(var.fields[1].of, v.l[1])

EncFields(T, l, i) ==
  IF i > Len(l) THEN <<>>
  ELSE (IF "vec" \in DOMAIN T.fields[i] /\ T.fields[i].vec
        THEN ArrHead(Len(l[i].l)) \o EncAll(T.fields[i].of, l[i].l)
        ELSE Enc(T.fields[i].of, l[i])) \o EncFields(T, l, i + 1)

EncEntries(T, nums, l, i) ==
  IF i > Len(l) THEN <<>>
  ELSE (IF T.fields[i].must THEN EncNum(nums[i]) \o Enc(T.fields[i].of, l[i])
        ELSE IF l[i].k = "none" THEN <<>>
        ELSE EncNum(nums[i]) \o Enc(T.fields[i].of, l[i].l[1])) \o EncEntries(T, nums, l, i + 1)

-----------------------------------------------------------------------------
(* the entry points *)
WholePathsD == {"bytes", "one", "data", "slice", "vslice", "vdata"}
PartPathsD == {"elem", "oelem", "mapval", "tag", "tagread"}
DPaths == WholePathsD \cup PartPathsD \cup {"dec", "trait", "arrvec"}

\* the first item of B, taken whole
FirstItem(n, B) ==
  LET a == Scan(B, 0) IN
  IF a.st # "ok" THEN DOf(Inside(a))
  ELSE LET r == Whole(n, SubSeq(B, 1, a.p)) IN r

DecPath(n, how, B) ==
  CASE how \in WholePathsD -> Whole(n, B)
    [] how \in PartPathsD -> FirstItem(n, B)
    [] how \in {"dec", "trait"} -> Dec(n, B, 0)
    [] how = "arrvec" ->
         LET w == <<159>> \o B \o <<255>>  a == Read("array", w, 0) IN
         IF a.st # "ok" THEN AltErr(DOf(a))
         ELSE LET xs == PartBytes(w, a)
                  rs == TLCEval([i \in 1..Len(xs) |-> Whole(n, xs[i])])
                  bad == SelectSeq(rs, IsErr)
              IN IF bad # <<>> THEN OneOf(bad)
                 ELSE IF Len(xs) # 1 THEN DCustom(<<>>, Nothing, <<>>)
                 ELSE rs[1]

\* raw data of the type: the bytes kept, and the value
WPaths == {"exslice", "exdata", "dec", "bytes", "vslice", "vdata", "vowned", "elem"}
RawPath(n, how, B) ==
  CASE how \in {"vslice", "vdata", "vowned"} -> Whole(n, B)
    [] how = "bytes" -> LET r == FirstItem(n, B) IN
         IF r.st # "ok" THEN r
         ELSE IF r.p = Len(B) THEN r
         ELSE DErr(<<"trailing">>, <<N64(r.p), N64(Len(B) - r.p), <<B[r.p + 1]>>>>)
    [] OTHER -> FirstItem(n, B)

NPaths == {"fn", "writer", "raw", "builder", "vec"}
EncPath(n, how, v) == (IF how \in {"builder", "vec"} THEN <<129>> ELSE <<>>) \o Enc(n, v)
=============================================================================
