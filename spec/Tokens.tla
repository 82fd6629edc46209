------------------------------- MODULE Tokens -------------------------------
(* Pieces that inputs are made of in the exhaustive runs: whole heads with  *)
(* their payload, breaks, and broken heads.                                 *)
EXTENDS Naturals, Sequences
IntT == {<<0>>, <<23>>, <<24, 24>>, <<24, 5>>, <<25, 0, 1>>, <<32>>, <<56, 255>>}
Int1 == {<<1>>, <<32>>, <<24, 1>>}
ConstT == {<<244>>, <<245>>, <<246>>, <<247>>}
ByteT == {<<224>>, <<243>>, <<248, 20>>, <<248, 255>>}
FloatT == {<<249, 60, 0>>, <<250, 63, 128, 0, 1>>, <<251, 63, 240, 0, 0, 0, 0, 0, 9>>}
BytesT == {<<64>>, <<65, 7>>, <<88, 1, 7>>, <<89, 0, 2, 1, 2>>}
TextT == {<<96>>, <<97, 97>>, <<120, 2, 195, 169>>, <<97, 255>>}
IndT == {<<95>>, <<127>>, <<159>>, <<191>>}
BreakT == {<<255>>}
ArrT == {<<128>>, <<129>>, <<130>>, <<152, 1>>, <<153, 0, 2>>}
MapT == {<<160>>, <<161>>, <<184, 1>>, <<162>>}
TagT == {<<193>>, <<216, 24>>, <<217, 1, 0>>, <<217, 217, 247>>}
\* simple values in two bytes, the reserved and the assigned ones too
Byte2T == {<<248, x>> : x \in 0..47 \cup {63, 64, 95, 96, 127, 128, 191, 192, 224, 244, 245, 246, 247}}
\* texts with all kinds of characters, and texts with one bad byte somewhere
Lets9(n, k) == [i \in 1..n |-> IF i = k THEN 255 ELSE 97]
LongT == {<<99, 239, 187, 191>>, <<100, 239, 187, 191, 97>>, <<97, 0>>, <<100, 244, 143, 191, 191>>, <<99, 239, 191, 191>>, <<99, 237, 159, 191>>, <<98, 13, 10>>, <<99, 101, 204, 129>>}
         \cup {<<96 + n>> \o Lets9(n, k) : n \in {7, 8, 9, 15, 16, 17, 23}, k \in {0, 1, 7, 8, 9, 15, 16, 17, 22, 23}}
         \cup {<<120, n>> \o Lets9(n, k) : n \in {31, 32, 33, 65}, k \in {0, 1, 16, 31, 32, 33, 63, 64, 65}}
         \cup {<<96 + n>> \o Lets9(n - 1, 0) \o <<b>> : n \in {2, 8, 9, 16, 17}, b \in {128, 195, 226, 240, 194}}
BrokenT == {<<28>>, <<31>>, <<61>>, <<92>>, <<223>>, <<252>>, <<254>>, <<24>>, <<25, 1>>, <<59, 1>>, <<66, 1>>,
            <<98, 97>>, <<88>>, <<155, 255, 255, 255, 255, 255, 255, 255, 255>>, <<187, 128, 0, 0, 0, 0, 0, 0, 0>>,
            <<123, 127, 255, 255, 255, 255, 255, 255, 255>>, <<216>>, <<248>>, <<249, 1>>, <<250>>, <<251, 1, 2>>}
\* small arguments in every wider spelling
WideT == {<<m * 32 + 24, v>> : m \in 0..6, v \in 0..1} \cup {<<m * 32 + 25, 0, v>> : m \in 0..6, v \in 0..1}
         \cup {<<m * 32 + 26, 0, 0, 0, v>> : m \in 0..6, v \in 0..1} \cup {<<m * 32 + 27, 0, 0, 0, 0, 0, 0, 0, v>> : m \in 0..6, v \in 0..1}
         \cup {<<25, 1, 0>>, <<26, 0, 1, 0, 0>>, <<27, 0, 0, 0, 1, 0, 0, 0, 0>>, <<27, 255, 255, 255, 255, 255, 255, 255, 255>>, <<59, 128, 0, 0, 0, 0, 0, 0, 0>>}
\* whole containers with the same part again, next to it or later
AgainT == {<<130, 1, 1>>, <<159, 1, 1, 255>>, <<131, 65, 7, 0, 65, 7>>, <<162, 1, 2, 1, 2>>, <<162, 1, 2, 1, 3>>, <<162, 1, 3, 2, 3>>, <<191, 1, 2, 1, 2, 255>>,
           <<191, 1, 2, 1, 3, 255>>, <<163, 1, 2, 3, 4, 1, 2>>, <<191, 2, 2, 1, 1, 255>>, <<162, 129, 1, 129, 1, 129, 1, 129, 1>>, <<130, 128, 128>>, <<95, 65, 7, 65, 7, 255>>,
           <<127, 97, 97, 97, 97, 255>>, <<193, 193, 1>>, <<193, 194, 193, 64>>, <<217, 217, 247, 217, 217, 247, 0>>, <<129, 217, 217, 247, 0>>,
           <<130, 246, 246>>, <<130, 247, 247>>, <<159, 246, 246, 255>>, <<130, 161, 1, 1, 161, 1, 1>>, <<95, 64, 64, 255>>, <<127, 96, 96, 255>>}
\* every lead byte there is
LeadT == {<<x>> : x \in 0..255}
=============================================================================
