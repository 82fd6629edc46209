SPECIFICATION Spec
INVARIANTS RoundTrip Stands IsItem ShortestForm SameMeaning Stable Different NoTrailing OneByOne NarrowRight EmitNarrow Sessions
CHECK_DEADLOCK FALSE
