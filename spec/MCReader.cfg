SPECIFICATION Spec
INVARIANTS Inside0 OwnKind Extent Taken Peeks Exact Sessions EmptyOnes
CHECK_DEADLOCK FALSE
