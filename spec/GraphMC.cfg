SPECIFICATION Spec
INVARIANTS SeparateExact TrimSame TrimMinimal WidthExact
CHECK_DEADLOCK FALSE
