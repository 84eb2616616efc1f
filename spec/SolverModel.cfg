SPECIFICATION Spec
INVARIANTS Inside ResultInside SignChangeNear NeverWithout Keeps
CHECK_DEADLOCK FALSE
