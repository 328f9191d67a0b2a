SPECIFICATION Spec
CONSTANTS
 MaxObj = 2
 CS = {"low"}
 Spaces = {1, 2}
INVARIANTS AllFit DefaultIsFixed MutantExists ChildrenExist LoadBack Sane
PROPERTIES OneAtATime SameDefinition
CHECK_DEADLOCK FALSE
