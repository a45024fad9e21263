SPECIFICATION Spec
CONSTANTS Alphabet = {"[", "]", ",", " ", "1", ".", "x", "-"}
  MaxLen = 5
INVARIANTS TypeOK BlanksIgnored ListShape NumberAgrees IntListsAreDecimal BracketsNeeded
