SPECIFICATION Spec
CONSTANTS Alphabet = {"[", "]", ",", " ", "1", ".", "x", "-", "0"}
  MaxLen = 6
INVARIANTS TypeOK BlanksIgnored ListShape NumberAgrees IntListsAreDecimal BracketsNeeded
