SPECIFICATION Spec
INVARIANT Served NoDuplicates ExactlyOnce FileGetsAll LostBound
PROPERTY Sticky OneAtATime LostGrows
