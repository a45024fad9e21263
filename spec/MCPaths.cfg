SPECIFICATION Spec
INVARIANT OneEntryPerPath ParentsExist RecursionAdds FlatIsFlat SuffixFilters NoHidden OnlyFiles
PROPERTY DirsStay
