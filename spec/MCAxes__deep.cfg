SPECIFICATION Spec
CONSTANTS Ranks = {2,3,4,5,6} Extents = {1,2,3}
INVARIANTS MergesByCoordinates MovesOneAxis SplitUndoesMerge MergeUndoesSplit ShapesAgree AdjacentInPlace MergeTwice IndexGathers
CHECK_DEADLOCK FALSE
