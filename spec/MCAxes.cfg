SPECIFICATION Spec
CONSTANTS Ranks = {2,3,4} Extents = {1,2,3}
INVARIANTS MergesByCoordinates MovesOneAxis SplitUndoesMerge MergeUndoesSplit ShapesAgree AdjacentInPlace MergeTwice IndexGathers
CHECK_DEADLOCK FALSE
