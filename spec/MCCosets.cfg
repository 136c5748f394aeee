SPECIFICATION Spec
INVARIANTS Commutes ExactlyOnce SubgroupsAreGroups
CHECK_DEADLOCK FALSE
