SPECIFICATION Spec
CONSTANT MaxMods = 3
INVARIANTS NothingWrittenUnlessDone WrittenIsTheResult FailureIsReported SuccessIffNothingFails
PROPERTIES NoStepAfterFailure AppliedInOrder RunEnds
CHECK_DEADLOCK FALSE
