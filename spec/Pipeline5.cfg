SPECIFICATION Spec
CONSTANT MaxMods = 5
INVARIANTS NothingWrittenUnlessDone WrittenIsTheResult FailureIsReported SuccessIffNothingFails
PROPERTIES NoStepAfterFailure AppliedInOrder RunEnds
CHECK_DEADLOCK FALSE
