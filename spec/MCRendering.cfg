SPECIFICATION Spec
INVARIANT ImagesShowThePresent StackIsTheLastImages PedalsInRange NothingHeldNothingPressed
CHECK_DEADLOCK FALSE
