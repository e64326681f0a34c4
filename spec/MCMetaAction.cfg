SPECIFICATION Spec
CONSTANTS
  NLanes = 3
  Speeds <- SpeedsV
  Present <- PresentV
INVARIANTS Valid Local NeverStuck
