SPECIFICATION Spec
CONSTANTS
  Steps = 3
  Levels = {0, 1, 2, 3, 4, 5}
CHECK_DEADLOCK FALSE
INVARIANTS ShownLaws SettingLaws Emit
