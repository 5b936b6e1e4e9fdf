SPECIFICATION Spec
CONSTANTS
  Steps = 4
  Levels = {0, 1, 3, 4}
CHECK_DEADLOCK FALSE
INVARIANTS ShownLaws SettingLaws Emit
