from props import definitional as _d
SCALE = 10      # quick-tier multiplier of the family counts
RULE = _d.RULE
EVENTS = ["calls", "values compared well above rounding"]
FAMILIES = _d.make("hdev ohdev".split(), slow="".split(), nan=False)
