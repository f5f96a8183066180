from props import definitional as _d
SCALE = 5      # quick-tier multiplier of the family counts
RULE = _d.RULE
EVENTS = ["calls", "values compared well above rounding"]
FAMILIES = _d.make("adev oadev mdev tdev pdev".split(), slow="pdev".split(), nan=True)
