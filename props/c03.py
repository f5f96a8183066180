from props import definitional as _d
SCALE = 2      # quick-tier multiplier of the family counts
RULE = _d.RULE
EVENTS = ["calls", "values compared well above rounding"]
FAMILIES = _d.make("totdev mtotdev ttotdev htotdev theo1".split(), slow="mtotdev ttotdev htotdev theo1".split(), nan=False)
