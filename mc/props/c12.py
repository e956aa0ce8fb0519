"""Selection rule of mode L2: exact odds."""
from mc.interact import families_for


def families(tier):
    return families_for("L2", tier)
