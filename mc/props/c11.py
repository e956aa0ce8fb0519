"""Selection rule of mode L1: exact odds."""
from mc.interact import families_for


def families(tier):
    return families_for("L1", tier)
