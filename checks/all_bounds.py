"""C20: rejection bounds of all models."""
from . import c15, mix, hier


def run(rep, tier):
    rep.defer()
    c15.bounds(rep, tier)
    mix.bounds(rep, tier)
    hier.bounds(rep, tier)
