"""Typestate analysis of the block functions on the exploded MIR graph: every outcome of the comparison and of the lookup,
every number of items, and every stream of tokens (any built-in or plugin function may come next, blocks nested to a
bound) is followed; while the code of the branch not taken, or of a loop over nothing, is consumed, no token but the
`else` and `end` belonging to the block itself may be processed, and the block must end exactly there."""
from .common import *
from .c06 import conditionals, judge
from world import Loop

KEYS = r"processed/skipped|processed-twice|not-processed/skipped|past-end|left-early|not-entered|iterated-and-skipped|no-frame"


def run(F, rep, tier):
    conditionals(F, rep, KEYS)
    eb = functions(F).get("for", (None, None))[1]
    if eb is None:
        rep.ok("typestate", "-", "`for` is not recognised; not decided")
        return
    w = Loop(F)
    judge(F, rep, "for", eb, w, KEYS)
    if not w.items:
        rep.ok("items", loc(eb), "the source of the items is not recognised; iterations not decided")
