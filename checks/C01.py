"""Abstract interpretation (property state x affine/linear facts) of every producer-side method of the circular
buffer and of its atomic slot, after inlining; the obligations are the steps of the insertion protocol."""
from lib import *
from checks.circular import Ring
from checks.circular_rules import check_add

RULES = {
    "add-head-cas": "producers change the head position only by compare-exchange from the value they read to that value plus one",
    "add-claim-before-publish": "the head is advanced only on paths where this call's claim of the slot succeeded",
    "add-release": "advancing the head has release ordering",
    "add-slot-address": "the claimed slot is the head value read in the same attempt modulo the slot count",
    "add-never-overwrites": "a slot is claimed only where head - tail < max_size is established with tail read before head",
    "add-slot-was-empty": "the claim succeeds only on an empty slot",
    "add-stores-owned": "the claim stores the caller's element",
    "add-undo": "an unpublished claim is taken back before another attempt or return",
    "add-no-destroy": "no element is destroyed by adding",
    "add-true-means-published": "true is returned exactly where the head was advanced",
    "add-false-means-full": "false is returned only where the buffer was full",
    "add-ownership": "the element has exactly one owner when Add returns",
}

def check(R):
    for k, t in RULES.items(): R.rule(k, t)
    ring = Ring()
    R.saw("functions", 1)
    f = ring.m("Add")
    check_add(R, ring, f)
    R.assume("positions and sizes are below 2^62, so unsigned and signed comparisons agree")
