"""Queries never modify their arguments."""
from ..effects import TECHNIQUE, tasks_for

RULE = 'nothing reachable from the arguments is written'
CONTROL = 'control: violating functions are recognised'
EXPLANATION = (
    'Every store, deletion, in-place operator and mutating call a public '
    'query can reach is examined with the points-to set of its target. A '
    'violation is a target that may be an operand, a list belonging to an '
    'operand, an alias of one stored in another object, or the context.')
ASSUMPTIONS = [
    'code outside the package (ground, prioq, dendroid, reprit, the standard '
    'library) is represented by summaries; functions without a summary '
    'return unknown values',
    'no reflection beyond getattr/setattr/__dict__ with constant names']


def tasks(thorough):
    return tasks_for('mutation', RULE, CONTROL)


FLOOR = {RULE: 600, CONTROL: 2}

MODULAR = False
