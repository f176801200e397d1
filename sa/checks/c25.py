"""Queries need a bounded stack."""
from ..effects import TECHNIQUE, tasks_for

RULE = 'no function is active twice'
CONTROL = 'control: violating functions are recognised'
EXPLANATION = (
    'The graph of calls of all functions a public query can reach, resolved '
    'with points-to sets and one call site of context, has no cycle through '
    'a function of the package, so the depth of the stack is bounded by the '
    'number of functions whatever the operands are.')
ASSUMPTIONS = [
    'code outside the package (ground, prioq, dendroid, reprit, the standard '
    'library) is represented by summaries; functions without a summary '
    'return unknown values',
    'no reflection beyond getattr/setattr/__dict__ with constant names']


def tasks(thorough):
    return tasks_for('depth', RULE, CONTROL)


FLOOR = {RULE: 500, CONTROL: 2}

MODULAR = False
