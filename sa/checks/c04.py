"""Coordinates are only compared, never converted or approximated."""
from ..effects import TECHNIQUE, tasks_for

RULE = 'coordinates are compared with coordinates or given to the context'
CONTROL = 'control: violating functions are recognised'
EXPLANATION = (
    'Every operator, comparison, truth test, builtin and external call a '
    'public query can reach is examined with the taint of its operands. A '
    'violation is arithmetic, conversion, rounding, truth value, type test '
    'or comparison with a non-zero constant applied to a coordinate or to a '
    'number computed from coordinates.')
ASSUMPTIONS = [
    'code outside the package (ground, prioq, dendroid, reprit, the standard '
    'library) is represented by summaries; functions without a summary '
    'return unknown values',
    'no reflection beyond getattr/setattr/__dict__ with constant names']


def tasks(thorough):
    return tasks_for('number', RULE, CONTROL)


FLOOR = {RULE: 600, CONTROL: 2}

MODULAR = False
