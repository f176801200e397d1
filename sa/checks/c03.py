"""Queries keep no state and read nothing but their arguments."""
from ..effects import TECHNIQUE, tasks_for

RULE = 'nothing outlives the query, nothing else is read'
CONTROL = 'control: violating functions are recognised'
EXPLANATION = (
    'Every store, mutating call, identity test, hash and external call a '
    'public query can reach is examined with the points-to set of its '
    'target. A violation is a write to an object created before the query '
    '(module, class, default argument, closure of the module), a '
    'remembering function, a clock, random or environment source, identity '
    'of operands or coordinates, or the order of a set reaching a loop.')
ASSUMPTIONS = [
    'code outside the package (ground, prioq, dendroid, reprit, the standard '
    'library) is represented by summaries; functions without a summary '
    'return unknown values',
    'no reflection beyond getattr/setattr/__dict__ with constant names']


def tasks(thorough):
    return tasks_for('state', RULE, CONTROL)


FLOOR = {RULE: 1500, CONTROL: 2}

MODULAR = False
