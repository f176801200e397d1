"""Queries compute only through the context the caller passed."""
from ..effects import TECHNIQUE, tasks_for

RULE = 'geometry comes from the context in charge'
CONTROL = 'control: violating functions are recognised'
EXPLANATION = (
    'Every function a public query can reach, in every calling context and '
    'on every path, is examined with the points-to sets of its variables. A '
    'violation is a use of the default context when a context was passed, '
    'of a context fixed at import or remembered from an earlier call, a '
    'geometry constructed by its own class, a function of ground itself, or '
    'arithmetic on coordinates in place of a predicate of the context. '
    'Without a context the default one must be consulted.')
ASSUMPTIONS = [
    'code outside the package (ground, prioq, dendroid, reprit, the standard '
    'library) is represented by summaries; functions without a summary '
    'return unknown values',
    'no reflection beyond getattr/setattr/__dict__ with constant names']


def tasks(thorough):
    return tasks_for('context', RULE, CONTROL)


FLOOR = {RULE: 300, CONTROL: 2}

MODULAR = False
