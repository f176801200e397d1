"""Queries use their operands only through the documented interface."""
from ..effects import TECHNIQUE, tasks_for

RULE = 'operands are used through their documented interface'
CONTROL = 'control: violating functions are recognised'
EXPLANATION = (
    'Every attribute access, method call, comparison, hash, type test and '
    'operator a public query can reach is examined with the points-to set of '
    'its target. A violation is an attribute of a geometry or a method of '
    'the context that its interface does not have, a method or operator on a '
    'list of an operand that not every sequence has, a test of the type of '
    'an operand, or a comparison or hash of geometries other than points.')
ASSUMPTIONS = [
    'code outside the package (ground, prioq, dendroid, reprit, the standard '
    'library) is represented by summaries; functions without a summary '
    'return unknown values',
    'no reflection beyond getattr/setattr/__dict__ with constant names']


def tasks(thorough):
    return tasks_for('interface', RULE, CONTROL)


FLOOR = {RULE: 300, CONTROL: 2}

MODULAR = False
