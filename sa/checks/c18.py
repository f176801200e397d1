"""The verdict of a sweep follows from the kinds of pieces it met."""
from ..folds import FOLDS, fold_task

RULE = 'verdict of a stream of pieces'
EXPLANATION = (
    'Each function that turns the pieces reported by a sweep into a relation '
    'is interpreted on a stream of unknown length whose elements are of '
    'unknown kind (operand, position, contact). Paths reaching the same '
    'values of the live variables and the same set of relevant facts about '
    'the stream are merged, so the analysis reaches a fixpoint covering '
    'streams of any length and order. The returned relation must be the one '
    'the definition of the relations gives for the facts; a return before '
    'the end of the stream must be right for every continuation.')
ASSUMPTIONS = ['streams whose facts no pair of valid operands can produce '
               '(listed in sa/folds.py: expected) are ignored',
               'the reported pieces carry the right position and contact '
               '(C13 to C17)']


def tasks(thorough):
    return [(fold_task, (fold, RULE)) for fold in FOLDS]


FLOOR = {RULE: 200}
