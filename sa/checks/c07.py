"""A query relates its first argument to its second, never the reverse."""
from .. import folds
from ..qtasks import MODULAR, VALID, judged_task, split
from ..queries import QUERIES

RULE = 'roles of the operands are kept'
FOLD = 'verdict keeps the roles'
EXPLANATION = (
    'Every query is interpreted on operands of many shapes with unknown '
    'coordinates; the abstract state is the set of situations compatible '
    'with the observations on the path. The answer must be that of the '
    'first operand in the second one, and whatever is given to a sweep must '
    'be given as test if it belongs to the first operand and as goal if it '
    'belongs to the second. The functions behind the sweeps are interpreted '
    'on streams of pieces of any length (fixpoint) against a specification '
    'that tells the operands apart.')
ASSUMPTIONS = [VALID, MODULAR]


def fold_task(rep, fold):
    folds.fold_task(rep, fold, FOLD)


def tasks(thorough):
    k = 8 if thorough else 1
    result = [(fold_task, (f,)) for f in folds.FOLDS]
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        heavy = y == 'multipolygon'
        for family, n in (('grid', 60 if heavy else 150),
                          ('pool', 170 if heavy else 220), ('box', 120),
                          ('catalogue', 150), ('many', 45)):
            if x == 'point':
                n //= 3
            for seed, c in split(n * k, 150):
                result.append((judged_task, (name, family, 700 + seed, c,
                                             RULE, ('answer', 'parts'))))
    return result


FLOOR = {RULE: 8000}
