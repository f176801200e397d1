"""Swapping the operands of a same-kind query complements the answer."""
from .. import folds
from ..qtasks import MODULAR, VALID, split, swapped_task
from ..queries import SAME
from ..scenes import F, T, mirror_task

RULE = 'answers of exchanged operands are complementary'
FOLD = 'verdict treats the operands alike'
SWEEP = 'sweep treats the operands alike'
EXPLANATION = (
    'Every same-kind query is interpreted on situations and on the same '
    'situations with the operands exchanged; the answers must be '
    'complementary. The functions behind the sweeps are interpreted on '
    'streams of pieces of any length against a specification that is '
    'symmetric in the operands (fixpoint), and the sweeps on segments over '
    'all order types with the operands exchanged.')
ASSUMPTIONS = [VALID, MODULAR]


def fold_task(rep, fold):
    folds.symmetry_task(rep, fold, FOLD)


def tasks(thorough):
    k = 6 if thorough else 1
    result = [(fold_task, (f,)) for f in ('compound', 'closed', 'open')]
    for kind in reversed(SAME):
        heavy = kind == 'multipolygon'
        for family, n in (('grid', 60 if heavy else 200),
                          ('pool', 150 if heavy else 350), ('box', 200),
                          ('catalogue', 150), ('many', 40)):
            for seed, c in split(n * k, 75 if heavy else 175):
                result.append((swapped_task, (kind, family, 600 + seed, c,
                                              RULE)))
    for kind in ('compound', 'linear'):
        for sides in ((T, T), (T, F)):
            for i in range(2):
                result.append((mirror_task, (kind, (T, F), sides, (4, 4),
                                             None, SWEEP, (i, 2))))
        for roles, sides, family, n in (
                ((T, T, F), (T, F, T), (3, 3), 1000 * k),
                ((T, T, F, F), (T, F, T, T), 'stars', 60 * k),
                ((T, F, T, F), (T, F, F, T), 'stacks', 60 * k),
                ((T, T, F, F), (T, F, T, T), 'rays', 60 * k)):
            result.append((mirror_task, (kind, roles, sides, family, n,
                                         SWEEP)))
    return result


FLOOR = {RULE: 2000}
