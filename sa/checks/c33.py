"""Answers are the same for affine images of both operands."""
from ..agree import images_task
from ..qtasks import MODULAR, VALID, split
from ..queries import QUERIES

RULE = 'mapping both operands alike leaves the answer alone'
WHOLE = 'the same with the sweep interpreted'
EXPLANATION = (
    'All queries are interpreted on situations together with images of the '
    'situations - mirrored, turned, sheared, stretched, moved and scaled by '
    'small and large factors - and the answers compared, with sweeps '
    'replaced by their specification and, for smaller situations, including '
    'the sweep.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        heavy = y == 'multipolygon'
        for family, n in (('grid', 40), ('pool', 50), ('catalogue', 50),
                          ('many', 12), ('box', 12)):
            for seed, c in split(n * k, 50):
                result.append((images_task, (name, family, 3300 + seed, c,
                                             RULE)))
        if x != 'point':
            for family, n in (('grid', 14), ('pool', 4), ('catalogue', 4),
                              ('star', 8), ('box', 6)):
                for seed in range(k):
                    result.append((images_task, (name, family, 3350 + seed,
                                                 n // 2 if heavy else n,
                                                 WHOLE, 4, False)))
    return result


FLOOR = {RULE: 8000, WHOLE: 200}
