"""Answers equal the point-set relation of the operands."""
from ..agree import whole_answers_task
from ..qtasks import MODULAR, VALID, answers_task, split
from ..queries import QUERIES

RULE = 'the answer is the relation of the point sets'
WHOLE = 'the same with the sweep interpreted'
EXPLANATION = (
    'All queries are interpreted on situations of many shapes - operands on '
    'a grid, contours in every position to the contours of the other '
    'operand and combinations of these, many parts and vertices, everything '
    'meeting in one point, touching boxes, and affine images of all these '
    'with large and small coordinates - with unknown coordinates, of which '
    'only order, orientation and incidence are used, once with sweeps '
    'replaced by their specification and once including them. The oracle '
    'locates pieces of the arrangement of both operands exactly.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        if x == 'point':
            for family, n in (('grid', 150), ('pool', 150), ('many', 60),
                              ('points', 200)):
                result.append((answers_task, (name, family, 3000, n * k,
                                              RULE)))
            continue
        heavy = y == 'multipolygon'
        # holes combine in many ways
        holes = 5 if y == 'polygon' else 2
        for family, n in (('grid', 150), ('pool', 120 * holes),
                          ('catalogue', 160 * holes), ('many', 40),
                          ('box', 60), ('star', 50), ('same', 50)):
            if family == 'same' and 'segment' in (x, y):
                continue
            for seed, c in split(n * k, 100):
                result.append((answers_task, (name, family, 3000 + seed, c,
                                              RULE)))
        for family, n in (('grid', 30), ('pool', 20), ('catalogue', 24),
                          ('star', 20), ('box', 10)):
            for seed in range(k):
                result.append((whole_answers_task, (
                    name, family, 3050 + seed, n // 2 if heavy else n,
                    WHOLE)))
    return result


FLOOR = {RULE: 8000, WHOLE: 1000}
