"""Answers do not depend on vertex order, start vertex or direction."""
from ..qtasks import MODULAR, VALID, split, variants_task
from ..queries import QUERIES
from ..scenes import F, T, scene_tasks

RULE = 'other listings of the same operands get the same answer'
SWEEP = 'direction of a segment matters only as side of the interior'
EXPLANATION = (
    'Every query is interpreted on situations and on the same situations '
    'with contours started at other vertices, listed backwards and segments '
    'reversed: the answers must be equal, and edges of compound operands '
    'must be registered with the interior on the left (holes the other way '
    'round). The sweep is interpreted over order types of segments '
    'registered in either direction: what it reports may depend on the '
    'direction only through the side of the interior.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        heavy = y == 'multipolygon'
        fam = [('grid', 30 if heavy else 70), ('pool', 60), ('box', 20)]
        if x == 'segment':
            fam = [('grid', 220), ('pool', 90)]
            if y in ('contour', 'region'):
                fam.append(('star', 120))
            if y == 'multisegment':
                fam += [('chain', 80), ('star', 60)]
        for family, n in fam:
            for seed, c in split(n * k, 55):
                result.append((variants_task, (name, family, 1000 + seed, c,
                                               RULE)))
    configs = []
    for kind in ('compound', 'linear'):
        for sides in ((T, T), (T, F), (F, T), (F, F)):
            configs.append((kind, (T, F), sides, (3, 3), None))
    return result + scene_tasks(configs, ('position', 'overlap', 'pieces',
                                          'exception'), SWEEP)


FLOOR = {RULE: 8000, SWEEP: 500}
