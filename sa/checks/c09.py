"""Every part of both operands takes part in the answer."""
from ..qtasks import MODULAR, VALID, judged_task, split
from ..queries import QUERIES
from ..scenes import F, T, scene_tasks

RULE = 'all parts are given to the sweep once, under their role'
SWEEP = 'every registered segment is swept'
EXPLANATION = (
    'Every query is interpreted on operands of many shapes (contours of 3 '
    'to 14 vertices, up to 7 holes, up to 7 parts) with unknown coordinates. '
    'What is registered for each sweep must consist of complete contours of '
    'one operand per role, each edge once, and contain every part whose box '
    'is not apart from the other operand; the verdict must be the one for '
    'the kinds of the operands, and the answer that of the whole operands. '
    'The registration itself is interpreted within sweeps of segments over '
    'order types: every segment must be reported.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        if x == 'point' and y in ('segment', 'contour', 'region'):
            continue
        heavy = y == 'multipolygon'
        for family, n in (('grid', 80 if heavy else 200),
                          ('pool', 200 if heavy else 260), ('box', 140),
                          ('many', 160), ('catalogue', 60)):
            if x == 'point':
                n //= 2
            for seed, c in split(n * k, 130):
                result.append((judged_task, (name, family, 900 + seed, c,
                                             RULE, ('parts', 'fold',
                                                    'answer'))))
    configs = []
    for kind in ('compound', 'linear'):
        configs += [(kind, (T, F), (T, F), (3, 3), None),
                    (kind, (T, T, F), (T, F, T), (3, 3), 300 * k)]
    return result + scene_tasks(configs, ('pieces', 'exception'), SWEEP)


FLOOR = {RULE: 8000, SWEEP: 500}
