"""Bounding-box and extent shortcuts never change an answer."""
from ..qtasks import (MODULAR, VALID, disjoint_task, judged_task, split,
                      stop_task)
from ..queries import QUERIES
from ..scenes import F, T, scene_tasks

RULE = 'answer is the same with shortcuts'
BOX = 'boxes are disjoint exactly if they share no point'
EXTENT = 'the extent reaches the sweep'
SWEEP = 'events up to the extent are processed'
EXPLANATION = (
    'The box test is interpreted over all positions of two boxes. Every '
    'query is interpreted on operands whose boxes touch in an edge or a '
    'corner, nest, coincide or are apart, with further parts far away: the '
    'answer must be the one without shortcuts, parts may be left out only '
    'if their box is apart, and the extent given to a sweep must not be '
    'smaller than the smaller right extent of the operands. The functions '
    'behind the sweeps must pass the extent on, and the sweeps are '
    'interpreted over order types of segments with the extent at the '
    'smaller right end: everything up to and at the extent is reported.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = [(disjoint_task, (BOX,)), (stop_task, (EXTENT,))]
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        if x == 'point':
            continue
        for family, n in (('box', 450), ('grid', 60), ('pool', 60)):
            for seed, c in split(n * k, 150):
                result.append((judged_task, (name, family, 800 + seed, c,
                                             RULE, ('answer', 'parts',
                                                    'stop'))))
    configs = []
    for kind in ('compound', 'linear'):
        configs += [(kind, (T, F), (T, F), (4, 4), None),
                    (kind, (T, T, F), (T, F, T), (3, 3), 500 * k)]
    return result + scene_tasks(configs, ('extent', 'pieces', 'exception'),
                                SWEEP)


FLOOR = {RULE: 8000, BOX: 1000, EXTENT: 4, SWEEP: 500}
