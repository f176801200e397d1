"""Segments on the sweep line are ordered by height, strictly."""
from ..orders import F, T, line_task, triple_task
from ..scenes import pairs, scene_tasks

RULE = 'order of two segments on the sweep line'
TRIPLE = 'neighbours of three segments on the sweep line'
SWEEP = 'neighbours found by the sweep'
EXPLANATION = (
    'The sweep line is interpreted abstractly on every pair of segments that '
    'can be on it together, over all order types of their end points, in '
    'both orders of insertion: the lower one must be found below the other, '
    'both must be found and removed again, and of collinear ones the choice '
    'must be constant. Triples are checked for their neighbours, and the '
    'sweeps of both queue classes for contacts that a wrong order would '
    'miss.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap',
               'the ordered set of the dependency keeps the order of the '
               'keys']


def tasks(thorough):
    result = [(line_task, (kind, roles, RULE))
              for kind in ('compound', 'linear')
              for roles in ((T, F), (F, T), (T, T), (F, F))]
    for i in range(4):
        result.append((triple_task, ('compound', (T, F, F), TRIPLE,
                                     None if thorough else 30000, (i, 4))))
    configs = pairs('compound', False) + pairs('linear', False)
    configs += [('compound', (T, T, F), (T, F, T), (3, 3),
                 None if thorough else 2500),
                ('linear', (T, F, F), (T, F, T), (3, 3),
                 None if thorough else 2500),
                ('compound', (T, F, F), (T, T, F), 'lunes',
                 None if thorough else 250)]
    return result + scene_tasks(configs, ('pieces', 'exception', 'extent'),
                                SWEEP)


FLOOR = {SWEEP: 2000}
