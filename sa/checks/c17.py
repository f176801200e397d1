"""Linear geometries cross at a shared vertex exactly if rays interleave."""
from ..scenes import F, T, pairs, scene_tasks

RULE = 'crossing at a shared vertex'
EXPLANATION = (
    'Abstract interpretation of the linear sweep over the order types of '
    '4 to 6 segments that start or end in one point, and of segments that '
    'pass through it, for every distribution between the operands: the '
    'contact reported for the pieces at the point must be a crossing '
    'exactly if the rays of one operand lie in more than one sector between '
    'the rays of the other.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap']


def tasks(thorough):
    n = None if thorough else 450
    configs = [('linear', (T, T, F, F), (T,) * 4, 'rays', n),
               ('linear', (T, T, F, F, F), (T,) * 5, 'rays', n),
               ('linear', (T, T, T, F, F), (T,) * 5, 'rays', n),
               ('linear', (T, T, F, F), (T,) * 4, 'stars', n),
               ('linear', (T, F, F, F), (T,) * 4, 'stars', n),
               ('linear', (T, T, T, F), (T,) * 4, 'stars', n)]
    configs += [('linear', (T, T, T, F, F, F), (T,) * 6, 'rays',
                 3000 if thorough else 200)]
    configs += [('linear', (T, F, F), (T,) * 3, 'stars', 300)]
    return scene_tasks(configs, ('relation', 'exception'), RULE)


FLOOR = {RULE: 1500}
