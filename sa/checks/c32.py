"""Every query on valid operands terminates."""
from ..agree import whole_answers_task
from ..qtasks import VALID, judged_task, split
from ..queries import QUERIES
from ..scenes import F, T, pairs, scene_tasks

RULE = 'every path through a query ends'
SWEEP = 'every path through a sweep ends'
EXPLANATION = (
    'All queries are interpreted, with sweeps replaced by their '
    'specification and for smaller situations including the sweep, and the '
    'sweeps of both queue classes on order types of up to four segments: '
    'overlapping, vertical, crossing and touching ones, edges of one operand '
    'that touch, everything ending in one point. A path that does not end '
    'within a bound far beyond that of the longest one known is a '
    'violation.')
ASSUMPTIONS = [VALID]


def tasks(thorough):
    k = 6 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        heavy = y == 'multipolygon'
        for family, n in (('grid', 40), ('pool', 50), ('box', 20),
                          ('catalogue', 50), ('many', 20)):
            for seed, c in split(n * k, 60):
                result.append((judged_task, (name, family, 3200 + seed, c,
                                             RULE, ())))
        if x == 'point':
            continue
        if name in ('segment_in_multisegment',
                    'multisegment_in_multisegment'):
            result.append((judged_task, (name, 'pieces', 3200, 100 * k, RULE,
                                         ())))
        if y != 'segment' and name.split('_in_')[0] == y:
            result.append((judged_task, (name, 'same', 3200, 20 * k, RULE,
                                         ())) if y in ('contour', 'region')
                          else (judged_task, (name, 'star', 3200, 20 * k,
                                              RULE, ())))
        for family, n in (('grid', 20), ('pool', 5), ('catalogue', 5),
                          ('star', 12), ('box', 6)):
            result.append((whole_answers_task, (
                name, family, 3250, (n // 2 if heavy else n) * k, RULE,
                False)))
    configs = pairs('compound') + pairs('linear', False)
    for kind in ('compound', 'linear'):
        for roles, sides, family in (
                ((T, T, F), (T, F, T), (3, 3)), ((T, F, F), (F, T, T), (3, 3)),
                ((T, F, T), (F, T, T), 'teeth'),
                ((T, F, F, T), (T, T, F, F), 'lunes'),
                ((T, F, T, F), (T, F, T, T), 'stacks'),
                ((T, T, F, F), (T, F, T, T), 'rays'),
                ((T, F, T, F), (T, F, F, T), 'stars')):
            n = 1200 if family == (3, 3) else 150
            configs.append((kind, roles, sides, family,
                            None if thorough else n))
        configs.append((kind, (T, T, F), (T, F, T), (3, 3),
                        None if thorough else 2000, 'joints'))
    return result + scene_tasks(configs, (), SWEEP)


FLOOR = {RULE: 3000, SWEEP: 2000}
