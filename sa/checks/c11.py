"""End points are processed in one fixed, strict order."""
from ..orders import F, T, key_task, processing_task

KEY = 'comparison of two end points'
RULE = 'order of processed end points'
EXPLANATION = (
    'The comparison of queue entries is interpreted abstractly for every '
    'pair of end points of two segments over all order types of the four '
    'points: left to right, bottom to top, right ends before left ends, '
    'lower segment first, antisymmetric, and for collinear segments a '
    'constant choice between the operands. The order in which the sweeps of '
    'both queue classes report the ends of segments that need no splitting '
    'is checked against the same order.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap']


def tasks(thorough):
    result = [(key_task, (kind, roles, KEY))
              for kind in ('compound', 'linear')
              for roles in ((T, F), (F, T), (T, T), (F, F))]
    for kind in ('compound', 'linear'):
        for roles, sides in (((T, F), (T, F)), ((T, T, F), (T, F, T)),
                             ((T, F, F), (F, T, T))):
            parts = 1 if len(roles) == 2 else 4
            for i in range(parts):
                result.append((processing_task, (
                    kind, roles, sides, (4, 4) if len(roles) == 2
                    else (3, 3), None if thorough or len(roles) == 2
                    else 4000, RULE, (i, parts))))
        for roles in ((T, T, F, F), (T, T, T, F, F)):
            for i in range(4):
                result.append((processing_task, (
                    kind, roles, (T, F, T, F, T)[:len(roles)], 'rays',
                    None if thorough else 250, RULE, (i, 4))))
    return result


FLOOR = {RULE: 1000}
