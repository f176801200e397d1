"""Polygon answers combine border and hole relations by set algebra."""
from ..qtasks import MODULAR, VALID, answers_task, split
from ..queries import QUERIES

RULE = 'answer is that of the border without the holes'
EXPLANATION = (
    'Every query about polygons is interpreted on operands of many shapes '
    '(0 to 7 holes per polygon, contours that nest, touch, share edges and '
    'coincide, every combination of relations to border and holes) with unknown coordinates; sweeps answer what the definition '
    'gives, so that the combinations of relations to the border and to the '
    'holes that valid operands can have are distinguished path by path. The '
    'answer must be the relation to the set of points of the border that '
    'are not interior to a hole.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        if 'polygon' not in name:
            continue
        main = y == 'polygon'
        fam = ([('pool', 1000), ('grid', 300), ('box', 100),
                ('catalogue', 700), ('many', 60)] if main
               else [('pool', 130), ('grid', 40), ('box', 60),
                     ('catalogue', 90), ('many', 30)])
        if x == 'polygon' and main:
            fam = [('pool', 2300), ('grid', 500), ('box', 100),
                   ('catalogue', 800), ('many', 80)]
        if x == 'point':
            fam = [('points', 400 if main else 120), ('pool', 80)]
        for family, n in fam:
            for seed, c in split(n * k, 200):
                result.append((answers_task, (name, family, 1900 + seed, c,
                                              RULE)))
    return result


FLOOR = {RULE: 5000}
