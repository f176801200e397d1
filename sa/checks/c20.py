"""Point location follows the even-odd rule with exact boundaries."""
from ..qtasks import VALID, answers_task, split
from ..queries import QUERIES

RULE = 'location of a point'
EXPLANATION = (
    'Every point query is interpreted on geometries of many shapes with '
    'unknown coordinates and a point at every position about them (level '
    'with vertices, on edges, on vertices, in line with edges, in holes, '
    'where parts touch); the answer must be the location in the point set.')
ASSUMPTIONS = [VALID]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        if x != 'point':
            continue
        for family, n in (('points', 1500), ('pool', 300), ('grid', 300),
                          ('many', 200)):
            for seed, c in split(n * k, 300):
                result.append((answers_task, (name, family, 2000 + seed, c,
                                              RULE)))
    return result


FLOOR = {RULE: 5000}
