"""Different queries about the same point sets agree."""
from ..agree import agree_task, vertices_task
from ..qtasks import MODULAR, VALID, split
from ..queries import QUERIES

RULE = 'presentations of the same operands get the same answer'
VERTEX = 'relations agree with the locations of the vertices'
EXPLANATION = (
    'Operands of all queries are given in all kinds that have the same '
    'points - a segment and its halves, a contour and its edges, a region '
    'and a polygon without holes, regions and polygons without holes, parts '
    'and holes in another order - and the queries of these kinds are '
    'interpreted and their answers compared; the relation of a geometry to '
    'another one is compared with the locations of its vertices.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, (x, y) in sorted(QUERIES.items(), reverse=True):
        for family, n in (('grid', 60), ('pool', 60), ('catalogue', 60),
                          ('many', 15), ('box', 25)):
            for seed, c in split(n * k, 60):
                result.append((agree_task, (name, family, 3400 + seed, c,
                                            RULE)))
                if x != 'point':
                    result.append((vertices_task, (name, family, 3450 + seed,
                                                   c, VERTEX)))
    return result


FLOOR = {RULE: 5000, VERTEX: 8000}
