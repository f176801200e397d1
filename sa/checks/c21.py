"""Contours are recognised as equal up to start vertex and direction."""
from ..qtasks import MODULAR, VALID, answers_task, equal_task, split

EQUAL = 'contours are equal exactly if their cyclic orders are'
RULE = 'equality in the answers'
EXPLANATION = (
    'The comparison of contours is interpreted on pairs of contours of 3 to '
    '6 vertices with the same vertices in every cyclic order, from every '
    'start vertex and in both directions, on pairs differing in one vertex '
    'and on pairs differing in number; the queries that rely on it are '
    'interpreted on situations with coinciding contours.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = [(equal_task, (n, EQUAL)) for n in (6, 5, 4, 3)]
    for name in ('contour_in_contour', 'contour_in_region',
                 'region_in_region', 'region_in_polygon',
                 'region_in_multiregion', 'contour_in_polygon',
                 'contour_in_multiregion', 'multiregion_in_multiregion',
                 'polygon_in_polygon', 'contour_in_multipolygon'):
        for family, n in (('same', 300), ('grid', 60), ('pool', 60)):
            for seed, c in split(n * k, 150):
                result.append((answers_task, (name, family, 2100 + seed, c,
                                              RULE)))
    return result


FLOOR = {EQUAL: 1000, RULE: 3000}
