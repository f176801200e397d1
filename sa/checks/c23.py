"""Segment relations to chains of edges accumulate over all edges."""
from ..qtasks import MODULAR, VALID, answers_task, split, variants_task

RULE = 'answer accumulates over all edges'
ORDER = 'answer does not depend on the order of the edges'
EXPLANATION = (
    'The queries about a segment are interpreted on chains of edges of many '
    'shapes with unknown coordinates: collinear pieces with and without '
    'gaps, edges through and at the ends of the segment, contours with '
    'convex and reflex vertices on the segment and at its ends, shared and '
    'partially shared edges. The answer must be the one for the union of '
    'the edges, and stay the same when the edges are listed in another '
    'order or direction.')
ASSUMPTIONS = [VALID, MODULAR]


def tasks(thorough):
    k = 8 if thorough else 1
    result = []
    for name, fam in (
            ('segment_in_segment', (('grid', 300),)),
            ('segment_in_multisegment', (('pieces', 1600), ('chain', 800),
                                         ('grid', 800), ('many', 100),
                                         ('star', 500), ('box', 150))),
            ('segment_in_contour', (('grid', 1200), ('star', 700),
                                    ('many', 100),
                                    ('pool', 400), ('box', 150))),
            ('segment_in_region', (('grid', 2000), ('star', 900),
                                   ('many', 100), ('catalogue', 200),
                                   ('pool', 800), ('box', 150))),
            ('segment_in_multiregion', (('grid', 150), ('pool', 250),
                                        ('many', 60), ('catalogue', 150),
                                        ('box', 100))),
            ('segment_in_polygon', (('grid', 200), ('pool', 300),
                                    ('catalogue', 200))),
            ('segment_in_multipolygon', (('grid', 40), ('pool', 100)))):
        for family, n in fam:
            for seed, c in split(n * k, 200):
                result.append((answers_task, (name, family, 2300 + seed, c,
                                              RULE)))
    for name, fam in (
            ('segment_in_multisegment', (('pieces', 200), ('chain', 100),
                                         ('star', 80))),
            ('segment_in_contour', (('grid', 120), ('star', 100))),
            ('segment_in_region', (('grid', 150), ('star', 100)))):
        for family, n in fam:
            for seed, c in split(n * k, 50):
                result.append((variants_task, (name, family, 2350 + seed, c,
                                               ORDER)))
    return result


FLOOR = {RULE: 5000, ORDER: 1000}
