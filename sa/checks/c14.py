"""Contacts between neighbouring segments are split out exactly."""
from ..scenes import F, T, overlap_task, pairs, scene_tasks

CATEGORIES = ('pieces', 'overlap', 'exception')
RULE = 'contacts split out'
REJECT = 'overlapping edges of one operand are rejected'
EXPLANATION = (
    'Abstract interpretation of both queue classes over the order types of '
    'the end points of two segments (all of them) and of three and four '
    'segments: whatever the order of the end points, the reported pieces '
    'must be exactly those of the arrangement of the segments, coincident '
    'pieces must be marked by the sides of the interiors. The pairwise '
    'examination is also interpreted on overlapping edges of one operand, '
    'where every path must end in ValueError.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap',
               'the context answers orientation, relation and intersection '
               'exactly']


def tasks(thorough):
    configs = pairs('compound') + pairs('linear', False)
    for kind in ('compound', 'linear'):
        configs += [(kind, (T, T, F), (T, F, T), (3, 3),
                     None if thorough else 2500),
                    (kind, (T, F, T), (F, T, T), 'teeth',
                     None if thorough else 500),
                    (kind, (F, T, F), (F, F, T), 'teeth',
                     None if thorough else 300),
                    (kind, (T, T, F, F), (F, T, F, T), 'teeth',
                     None if thorough else 300)]
        if thorough:
            configs += [(kind, (T, F, F), (T, F, T), (3, 3), None),
                        (kind, (T, T, F), (T, T, F), (4, 4), 60000)]
    return (scene_tasks(configs, CATEGORIES, RULE)
            + [(overlap_task, (k, (r, r), REJECT))
               for k in ('compound', 'linear') for r in (T, F)])


FLOOR = {RULE: 3000}
