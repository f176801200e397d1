"""The sweep examines every pair of segments that become neighbours."""
from ..scenes import F, T, pairs, scene_tasks

CATEGORIES = ('pieces', 'relation', 'position', 'overlap', 'extent',
              'exception')
RULE = 'sweep protocol'
EXPLANATION = (
    'Abstract interpretation of the sweeps of both queue classes over order '
    'types of three and four segments: segments entering between, below and '
    'above others, segments whose leaving makes others neighbours, segments '
    'starting or ending in one point, verticals, and events at the last '
    'point and beyond the agreed extent. A pair that is not examined, a '
    'point whose events are not completed or a position not settled shows '
    'as a wrong set of pieces, contact, position or leftover.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap',
               'the context answers orientation, relation and intersection '
               'exactly']


def tasks(thorough):
    configs = pairs('compound', False) + pairs('linear', False)
    for kind in ('compound', 'linear'):
        configs += [(kind, (T, F, F), (T, T, F), 'lunes',
                     None if thorough else 250),
                    (kind, (T, F, T), (T, F, F), 'lunes',
                     None if thorough else 250),
                    (kind, (T, F, F, T), (T, T, F, F), 'lunes',
                     None if thorough else 250),
                    (kind, (F, T, F), (F, T, T), 'stars',
                     None if thorough else 250),
                    (kind, (T, F, T), (F, T, T), 'teeth',
                     None if thorough else 250),
                    (kind, (T, T, F), (T, F, T), (3, 3),
                     None if thorough else 2500),
                    (kind, (T, F, F), (F, F, T), (3, 3),
                     None if thorough else 2500)]
        if thorough:
            configs += [(kind, (T, T, F, F), (T, F, T, F), (4, 4), 40000),
                        (kind, (T, F, F), (T, F, F), (5, 3), 60000)]
    configs += [('linear', (T, T, F, F), (T,) * 4, 'rays',
                 None if thorough else 150),
                ('linear', (T, F, T, F), (T, F, T, F), 'stars',
                 None if thorough else 100)]
    configs += [('compound', (T, F, T, F), (T, F, T, T), 'stacks',
                 None if thorough else 100)]
    # edges of one operand that touch within an edge
    configs += [('compound', (T, T, F), (T, F, T), (3, 3),
                 None if thorough else 4000, 'joints'),
                ('compound', (T, F, F), (T, T, F), (3, 3),
                 None if thorough else 4000, 'joints'),
                ('compound', (T, T, F, F), (T, F, T, F), 'teeth', None,
                 'joints'),
                ('linear', (T, T, F), (T, F, T), 'teeth', None, 'joints')]
    return scene_tasks(configs, CATEGORIES, RULE)


FLOOR = {RULE: 3000}
