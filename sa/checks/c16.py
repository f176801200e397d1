"""All contacts at a common point are classified, pair by pair."""
from ..scenes import F, T, pairs, scene_tasks

CATEGORIES = ('relation', 'exception')
RULE = 'contacts of the pieces'
EXPLANATION = (
    'Abstract interpretation of both queue classes over order types of two '
    'segments (all), of triples, and of three to five segments that start, '
    'end or pass through one point: the contact last reported for every '
    'piece must be the strongest one of the pairs it takes part in at its '
    'two ends - coinciding, proper crossing when neither piece has an '
    'original end there, touching otherwise - and pieces of one operand '
    'must not be classified against each other.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap',
               'the context answers orientation, relation and intersection '
               'exactly']


def tasks(thorough):
    configs = pairs('compound', False) + pairs('linear', False)
    for kind in ('compound', 'linear'):
        configs += [(kind, (T, T, F, F), (T, F, T, F), 'stars',
                     None if thorough else 400),
                    (kind, (T, F, F), (T, F, F), 'stars',
                     None if thorough else 300),
                    (kind, (T, T, T, F), (T, F, T, F), 'stars',
                     None if thorough else 250),
                    (kind, (T, F, T), (F, T, T), 'teeth',
                     None if thorough else 300),
                    (kind, (T, T, F), (T, F, T), (3, 3),
                     None if thorough else 3000)]
        if thorough:
            configs += [(kind, (T, F, F), (T, F, T), (3, 3), None),
                        (kind, (T, T, F, F), (T, F, T, F), 'teeth', None),
                        (kind, (T, T, T, F, F), (T, F, T, F, T), 'stars',
                         4000)]
    return scene_tasks(configs, CATEGORIES, RULE)


FLOOR = {RULE: 3000}
