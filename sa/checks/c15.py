"""Inside and outside are inherited correctly from the segment below."""
from ..scenes import F, T, pairs, scene_tasks

CATEGORIES = ('position', 'overlap', 'exception')
RULE = 'position of the pieces'
EXPLANATION = (
    'Abstract interpretation of the compound queue over order types: two '
    'segments in every mutual position, stacks of 3 to 5 segments of either '
    'operand that enter and leave in any order, also on common lines, '
    'segments sharing a point, '
    'and general triples. Each reported piece must be inside exactly if the '
    'piece below it says so by the rule of the property, and pieces on the '
    "other operand's boundary must be neither inside nor outside but told "
    'apart by the sides of the interiors.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap',
               'the context answers orientation, relation and intersection '
               'exactly']


def tasks(thorough):
    configs = pairs('compound')
    n = None if thorough else 120
    for roles, sides in [((T, F, T, F), (T, F, T, T)),
                         ((F, T, F, T), (T, T, F, F)),
                         ((F, T, T, T), (T, F, T, F)),
                         ((F, T, T), (F, F, T)), ((T, F, F), (T, F, T)),
                         ((F, F, T, F), (F, T, F, T)),
                         ((T, T, F, F), (F, T, F, T)),
                         ((F, T, F, T), (F, T, T, F))]:
        configs.append(('compound', roles, sides, 'stacks', n))
    for roles, sides in [((F, T, T, F, T), (T, F, F, T, T)),
                         ((T, F, F, F, T), (F, T, F, T, F))]:
        configs.append(('compound', roles, sides, 'stacks', n))
    for roles, sides in [((T, T, F, F), (T, F, T, T)),
                         ((T, F, T, F), (T, F, T, F)),
                         ((F, T, F, T), (T, F, T, T)),
                         ((F, F, T, T), (F, T, F, T)),
                         ((T, F, T, F, T), (F, T, T, F, T)),
                         ((F, T, T, F, F), (T, F, T, F, F))]:
        configs.append(('compound', roles, sides, 'layers',
                        None if thorough else 250))
    configs += [('compound', (T, T, F, F), (T, F, T, T), 'stars',
                 None if thorough else 400),
                ('compound', (T, F, F), (F, T, F), 'stars',
                 None if thorough else 300),
                ('compound', (T, F, T), (F, T, T), 'teeth',
                 None if thorough else 300),
                ('compound', (T, T, F), (T, F, T), (3, 3),
                 None if thorough else 4000),
                ('compound', (T, F, F), (F, F, T), (3, 3),
                 None if thorough else 4000)]
    if thorough:
        configs += [('compound', (T, T, F), (F, T, F), (3, 3), None),
                    ('compound', (T, F, F), (T, T, F), (3, 3), None),
                    ('compound', (T, T, F, F), (T, F, T, F), (4, 4), 40000)]
    return scene_tasks(configs, CATEGORIES, RULE)


FLOOR = {RULE: 3000}
