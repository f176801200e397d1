"""Queries on valid operands raise nothing."""
from .. import folds
from ..kit import exc_name, ret_site
from ..qtasks import VALID, judged_task, raising_task, split
from ..queries import QUERIES
from ..scenes import F, T, pairs, scene_tasks

RULE = 'no step of a query raises'
SWEEP = 'no step of a sweep raises'
FOLD = 'no verdict raises'
EXPLANATION = (
    'All queries are interpreted on operands of many shapes and positions '
    'with sweeps replaced by their specification, a part of them including '
    'the sweep, the sweeps on order types of up to four segments, and the '
    'functions giving the verdicts on streams of pieces of any length '
    '(fixpoint): an exception or a path without end is a violation, '
    'including the one the sweep keeps for overlapping edges of one '
    'operand.')
ASSUMPTIONS = [VALID, 'the context itself raises nothing']


def fold_task(rep, fold):
    def visit(rep, o):
        rep.ob(FOLD)
        if o.exc is not None and any(
                folds.expected(fold, o.world.facts, l) is not None
                for l in ((None, True, False) if o.world.left == '?'
                          else (o.world.left,))):
            rep.violation(FOLD, '%s raises %s' % (folds.FOLDS[fold],
                                                  exc_name(o.exc)),
                          (o.where or ['?'])[0],
                          'after %s' % folds.show(o.world.stream))
    r = type(rep)()
    folds.fold_task(r, fold, 'fold', visit)
    r.violations = {k: v for k, v in r.violations.items() if k[0] == FOLD}
    r.obligations = {FOLD: r.obligations.get(FOLD, 0)}
    r.samples = []
    rep.merge(r)


def tasks(thorough):
    k = 6 if thorough else 1
    result = [(fold_task, (f,)) for f in folds.FOLDS]
    for name in sorted(QUERIES, reverse=True):
        heavy = name.endswith('multipolygon')
        for family, n in (('grid', 60), ('pool', 80), ('box', 40),
                          ('catalogue', 80), ('many', 20), ('same', 20)):
            if family == 'same' and name not in ('contour_in_contour',
                                                 'contour_in_region',
                                                 'region_in_region'):
                continue
            for seed, c in split(n * k, 80):
                result.append((judged_task, (name, family, 2700 + seed, c,
                                             RULE, ('raises',))))
        if QUERIES[name] in (('segment', 'multisegment'),
                             ('multisegment', 'multisegment')):
            for seed, c in split(160 * k, 80):
                result.append((judged_task, (name, 'pieces', 2700 + seed, c,
                                             RULE, ('raises',))))
        if QUERIES[name][0] != 'point':
            result.append((judged_task, (name, 'star', 2701, 20 * k, RULE,
                                         ('raises',))))
        for family in ('grid', 'pool', 'catalogue', 'star'):
            if family == 'star' and QUERIES[name][0] == 'point':
                continue
            result.append((raising_task, (name, family, 2750,
                                          (2 if heavy else 4) * k, RULE)))
    configs = pairs('compound') + pairs('linear', False)
    for kind in ('compound', 'linear'):
        for roles, sides, family in (
                ((T, T, F), (T, F, T), (3, 3)), ((T, F, F), (F, T, T), (3, 3)),
                ((T, F, T), (F, T, T), 'teeth'),
                ((T, F, F, T), (T, T, F, F), 'lunes'),
                ((T, F, T, F), (T, F, T, T), 'stacks'),
                ((T, T, F, F), (T, F, T, T), 'rays'),
                ((T, F, T, F), (T, F, F, T), 'stars')):
            n = 900 if family == (3, 3) else 120
            configs.append((kind, roles, sides, family,
                            None if thorough else n))
    return result + scene_tasks(configs, ('exception',), SWEEP)


FLOOR = {RULE: 5000, SWEEP: 2000}
