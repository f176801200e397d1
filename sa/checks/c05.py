"""Every query answers with a value documented for its pair of kinds."""
from .. import anchors, folds, gen
from ..kit import explore, func_site, program, ret_site
from ..qtasks import MODULAR, VALID, judged_task, member_judge, split
from ..queries import (QUERIES, by_shape, documented, got_name, query_func,
                       run_query, site, sweep_hooks, text)

RULE = 'answer is documented for the kinds'
FREE = 'answer is documented whatever the sweeps report'
FOLD = 'verdict of a sweep is documented for its kinds'
EXPLANATION = (
    'Value analysis of all queries: each is interpreted on operands of many '
    'shapes with unknown coordinates, once with sweeps answering what the '
    'definition gives and once with sweeps answering anything their kind '
    'allows, so that every branch on the result of a sweep is taken; every '
    'value that can be returned must be documented for the kinds of the '
    'operands. The functions behind the sweeps are interpreted on streams '
    'of any length (fixpoint over all kinds of pieces) for the same.')
ASSUMPTIONS = [VALID]
RANGES = {'open': documented('multisegment', 'multisegment'),
          'closed': documented('contour', 'contour'),
          'linear-compound': documented('segment', 'region'),
          'compound': documented('region', 'region')}


def fold_task(rep, fold):
    def visit(rep, o):
        rep.ob(FOLD)
        got = got_name(o)
        if got not in RANGES[fold]:
            rep.violation(FOLD, '%s: %s' % (folds.FOLDS[fold], got),
                          ret_site(o.machine) if o.exc is None
                          else (o.where or ['?'])[0],
                          'after %s' % folds.show(o.world.stream))
    r = type(rep)()
    folds.fold_task(r, fold, 'fold', visit)
    r.violations = {k: v for k, v in r.violations.items() if k[0] == FOLD}
    r.obligations = {FOLD: r.obligations.get(FOLD, 0)}
    r.samples = []
    rep.merge(r)


def free_hooks():
    """Sweeps that answer anything possible for their kinds."""
    hooks = sweep_hooks()
    if hooks is None:
        return None
    for fold in folds.FOLDS:
        f = anchors.fold_func(fold)

        def hook(m, func, args, kwargs, names=tuple(sorted(RANGES[fold]))):
            r = names[m.world.choose(len(names))]
            return m.program.prelude['Relation'].enum_members[r]
        hooks[f.key] = hook
    return hooks


def holes(kind, g):
    if kind == 'polygon':
        return len(g[1])
    if kind == 'multipolygon':
        return sum(len(p[1]) for p in g)
    return len(g) - 1 if kind == 'multiregion' else 0


def free_task(rep, name, family, seed, count):
    hooks = free_hooks()
    if hooks is None:
        rep.skip('sweep', 'no such sweep functions')
        return
    xk, yk = QUERIES[name]
    rep.sites.add(func_site(query_func(name)))
    scenes = [s for s in gen.scenes(family, name, seed, count)
              if holes(xk, s[0]) + holes(yk, s[1]) <= 2]
    for (xs, ys), u in by_shape(xk, yk, scenes).items():
        n = 0
        for o in explore(program(), run_query(name, xs, ys), u,
                         stats=rep.stats, hooks=hooks):
            n += 1
            if n > 1500:
                break
            if o.exc is not None:
                continue
            rep.ob(FREE)
            for construct, detail in member_judge(name, o, o.world.S[0]):
                rep.violation(FREE, construct, site(o, name),
                              detail + ' (some sweep results)')


def tasks(thorough):
    k = 6 if thorough else 1
    result = [(fold_task, (f,)) for f in folds.FOLDS]
    for name in sorted(QUERIES, reverse=True):
        heavy = name.endswith('multipolygon')
        for family, n in (('grid', 40 if heavy else 80), ('pool', 130), ('box', 80),
                          ('catalogue', 80), ('many', 30)):
            for seed, c in split(n * k, 200):
                result.append((judged_task, (name, family, 500 + seed, c,
                                             RULE, ('member',))))
        if not name.startswith('point'):
            for family, n in (('pool', 5), ('grid', 4)):
                for seed in range(1, 3):
                    result.append((free_task, (name, family, 500 + seed,
                                               n * k)))
    return result


FLOOR = {RULE: 5000, FREE: 200}
