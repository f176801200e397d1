"""Tasks that interpret public queries and judge what they do."""
from __future__ import annotations

import random

from . import gen, oracle
from .kit import (MissingAnchor, StepLimit, attr, enum, exc_name, explore,
                  func_site, interface_changed, name_of, program, ret_site)
from .queries import (GOALS, KINDS, QUERIES, SAME, answer_of, by_shape,
                      documented, got_name, outcomes, query_func, query_task,
                      right_answer, shape, site, sparse, sweep_hooks, text)
from .vm import Func, Obj
from .world import Ctx, Num, Pt, contour as make_contour, Geo

VALID = ('operands are valid: contours are simple and without collinear '
         'neighbouring edges, parts and holes meet in finitely many points, '
         'holes lie in the border and leave the interior connected, '
         'multisegments have at least two segments that do not cross or '
         'overlap')
MODULAR = ('the sweep reports what its specification says (decided by C11 to '
           'C18 and C22)')


def answers_task(rep, name, family, seed, count, rule):
    query_task(rep, name, gen.scenes(family, name, seed, count), rule)


def judged_task(rep, name, family, seed, count, rule, judges):
    js = [JUDGES[j] for j in judges]

    def judge(name, o, t):
        for j in js:
            yield from j(name, o, t)
    query_task(rep, name, gen.scenes(family, name, seed, count), rule, judge)


# ------------------------------------------------------------------- judges
def label_edges(kind, g, side):
    """Edges of an operand as pairs of labels, grouped by part and contour.

    Value is a list of parts, a part is a list of contours."""
    n = 0
    parts = []

    def chain(k):
        nonlocal n
        ls = ['%s%d' % (side, n + i) for i in range(k)]
        n += k
        return frozenset(frozenset((ls[i - 1], ls[i])) for i in range(k))
    if kind == 'segment':
        parts.append([frozenset([frozenset((side + '0', side + '1'))])])
    elif kind == 'multisegment':
        parts.append([frozenset(frozenset(('%s%d' % (side, 2 * i),
                                           '%s%d' % (side, 2 * i + 1)))
                                for i in range(len(g)))])
    elif kind in ('contour', 'region'):
        parts.append([chain(len(g))])
    elif kind == 'multiregion':
        for r in g:
            parts.append([chain(len(r))])
    elif kind == 'polygon':
        parts.append([chain(len(g[0]))] + [chain(len(h)) for h in g[1]])
    elif kind == 'multipolygon':
        for b, hs in g:
            parts.append([chain(len(b))] + [chain(len(h)) for h in hs])
    return parts


def part_points(kind, g):
    if kind in ('multiregion',):
        return [list(r) for r in g]
    if kind == 'multipolygon':
        return [list(p[0]) for p in g]
    return [oracle.geo_points(kind, g)]


def box_of(points):
    xs, ys = [p[0] for p in points], [p[1] for p in points]
    return min(xs), min(ys), max(xs), max(ys)


def boxes_apart(a, b):
    return a[2] < b[0] or b[2] < a[0] or a[3] < b[1] or b[3] < a[1]


def parts_judge(name, o, t):
    """All edges of both operands, once, under the right role."""
    xk, yk = QUERIES[name]
    sweeps = o.world.notes.get('sweeps', ())
    if not sweeps:
        return
    parts = {'x': label_edges(xk, t['gx'], 'x'),
             'y': label_edges(yk, t['gy'], 'y')}
    points = {'x': part_points(xk, t['gx']), 'y': part_points(yk, t['gy'])}
    for s in sweeps:
        owners = {}
        for role, edges in ((True, s.test), (False, s.goal)):
            who = 'test' if role else 'goal'
            got = [frozenset((a.label, b.label)) for a, b in edges]
            fed = frozenset(got)
            if len(fed) < len(got):
                yield ('%s: edges registered twice' % name,
                       '%s registers an edge of the %s twice on %s'
                       % (s.where, who, text(name, t)))
            sides = {l[0] for e in fed for l in e}
            if len(sides) > 1:
                yield ('%s: operands mixed' % name,
                       '%s registers edges of both operands as %s on %s'
                       % (s.where, who, text(name, t)))
                return
            if not sides:
                yield ('%s: nothing registered as %s' % (name, who),
                       '%s on %s' % (s.where, text(name, t)))
                return
            owners[role] = sides.pop()
            side = owners[role]
            rest = set(fed)
            for p in parts[side]:
                for c in p:
                    rest -= c
                    k = len(c & fed)
                    if 0 < k < len(c):
                        yield ('%s: contour not complete' % name,
                               '%s registers %d of %d edges of a part of '
                               '%s as %s on %s' % (s.where, k, len(c), side,
                                                   who, text(name, t)))
            if rest:
                yield ('%s: edges of no operand' % name,
                       '%s registers %s on %s' % (s.where, sorted(
                           map(sorted, rest)), text(name, t)))
        if owners[True] == owners[False]:
            yield ('%s: one operand under both roles' % name,
                   '%s on %s' % (s.where, text(name, t)))
            continue
        if yk == 'polygon':
            continue
        if owners[True] != 'x':
            yield ('%s: roles exchanged' % name,
                   '%s registers the first operand as goal on %s'
                   % (s.where, text(name, t)))
            continue
        for side, edges, other in (('x', s.test, 'y'), ('y', s.goal, 'x')):
            fed = {frozenset((a.label, b.label)) for a, b in edges}
            whole = box_of([p for q in points[other] for p in q])
            for p, ps in zip(parts[side], points[side]):
                if (any(not c <= fed for c in p)
                        and not boxes_apart(box_of(ps), whole)):
                    yield ('%s: part of %s left out' % (
                        name, 'the first operand' if side == 'x'
                        else 'the second operand'),
                        '%s leaves out a part whose box meets the other '
                        'operand on %s' % (s.where, text(name, t)))


def stop_judge(name, o, t):
    """The sweep reaches the smaller right extent of what it was given."""
    for s in o.world.notes.get('sweeps', ()):
        if not isinstance(s.stop, Num) or not s.test or not s.goal:
            continue
        te, ge = s.edges(t, True), s.edges(t, False)
        need = min(max(p[0] for e in te for p in e),
                   max(p[0] for e in ge for p in e))
        if s.stop.ev(t) < need:
            yield ('%s: stops too early' % name,
                   '%s stops at x = %s = %r before %s on %s'
                   % (s.where, s.stop.ev(t), s.stop, need, text(name, t)))


_LEFT = {}


def _left_interior(edges):
    key = edges
    r = _LEFT.get(key)
    if r is None:
        r = True
        for a, b in edges:
            for p, q in oracle.pieces(((a, b),) if a < b else ((b, a),),
                                      tuple(edges)):
                if (p < q) != (a < b):
                    p, q = q, p
                if oracle.locate(edges, oracle.left_of(p, q)) != 2:
                    r = False
                break
            if not r:
                break
        _LEFT[key] = r
    return r


def direction_judge(name, o, t):
    """Registered edges of compound operands have the interior on the left."""
    for s in o.world.notes.get('sweeps', ()):
        roles = {'process_compound_queue': (True, False),
                 'process_closed_linear_queue': (True, False),
                 'process_linear_compound_queue': (False,)}.get(s.fold, ())
        for role in roles:
            e = s.edges(t, role)
            if e and not _left_interior(e):
                yield ('%s: interior not on the left' % name,
                       '%s: edges of the %s are registered with the '
                       'interior on the wrong side on %s' % (
                           s.where, 'test' if role else 'goal',
                           text(name, t)))


def fold_judge(name, o, t):
    """The verdict fits the kinds of the operands."""
    xk, yk = QUERIES[name]
    if xk in oracle.LINEAR and yk in oracle.LINEAR:
        fits = (('process_closed_linear_queue', 'process_open_linear_queue')
                if (xk, yk) == ('contour', 'contour')
                else ('process_open_linear_queue',))
    elif xk in oracle.LINEAR:
        fits = ('process_linear_compound_queue',)
    else:
        fits = ('process_compound_queue',)
    for s in o.world.notes.get('sweeps', ()):
        if s.fold not in fits:
            yield ('%s: verdict of other kinds' % name,
                   '%s uses %s on %s' % (s.where, s.fold, text(name, t)))


def member_judge(name, o, t):
    xk, yk = QUERIES[name]
    got = got_name(o)
    if got not in documented(xk, yk):
        yield ('%s: %s' % (name, got), '%s is %s, which is not documented '
               'for these kinds' % (text(name, t), got))


def raises_judge(name, o, t):
    if o.exc is not None:
        yield ('%s: %s' % (name, got_name(o)), '%s %s'
               % (text(name, t), got_name(o)))


DIRECTED = ('COVER', 'WITHIN', 'ENCLOSES', 'ENCLOSED', 'COMPOSITE',
            'COMPONENT')

JUDGES = {'answer': right_answer, 'parts': parts_judge, 'stop': stop_judge,
          'direction': direction_judge, 'fold': fold_judge,
          'member': member_judge, 'raises': raises_judge}


# ----------------------------------------------------------- relisted (C10)
def variants_task(rep, name, family, seed, count, rule, each=4):
    """Other listings of the same operands get the same answer."""
    xk, yk = QUERIES[name]
    rng = random.Random('variants %s %d' % (name, seed))
    scenes = []
    for i, (x, y) in enumerate(sparse(name, gen.scenes(family, name,
                                                      seed, count))):
        scenes.append((x, y, {'id': i}))
        for _ in range(each - 1):
            scenes.append((gen.relist(rng, xk, x), gen.relist(rng, yk, y),
                           {'id': i}))
    func = query_func(name)
    rep.sites.add(func_site(func))
    answers = {}
    for (xs, ys), universe in by_shape(xk, yk, scenes).items():
        for o in outcomes(rep, name, xs, ys, universe):
            for t in o.world.S:
                answers.setdefault(t['id'], []).append(
                        (got_name(o), site(o, name), t))
                for construct, detail in direction_judge(name, o, t):
                    rep.violation(rule, construct, site(o, name), detail)
    for i, found in answers.items():
        rep.ob(rule, len(found))
        if len({g for g, _, _ in found}) > 1:
            want = answer_of(name, found[0][2])
            bad = [f for f in found if f[0] != want] or found
            good = [f for f in found if f[0] == want] or found
            rep.violation(
                rule, '%s: %s or %s' % (name, bad[0][0], good[0][0]),
                bad[0][1], '%s is %s, but %s is %s' % (
                    text(name, bad[0][2]), bad[0][0],
                    text(name, good[0][2]), good[0][0]))
        else:
            rep.sample('%s and %d other listings -> %s' % (
                text(name, found[0][2])[:200], len(found) - 1, found[0][0]),
                3)


# ------------------------------------------------------------ swapped (C06)
def swapped_task(rep, kind, family, seed, count, rule):
    name = '%s_in_%s' % (kind, kind)
    scenes = []
    for i, (x, y) in enumerate(sparse(name, gen.scenes(family, name,
                                                      seed, count))):
        scenes += [(x, y, {'id': i, 'way': 0}), (y, x, {'id': i, 'way': 1})]
    rep.sites.add(func_site(query_func(name)))
    answers = {}
    for (xs, ys), universe in by_shape(kind, kind, scenes).items():
        for o in outcomes(rep, name, xs, ys, universe):
            for t in o.world.S:
                answers.setdefault(t['id'], {})[t['way']] = (
                    got_name(o), site(o, name), t)
    for i, ways in answers.items():
        if len(ways) < 2:
            continue
        rep.ob(rule)
        (a, wa, ta), (b, wb, tb) = ways[0], ways[1]
        if oracle.complement(a) != b:
            rep.violation(rule, '%s: %s but swapped %s' % (name, a, b), wa,
                          '%s is %s, the operands exchanged give %s'
                          % (text(name, ta), a, b))
        else:
            rep.sample('%s -> %s, swapped -> %s' % (text(name, ta)[:200], a,
                                                    b), 3)


# --------------------------------------------------------------- boxes (C08)
def disjoint_task(rep, rule):
    """The box test over all positions of two boxes."""
    try:
        func = program().get('orient.core.box', 'disjoint_with')
    except MissingAnchor:
        rep.skip('box.disjoint_with', 'no such function; boxes are examined '
                 'through the queries')
        return
    where = func_site(func)
    rep.sites.add(where)
    rels = []
    for a in range(4):
        for b in range(a, 4):
            for c in range(4):
                for d in range(c, 4):
                    rels.append((a, b, c, d))
    for fixed in range(2):
        # all positions along one axis with typical ones along the other
        universe = []
        for r in rels:
            for q in ((0, 2, 1, 3), (0, 1, 1, 2), (1, 2, 0, 1), (0, 1, 2, 3),
                      (2, 3, 0, 1), (0, 3, 1, 2), (1, 1, 1, 1)):
                u, v = (r, q) if fixed == 0 else (q, r)
                universe.append({'g': (u[0], u[1], v[0], v[1]),
                                 't': (u[2], u[3], v[2], v[3])})

        def run(m, w):
            boxes = []
            for k in 'gt':
                boxes.append(Geo('box', {
                    n: Num(lambda t, k=k, i=i: t[k][i], '%s.%s' % (k, n),
                           True)
                    for i, n in enumerate(('min_x', 'max_x', 'min_y',
                                           'max_y'))}, k))
            return m.call(func, *boxes)
        for o in explore(program(), run, universe, stats=rep.stats):
            if interface_changed(rep, o, 'box.disjoint_with'):
                return
            got = (o.value if o.exc is None
                   else 'raises ' + exc_name(o.exc))
            for t in o.world.S:
                g, s = t['g'], t['t']
                want = boxes_apart((g[0], g[2], g[1], g[3]),
                                   (s[0], s[2], s[1], s[3]))
                rep.ob(rule)
                if not isinstance(got, bool) or got is not want:
                    rep.violation(rule, 'box.disjoint_with', where,
                                  'x %s-%s, y %s-%s and x %s-%s, y %s-%s '
                                  'count as %s' % (g + s + ((
                                      'disjoint' if got is True else
                                      'not disjoint' if got is False
                                      else got),)))


def stop_task(rep, rule):
    """The folds pass the extent they are given to the sweep."""
    from . import folds

    def visit(rep, o):
        for args, kwargs in o.world.stops:
            rep.ob(rule)
            vals = list(args) + list(kwargs.values())
            if (len(vals) != 1 or not isinstance(vals[0], Num)
                    or vals[0].label != 'stop_x'):
                rep.violation(rule, 'sweep extent', '', 'the sweep is given '
                              '%r instead of the extent' % (vals,))
    for fold in folds.FOLDS:
        r = type(rep)()
        folds.fold_task(r, fold, 'fold', visit)
        rep.stats.add(r.stats)
        rep.sites |= r.sites
        rep.ob(rule, r.obligations.get(rule, 0))
        for v in r.violations.values():
            if v['rule'] == rule:
                rep.violation(rule, v['construct'], v['where'], v['detail'])


# --------------------------------------------------------------- equal (C21)
def equal_task(rep, n, rule):
    """Recognition of equal contours over listings of the same vertices."""
    import itertools
    try:
        func = program().get('orient.core.contour', 'equal')
    except MissingAnchor:
        rep.skip('contour.equal', 'no such function; equality is examined '
                 'through the queries')
        return
    where = func_site(func)
    rep.sites.add(where)
    sets = {3: [((0, 0), (4, 0), (0, 4)), ((0, 0), (0, 4), (4, 2))],
            4: [((0, 0), (8, 0), (4, 8), (4, 2)),
                ((0, 0), (4, 0), (4, 4), (0, 4))],
            5: [((0, 0), (8, 0), (8, 8), (4, 2), (0, 8)),
                ((0, 0), (8, 1), (7, 8), (3, 3), (1, 7))],
            6: [((0, 0), (8, 1), (9, 6), (5, 9), (3, 5), (2, 2))]}[n]
    other = {3: (1, 1), 4: (2, 3), 5: (5, 3), 6: (4, 3)}[n]
    for points in sets:
        base = []
        for perm in itertools.permutations(points[1:]):
            vs = (points[0],) + perm
            if oracle.simple(vs):
                base.append(vs)
        if n == 6:
            base = base[::max(1, len(base) // 6)][:6]
        listings = []
        for vs in base:
            for k in range(n):
                listings.append(vs[k:] + vs[:k])
        firsts = base[:4] + [b[1:] + b[:1] for b in base[:2]]
        rights = list(listings)
        for vs in base[:3]:
            for i in range(n):
                q = vs[:i] + (other,) + vs[i + 1:]
                if oracle.simple(q):
                    rights += [q, q[1:] + q[:1], q[::-1], q[2:] + q[:2]]
        universe = [{'x': a, 'y': b} for a in firsts for b in rights]
        _equal(rep, func, n, n, universe, rule, where)
    longer = [tuple(points) + (p,) for points in sets
              for p in ((-3, 5), (-2, 1), (1, -3), (2, 2), (9, 9))]
    longer = [c for c in longer if oracle.simple(c)]
    shorter = [points for points in sets if oracle.simple(points)]
    for a, b in ((shorter, longer), (longer, shorter)):
        u = [{'x': p, 'y': q[k:] + q[:k]} for p in a for q in b
             for k in range(len(q))]
        if u:
            _equal(rep, func, len(a[0]), len(b[0]), u, rule, where)


def _equal(rep, func, n, k, universe, rule, where):
    def run(m, w):
        w.ctx = Ctx()
        args = []
        for side, size in (('x', n), ('y', k)):
            ps = [Pt(lambda t, side=side, i=i: t[side][i], '%s%d'
                     % (side, i)) for i in range(size)]
            args.append(make_contour(ps, side))
        return m.call(func, args[0], args[1], w.ctx)
    for o in explore(program(), run, universe, stats=rep.stats):
        if interface_changed(rep, o, 'contour.equal'):
            return
        for t in o.world.S:
            want = (sorted(t['x']) == sorted(t['y'])
                    and gen.canon(t['x']) == gen.canon(t['y']))
            got = o.value if o.exc is None else 'raises ' + exc_name(o.exc)
            rep.ob(rule)
            if got is not want:
                rep.violation(rule, 'contour.equal',
                              ret_site(o.machine) if o.exc is None
                              else (o.where or [where])[0],
                              '%s and %s are considered %s' % (
                                  t['x'], t['y'],
                                  'equal' if got is True else 'different'
                                  if got is False else got))
        rep.sample('%s, %s -> %s (%d situations)' % (
            o.world.S[0]['x'], o.world.S[0]['y'], o.value, len(o.world.S)),
            4)


# ----------------------------------------------------- sweeps through queries
WHOLE = 'answers of queries with the sweep interpreted'
CARRIERS = ('segment_in_region', 'multisegment_in_multisegment',
            'multisegment_in_contour', 'multisegment_in_region',
            'contour_in_contour', 'contour_in_region', 'region_in_region',
            'multiregion_in_multiregion', 'polygon_in_polygon')


def whole_task(rep, name, family, seed, count):
    query_task(rep, name, gen.scenes(family, name, seed, count), WHOLE,
               hooked=False)


def raising_task(rep, name, family, seed, count, rule):
    query_task(rep, name, gen.scenes(family, name, seed, count), rule,
               raises_judge, hooked=False)


def whole_tasks():
    """What decides a property of sweeps when their parts are not found."""
    return [(whole_task, (name, family, 4000 + seed, 6))
            for name in CARRIERS for family in ('grid', 'pool', 'catalogue')
            for seed in range(2)]


def split(total, per):
    """Seeds and counts of tasks of a bounded size."""
    return [(i + 1, min(per, total - i * per))
            for i in range((total + per - 1) // per)]
