"""Public queries, interpreted with the sweep as a black box.

A query is interpreted abstractly on operands of a given shape (numbers of
vertices, holes and parts) whose coordinates are unknown; the abstract state
is the set of situations (positions of all vertices) compatible with the
observations on the path.  The sweep is replaced by its specification: what
is registered is recorded, and the functions that turn a sweep into a
relation answer what the definition gives for the registered edges (that they
really do is decided by C11 to C18 and C22).  So what is examined here is
everything around the sweep, for every operand shape.
"""
from __future__ import annotations

from . import anchors, oracle
from .kit import (MissingAnchor, StepLimit, exc_name, explore, func_site,
                  iterate, name_of, program, ret_site)
from .vm import CallVM, EnumMember, NULL, Obj
from .world import (Ctx, Num, Pt, contour, multipolygon, multisegment,
                    polygon, segment, inlist)

KINDS = ('point', 'segment', 'multisegment', 'contour', 'region',
         'multiregion', 'polygon', 'multipolygon')
GOALS = KINDS[1:]
QUERIES = {}
for _y in GOALS:
    for _x in KINDS[:KINDS.index(_y) + 1]:
        QUERIES['%s_in_%s' % (_x, _y)] = (_x, _y)
SAME = tuple(k for k in GOALS if k != 'segment')


def documented(x, y):
    """Answers a query may give, by the kinds of its operands."""
    if x == 'point':
        return ({'EXTERIOR', 'BOUNDARY'} if y in oracle.LINEAR
                else {'EXTERIOR', 'BOUNDARY', 'INTERIOR'})
    if x in oracle.LINEAR and y in oracle.LINEAR:
        r = {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'COMPONENT'}
        if y != 'contour':
            r |= {'COMPOSITE', 'EQUAL'}
        if (x, y) == ('multisegment', 'contour'):
            r |= {'COMPOSITE', 'EQUAL'}
        if (x, y) == ('contour', 'contour'):
            r = {'DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP', 'EQUAL',
                 'COMPONENT', 'COMPOSITE'}
        return r
    if x in oracle.LINEAR:
        return {'DISJOINT', 'TOUCH', 'CROSS', 'COMPONENT', 'ENCLOSED',
                'WITHIN'}
    return {'DISJOINT', 'TOUCH', 'OVERLAP', 'COVER', 'ENCLOSES',
            'COMPOSITE', 'EQUAL', 'COMPONENT', 'ENCLOSED', 'WITHIN'}


# ------------------------------------------------------------------- shapes
def shape(kind, g):
    if kind in ('point', 'segment'):
        return kind
    if kind == 'multisegment':
        return kind, len(g)
    if kind in ('contour', 'region'):
        return kind, len(g)
    if kind == 'multiregion':
        return kind, tuple(len(r) for r in g)
    if kind == 'polygon':
        return kind, len(g[0]), tuple(len(h) for h in g[1])
    return kind, tuple((len(b), tuple(map(len, h))) for b, h in g)


class Maker:
    """Abstract operand reading its points from the situation."""

    def __init__(self, side):
        self.side = side
        self.n = 0
        self.points = []

    def pt(self):
        i, side = self.n, self.side
        self.n += 1
        p = Pt(lambda t: t[side][i], '%s%d' % (side, i))
        self.points.append(p)
        return p

    def contour(self, n, label):
        return contour([self.pt() for _ in range(n)], label)

    def polygon(self, b, holes, label):
        border = self.contour(b, label + '.border')
        return polygon(border, [self.contour(h, '%s.hole%d' % (label, i))
                                for i, h in enumerate(holes)], label)

    def make(self, s):
        kind = s if isinstance(s, str) else s[0]
        x = self.side
        if kind == 'point':
            return self.pt()
        if kind == 'segment':
            return segment(self.pt(), self.pt(), x)
        if kind == 'multisegment':
            return multisegment([segment(self.pt(), self.pt(), '%s.seg%d'
                                         % (x, i)) for i in range(s[1])], x)
        if kind in ('contour', 'region'):
            return self.contour(s[1], x)
        if kind == 'multiregion':
            return inlist([self.contour(n, '%s.part%d' % (x, i))
                           for i, n in enumerate(s[1])], x)
        if kind == 'polygon':
            return self.polygon(s[1], s[2], x)
        return multipolygon([self.polygon(b, h, '%s.part%d' % (x, i))
                             for i, (b, h) in enumerate(s[1])], x)


def situation(x_kind, x, y_kind, y, **extra):
    t = {'x': tuple(oracle.geo_points(x_kind, x)),
         'y': tuple(oracle.geo_points(y_kind, y)), 'gx': x, 'gy': y}
    t.update(extra)
    return t


def by_shape(x_kind, y_kind, scenes):
    """Groups situations that share the shapes of their operands."""
    groups = {}
    for s in scenes:
        x, y = s[0], s[1]
        key = shape(x_kind, x), shape(y_kind, y)
        groups.setdefault(key, []).append(
                situation(x_kind, x, y_kind, y,
                          **(s[2] if len(s) > 2 else {})))
    return groups


# -------------------------------------------------------------------- hooks
FOLDS = {'process_open_linear_queue': oracle.linear_in_linear,
         'process_closed_linear_queue': oracle.linear_in_linear,
         'process_linear_compound_queue': oracle.linear_in_compound,
         'process_compound_queue': oracle.compound_in_compound}


class Sweep:
    """One use of the sweep on a path."""

    __slots__ = ('fold', 'test', 'goal', 'stop', 'where', 'kind')

    def __init__(self, fold, test, goal, stop, where, kind):
        self.fold, self.test, self.goal, self.stop = fold, test, goal, stop
        self.where, self.kind = where, kind

    def edges(self, t, role):
        return tuple((a.ev(t), b.ev(t))
                     for a, b in (self.test if role else self.goal))


def sweep_hooks():
    """Hooks replacing the sweep by its specification, or None."""
    hooks = {}
    try:
        registers = [anchors.register_func(k) for k in anchors.QUEUES]
        funcs = {n: anchors.fold_func(f) for f, n in anchors.FOLDS.items()}
    except MissingAnchor:
        return None
    if len({f.key for f in funcs.values()}) < len(funcs):
        return None

    def register(m, func, args, kwargs):
        values = list(args) + list(kwargs.values())
        roles = [v for v in values if isinstance(v, bool)]
        rest = [v for v in values if not isinstance(v, bool)]
        if len(roles) != 1 or len(rest) != 2 or not isinstance(rest[0], Obj):
            raise _Interface()
        (queue, endpoints), role = rest, roles[0]
        rec = m.world.notes.setdefault('queues', {}).setdefault(
                id(queue), (queue, []))[1]
        for pair in iterate(m, endpoints):
            a, b = pair
            if not isinstance(a, Pt) or not isinstance(b, Pt):
                raise _Interface()
            rec.append((role, a, b))
        return None

    for f in registers:
        hooks[f.key] = register
    for name, f in funcs.items():
        hooks[f.key] = _fold(name)
    return hooks


class _Interface(Exception):
    """The sweep is not used the way the hooks expect."""


def _fold(name):
    meaning = FOLDS[name]

    def hook(m, func, args, kwargs):
        values = list(args) + list(kwargs.values())
        queues = [v for v in values if isinstance(v, Obj)]
        stops = [v for v in values if isinstance(v, Num)]
        if len(values) != 2 or len(queues) != 1 or len(stops) != 1:
            raise _Interface()
        queue, stop = queues[0], stops[0]
        rec = m.world.notes.get('queues', {}).get(id(queue), (queue, []))[1]
        s = Sweep(name, [(a, b) for r, a, b in rec if r],
                  [(a, b) for r, a, b in rec if not r], stop, m.where(),
                  queue.cls.name)
        m.world.notes.setdefault('sweeps', []).append(s)

        def value(t):
            te, ge = s.edges(t, True), s.edges(t, False)
            if not te or not ge:
                return 'DISJOINT'
            return meaning(oracle.norm(te), oracle.norm(ge))
        r = m.world.ask(value)
        return m.program.prelude['Relation'].enum_members[r]
    return hook


# ------------------------------------------------------------------ running
def query_func(name):
    return program().get('orient.planar', name)


def run_query(name, xs, ys, explicit=True):
    func = query_func(name)

    def run(m, w):
        w.ctx = Ctx()
        mx, my = Maker('x'), Maker('y')
        x, y = mx.make(xs), my.make(ys)
        w.notes['points'] = mx.points, my.points
        if explicit:
            return m.call(func, x, y, context=w.ctx)
        return m.call(func, x, y)
    return run


_HOOKS = []


def current_hooks():
    if not _HOOKS:
        _HOOKS.append(sweep_hooks())
    return _HOOKS[0]


def sparse(name, scenes):
    """Fewer and smaller situations when sweeps cannot be replaced."""
    scenes = list(scenes)
    xk, yk = QUERIES[name]
    if xk == 'point' or current_hooks() is not None:
        return scenes
    small = [s for s in scenes
             if len(oracle.geo_points(xk, s[0]))
             + len(oracle.geo_points(yk, s[1])) <= 16]
    return small[::6]


def outcomes(rep, name, xs, ys, universe, hooked=True, explicit=True,
             limit=3000000):
    """Explores one query on one shape of operands."""
    hooks = None
    if hooked:
        hooks = current_hooks()
        if hooks is None:
            rep.skip('sweep', 'no such sweep functions; queries were '
                     'interpreted including the sweep')
    run = run_query(name, xs, ys, explicit)
    try:
        yield from explore(program(), run, universe, stats=rep.stats,
                           hooks=hooks, limit=limit)
    except _Interface:
        rep.skip('sweep', 'its interface is different; queries were '
                 'interpreted including the sweep')
        _HOOKS[:] = [None]
        universe = universe[::5]
        yield from explore(program(), run, universe, stats=rep.stats,
                           limit=limit)


def text(name, t):
    x, y = QUERIES[name]
    return '%s(%s, %s)' % (name, t['gx'], t['gy'])


def got_name(o):
    return (name_of(o.value) if o.exc is None
            else 'raises ' + exc_name(o.exc))


def site(o, name):
    if o.exc is not None:
        return (o.where or ['?'])[0]
    return ret_site(o.machine)


def answer_of(name, t):
    a = t.get('answer')
    if a is None:
        xk, yk = QUERIES[name]
        a = t['answer'] = oracle.answer(xk, t['gx'], yk, t['gy'])
    return a


def query_task(rep, name, scenes, rule, judge=None, hooked=True, cap=60):
    """Interprets a query on all the scenes and judges each outcome."""
    xk, yk = QUERIES[name]
    func = query_func(name)
    rep.sites.add(func_site(func))
    judge = judge or right_answer
    if hooked:
        scenes = sparse(name, scenes)
    for (xs, ys), universe in by_shape(xk, yk, scenes).items():
        try:
            for o in outcomes(rep, name, xs, ys, universe, hooked):
                for t in o.world.S[:cap]:
                    rep.ob(rule)
                    for construct, detail in judge(name, o, t):
                        rep.violation(rule, construct, site(o, name), detail)
                rep.sample('%s -> %s (%d situations on this path)' % (
                    text(name, o.world.S[0])[:300], got_name(o),
                    len(o.world.S)), 3)
        except StepLimit as e:
            rep.violation(rule, name, func_site(func),
                          'does not end on %s: %s'
                          % (text(name, universe[0]), e))


def right_answer(name, o, t):
    want, got = answer_of(name, t), got_name(o)
    if want != got:
        yield ('%s: %s instead of %s' % (name, got, want),
               '%s is %s, not %s' % (text(name, t), got, want))
