"""Abstract worlds: what the machine may observe about unknown values.

A world holds a finite *universe* of abstract situations (order types of a
few points, combinations of relations, ...).  The abstract state of a path is
the subset of the universe compatible with everything observed on the path;
an observation that does not have the same answer on the whole subset splits
it.  A path therefore stands for all situations it ends with at once.
"""
from __future__ import annotations

from fractions import Fraction

from .vm import (Atom, CallVM, Cls, EnumMember, InList, Machine, Native, Obj,
                 Opaque, Prune, SeqIter, Unsupported, VMRaise)


class World:
    watch_setattr = None

    def __init__(self, prefix, universe, visited, memo=None):
        self.prefix = prefix
        self.memo = memo if memo is not None else {}
        self.node = 0
        self.k = 0
        self.pos = 0
        self.taken = []
        self.S = universe
        self.visited = visited
        self.events = []
        self.ctx = None
        self.ctx_param = None
        self.notes = {}

    # -------------------------------------------------------------- choices
    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            c = self.prefix[self.pos]
        else:
            c = 0
        self.pos += 1
        self.taken.append((c, n))
        key = self.node, self.k, c
        memo = self.memo
        node = memo.get(key)
        if node is None:
            node = memo[key] = len(memo) + 1
        self.node, self.k = node, 0
        return c

    def pick(self, options):
        return options[self.choose(len(options))]

    def ask(self, fn):
        """Observation: partitions the universe, follows one class."""
        key = self.node, self.k
        classes = self.memo.get(key)
        if classes is None:
            classes = {}
            for t in self.S:
                v = fn(t)
                try:
                    classes[v].append(t)
                except KeyError:
                    classes[v] = [t]
            self.memo[key] = classes
        if len(classes) == 1:
            self.k += 1
            return next(iter(classes))
        keys = list(classes)
        c = self.choose(len(keys))
        k = keys[c]
        self.S = classes[k]
        return k

    def checkpoint(self, m, extra=()):
        """Merges paths that reach the same abstract machine state."""
        if self.pos < len(self.prefix):
            return
        key = (m.canon(extra), self.state_key())
        if key in self.visited:
            raise Prune()
        self.visited.add(key)

    def state_key(self):
        return tuple(map(id, self.S))

    # --------------------------------------------------------------- events
    def event(self, m, kind, *data):
        self.events.append((kind, m.where(), data))

    def default_context(self, m):
        self.event(m, 'default_context')
        return self.ctx


class Stats:
    def __init__(self):
        self.paths = self.steps = self.pruned = 0
        self.situations = 0
        self.functions = set()

    def add(self, o):
        self.paths += o.paths
        self.steps += o.steps
        self.pruned += o.pruned
        self.situations += o.situations
        self.functions |= o.functions


class Outcome:
    __slots__ = ('world', 'value', 'exc', 'where', 'effects', 'machine')

    def __init__(self, world, value, exc, where, effects, machine):
        self.world, self.value, self.exc, self.where = (world, value, exc,
                                                        where)
        self.effects = effects
        self.machine = machine


def explore(program, run, universe=(None,), make_world=World, stats=None,
            hooks=None, limit=2000000, max_paths=None):
    """Yields the outcome of every abstract path of ``run(m, world)``."""
    universe = list(universe)
    visited = set()
    memo = {}
    prefix = []
    stats = stats if stats is not None else Stats()
    n = 0
    snap = _snapshot(program)
    while True:
        m = Machine(program)
        m.MAX_STEPS = limit
        world = make_world(prefix, universe, visited, memo)
        m.world = world
        m.hooks = dict(hooks or {})
        out = None
        try:
            value = run(m, world)
            out = Outcome(world, value, None, None, m.effects, m)
        except VMRaise as e:
            out = Outcome(world, None, e.exc, e.where or [], m.effects, m)
        except Prune:
            stats.pruned += 1
        stats.steps += m.steps
        stats.functions |= m.seen_funcs
        _restore(program, snap)
        if out is not None:
            stats.paths += 1
            stats.situations += len(world.S)
            yield out
        n += 1
        if max_paths is not None and n >= max_paths:
            raise Unsupported('path limit')
        taken = world.taken
        while taken and taken[-1][0] + 1 >= taken[-1][1]:
            taken.pop()
        if not taken:
            return
        prefix = [c for c, _ in taken]
        prefix[-1] += 1


def _snapshot(program):
    """Module and class level state, so that paths do not see each other."""
    snap = []
    for mod in program.modules.values():
        if mod.name.split('.')[0] == 'orient':
            snap.append((mod.d, dict(mod.d)))
            for v in list(mod.d.values()):
                if isinstance(v, Cls):
                    snap.append((v.d, dict(v.d)))
    from .vm import VDict, VSet
    extra = []
    for d, copy in snap:
        for v in copy.values():
            if isinstance(v, (VDict, VSet)):
                extra.append((v, [list(p) if isinstance(p, list) else p
                                  for p in v.items]))
            elif isinstance(v, list):
                extra.append((v, list(v)))
            elif isinstance(v, Obj):
                extra.append((v, dict(v.f)))
    return snap, extra


def _restore(program, snaps):
    snap, extra = snaps
    for d, copy in snap:
        if d != copy:
            d.clear()
            d.update(copy)
    for v, items in extra:
        if isinstance(v, list):
            if len(v) != len(items) or any(a is not b
                                           for a, b in zip(v, items)):
                v[:] = items
        elif isinstance(v, Obj):
            v.f = dict(items)
        else:
            v.items = [list(p) if isinstance(p, list) else p for p in items]


# ------------------------------------------------------------------ geometry
def cross(a, b, c):
    return ((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))


def sgn(v):
    return (v > 0) - (v < 0)


def orient(a, b, c):
    return sgn(cross(a, b, c))


def on_segment(a, b, p):
    return (cross(a, b, p) == 0
            and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1]))


def seg_relation(t, g):
    """Relation name of segment ``t`` to segment ``g`` (t in g)."""
    a, b = sorted(t)
    c, d = sorted(g)
    if (a, b) == (c, d):
        return 'EQUAL'
    if cross(a, b, c) == 0 and cross(a, b, d) == 0:
        lo, hi = max(a, c), min(b, d)
        if lo > hi:
            return 'DISJOINT'
        if lo == hi:
            return 'TOUCH'
        if (lo, hi) == (a, b):
            return 'COMPONENT'
        if (lo, hi) == (c, d):
            return 'COMPOSITE'
        return 'OVERLAP'
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return 'CROSS'
    if (on_segment(a, b, c) or on_segment(a, b, d) or on_segment(c, d, a)
            or on_segment(c, d, b)):
        return 'TOUCH'
    return 'DISJOINT'


def seg_point(s, r):
    """The common point of two segments that touch or cross."""
    a, b = s
    c, d = r
    for p in (c, d):
        if on_segment(a, b, p):
            return p
    for p in (a, b):
        if on_segment(c, d, p):
            return p
    d1, d2 = cross(a, b, c), cross(a, b, d)
    k = Fraction(d1, d1 - d2)
    return (c[0] + (d[0] - c[0]) * k, c[1] + (d[1] - c[1]) * k)


class Num(Atom):
    """A number computed from coordinates, observable by comparison only."""
    operators = ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
                 '__add__', '__sub__', '__mul__', '__neg__', '__abs__')

    def __init__(self, ev, label, coord=False):
        self.ev, self.label, self.coord = ev, label, coord

    def __repr__(self):
        return self.label

    def v_eq(self, m, other):
        f = self._cmp(other)
        if f is None:
            return False
        return m.world.ask(lambda t: f(t) == 0)

    def _cmp(self, other):
        a = self.ev
        if isinstance(other, Num):
            b = other.ev
            return lambda t: sgn(a(t) - b(t))
        if isinstance(other, (int, float)):
            return lambda t: sgn(a(t) - other)
        return None

    def v_cmp(self, m, op, other):
        f = self._cmp(other)
        if f is None:
            m.raise_('TypeError', 'unorderable')
        if op == '<':
            return m.world.ask(lambda t: f(t) < 0)
        if op == '<=':
            return m.world.ask(lambda t: f(t) <= 0)
        if op == '>':
            return m.world.ask(lambda t: f(t) > 0)
        return m.world.ask(lambda t: f(t) >= 0)

    def v_bool(self, m):
        ev = self.ev
        m.world_event('arith', 'truth value of %s' % self.label)
        return m.world.ask(lambda t: ev(t) != 0)

    def v_binop(self, m, op, a, b):
        from .vm import BINOPS
        m.world_event('arith', '%s applied to %r and %r' % (op, a, b))
        fa, fb = _num(a), _num(b)
        if fa is None or fb is None or op not in BINOPS:
            raise Unsupported('%s of %r and %r' % (op, a, b))
        fn = BINOPS[op]
        if op == '/':
            return Num(lambda t: Fraction(fa(t)) / Fraction(fb(t)),
                       '(%r / %r)' % (a, b))
        return Num(lambda t: fn(fa(t), fb(t)), '(%r %s %r)' % (a, op, b))

    def v_unop(self, m, op):
        m.world_event('arith', '%s applied to %r' % (op, self))
        ev = self.ev
        fn = {'-': lambda v: -v, '+': lambda v: v, 'abs': abs,
              'round': round, 'int': int, 'float': float,
              'complex': complex}.get(op)
        if fn is None:
            raise Unsupported('%s of %r' % (op, self))
        return Num(lambda t: fn(ev(t)), '%s(%r)' % (op, self))

    def v_isinstance(self, m, cls):
        m.world_event('arith', 'type test on %r' % (self,))
        raise Unsupported('type test on a coordinate')

    def v_getattr(self, m, name):
        m.world_event('arith', 'attribute %s of %r' % (name, self))
        if name in ('real', 'numerator'):
            return self
        if name in ('__lt__', '__le__', '__gt__', '__ge__'):
            op = {'__lt__': '<', '__le__': '<=', '__gt__': '>',
                  '__ge__': '>='}[name]
            return Native(name, lambda m, a, k: self.v_cmp(m, op, a[0]))
        raise Unsupported('attribute %s of a coordinate' % name)


def _num(v):
    if isinstance(v, Num):
        return v.ev
    if isinstance(v, bool):
        return lambda t: int(v)
    if isinstance(v, (int, float)):
        return lambda t: v
    return None


class Pt(Atom):
    """A point of the current situation."""

    def __init__(self, ev, label):
        self.ev, self.label = ev, label

    def __repr__(self):
        return self.label

    @property
    def key(self):
        return self.label

    def v_getattr(self, m, name):
        ev = self.ev
        if name == 'x':
            return Num(lambda t: ev(t)[0], self.label + '.x', True)
        if name == 'y':
            return Num(lambda t: ev(t)[1], self.label + '.y', True)
        if name in ('__lt__', '__le__', '__gt__', '__ge__', '__eq__',
                    '__ne__'):
            return Native(name, lambda m, a, k: m.compare(
                    {'__lt__': '<', '__le__': '<=', '__gt__': '>',
                     '__ge__': '>=', '__eq__': '==',
                     '__ne__': '!='}[name], self, a[0]))
        if name == '__class__':
            m.world_event('type', 'class of %r' % (self,))
            return Opaque('point class')
        m.raise_('AttributeError', name)

    def v_setattr(self, m, name, value):
        m.effect('attribute %r of point %r is set' % (name, self))

    def v_eq(self, m, other):
        if not isinstance(other, Pt):
            return False
        a, b = self.ev, other.ev
        return m.world.ask(lambda t: a(t) == b(t))

    def v_cmp(self, m, op, other):
        if not isinstance(other, Pt):
            m.raise_('TypeError', 'unorderable')
        a, b = self.ev, other.ev
        if op == '<':
            return m.world.ask(lambda t: a(t) < b(t))
        if op == '<=':
            return m.world.ask(lambda t: a(t) <= b(t))
        if op == '>':
            return m.world.ask(lambda t: a(t) > b(t))
        return m.world.ask(lambda t: a(t) >= b(t))

    def v_type(self, m):
        m.world_event('type', 'class of %r' % (self,))
        return m.program.builtins['object']

    def v_isinstance(self, m, cls):
        return False


class Geo(Atom):
    """A geometry: named parts, equality by parts."""
    operators = '__eq__', '__ne__'

    def __init__(self, kind, fields, label, made=False):
        self.kind, self.fields, self.label = kind, fields, label
        self.made = made

    def __repr__(self):
        return self.label

    @property
    def key(self):
        return self.label

    def v_getattr(self, m, name):
        if name in self.fields:
            return self.fields[name]
        if name == '__class__':
            m.world_event('type', 'class of %r' % (self,))
            return Opaque(self.kind + ' class')
        m.raise_('AttributeError', '%s of %s' % (name, self.kind))

    def v_setattr(self, m, name, value):
        m.effect('attribute %r of %s %r is set' % (name, self.kind, self))

    def v_eq(self, m, other):
        if not isinstance(other, Geo) or other.kind != self.kind:
            return False
        if self.kind == 'segment':
            a, b = self.fields['start'], self.fields['end']
            c, d = other.fields['start'], other.fields['end']
            return ((m.eq(a, c) and m.eq(b, d))
                    or (m.eq(a, d) and m.eq(b, c)))
        raise Unsupported('equality of %ss' % self.kind)

    def v_type(self, m):
        m.world_event('type', 'class of %r' % (self,))
        return m.program.builtins['object']

    def v_isinstance(self, m, cls):
        if isinstance(cls, Cls):
            return False
        raise Unsupported('type test on a geometry')


def inlist(items, label):
    r = InList(items)
    r.label = label
    return r


def segment(start, end, label):
    return Geo('segment', {'start': start, 'end': end}, label)


def contour(vertices, label):
    return Geo('contour', {'vertices': inlist(vertices, label + '.vertices')},
               label)


def multisegment(segments, label):
    return Geo('multisegment',
               {'segments': inlist(segments, label + '.segments')}, label)


def polygon(border, holes, label):
    return Geo('polygon', {'border': border,
                           'holes': inlist(holes, label + '.holes')}, label)


def multipolygon(polygons, label):
    return Geo('multipolygon',
               {'polygons': inlist(polygons, label + '.polygons')}, label)


GEO_FIELDS = {'segment_cls': ('segment', ('start', 'end')),
              'contour_cls': ('contour', ('vertices',)),
              'multisegment_cls': ('multisegment', ('segments',)),
              'polygon_cls': ('polygon', ('border', 'holes')),
              'multipolygon_cls': ('multipolygon', ('polygons',)),
              'multipoint_cls': ('multipoint', ('points',)),
              'box_cls': ('box', ('min_x', 'max_x', 'min_y', 'max_y')),
              'point_cls': ('point', ('x', 'y'))}

CONTEXT_NAMES = set(GEO_FIELDS) | {
    'angle_orientation', 'segments_relation', 'segments_intersection',
    'segment_contains_point', 'contour_segments', 'contour_box',
    'contours_box', 'segment_box', 'segments_box', 'polygon_box',
    'polygons_box', 'points_box', 'dot_product', 'cross_product',
    'points_squared_distance', 'origin', 'angle_kind', 'empty', 'mode',
    'empty_cls', 'mix_cls', 'sqrt', 'region_signed_area',
    'contour_centroid', 'is_region_convex', 'segments_squared_distance',
    'segment_point_squared_distance', 'merged_box', 'boxes_relation'}


class Ctx(Atom):
    """The context: geometric predicates answered by the situation."""

    def __init__(self, label='context'):
        self.label = label
        self.key = label

    def __repr__(self):
        return self.label

    def v_setattr(self, m, name, value):
        m.effect('attribute %r of the context is set' % name)

    def v_getattr(self, m, name):
        fn = getattr(self, 'c_' + name, None)
        if fn is not None:
            return CtxFn(self, name, fn)
        if name in GEO_FIELDS:
            return CtxFn(self, name, lambda m, *a, **k: self.construct(
                    m, name, a, k))
        if name in CONTEXT_NAMES:
            raise Unsupported('context.%s' % name)
        m.raise_('AttributeError', 'context.' + name)

    def construct(self, m, name, args, kwargs):
        kind, fields = GEO_FIELDS[name]
        vals = dict(zip(fields, args))
        vals.update(kwargs)
        if kind == 'point':
            x, y = _num(vals['x']), _num(vals['y'])
            if x is None or y is None:
                raise Unsupported('point of %r' % (vals,))
            return Pt(lambda t: (x(t), y(t)), 'point(%r, %r)'
                      % (vals['x'], vals['y']))
        for n, v in vals.items():
            if isinstance(v, list) and not isinstance(v, InList):
                vals[n] = v
        return Geo(kind, vals, '%s%r' % (kind, tuple(vals.values())), True)

    def ends(self, m, s):
        a = m.getattr_(s, 'start')
        if isinstance(a, CallVM):
            a = m.call(a.func, *a.args, **a.kwargs)
        b = m.getattr_(s, 'end')
        if isinstance(b, CallVM):
            b = m.call(b.func, *b.args, **b.kwargs)
        if not isinstance(a, Pt) or not isinstance(b, Pt):
            raise Unsupported('segment with unknown ends')
        return a, b

    def c_angle_orientation(self, m, vertex, first_ray_point,
                            second_ray_point):
        a, b, c = vertex.ev, first_ray_point.ev, second_ray_point.ev
        r = m.world.ask(lambda t: orient(a(t), b(t), c(t)))
        return m.program.prelude['Orientation'].enum_members[
            {-1: 'CLOCKWISE', 0: 'COLLINEAR', 1: 'COUNTERCLOCKWISE'}[r]]

    def c_segments_relation(self, m, test, goal):
        a, b = self.ends(m, test)
        c, d = self.ends(m, goal)
        r = m.world.ask(lambda t: seg_relation((a.ev(t), b.ev(t)),
                                               (c.ev(t), d.ev(t))))
        return m.program.prelude['Relation'].enum_members[r]

    def c_segments_intersection(self, m, first, second):
        a, b = self.ends(m, first)
        c, d = self.ends(m, second)
        memo = {}

        def ev(t):
            k = id(t)
            r = memo.get(k)
            if r is None:
                r = memo[k] = seg_point((a.ev(t), b.ev(t)),
                                        (c.ev(t), d.ev(t)))
            return r
        return Pt(ev, '(%r-%r)x(%r-%r)' % (a, b, c, d))

    def c_segment_contains_point(self, m, segment, point):
        a, b = self.ends(m, segment)
        p = point.ev
        return m.world.ask(lambda t: on_segment(a.ev(t), b.ev(t), p(t)))

    def c_contour_segments(self, m, contour):
        vs = self.items(m, contour, 'vertices')
        return [Geo('segment', {'start': vs[i - 1], 'end': vs[i]},
                    '%r[%d]' % (contour, i), True) for i in range(len(vs))]

    def items(self, m, g, name):
        v = m.getattr_(g, name)
        if isinstance(v, (list, tuple)):
            return v
        raise Unsupported('%s of %r' % (name, g))

    def points_of(self, m, g):
        if isinstance(g, Geo):
            if g.kind == 'segment':
                return [g.fields['start'], g.fields['end']]
            if g.kind == 'contour':
                return list(g.fields['vertices'])
            if g.kind == 'multisegment':
                return [p for s in g.fields['segments']
                        for p in self.points_of(m, s)]
            if g.kind == 'polygon':
                return self.points_of(m, g.fields['border'])
            if g.kind == 'multipolygon':
                return [p for q in g.fields['polygons']
                        for p in self.points_of(m, q)]
        if isinstance(g, (list, tuple)):
            return [p for q in g for p in self.points_of(m, q)]
        raise Unsupported('box of %r' % (g,))

    def box(self, m, g):
        ps = [p.ev for p in self.points_of(m, g)]
        if not ps:
            # there is no box around nothing
            m.raise_('StopIteration')
        lab = 'box(%r)' % (g,)
        return Geo('box', {
            'min_x': Num(lambda t: min(p(t)[0] for p in ps),
                         lab + '.min_x', True),
            'max_x': Num(lambda t: max(p(t)[0] for p in ps),
                         lab + '.max_x', True),
            'min_y': Num(lambda t: min(p(t)[1] for p in ps),
                         lab + '.min_y', True),
            'max_y': Num(lambda t: max(p(t)[1] for p in ps),
                         lab + '.max_y', True)}, lab, True)

    def c_contour_box(self, m, g):
        return self.box(m, g)

    c_contours_box = c_segment_box = c_segments_box = c_contour_box
    c_polygon_box = c_polygons_box = c_contour_box

    def c_dot_product(self, m, a, b, c, d):
        a, b, c, d = a.ev, b.ev, c.ev, d.ev

        def ev(t):
            p, q, r, s = a(t), b(t), c(t), d(t)
            return ((q[0] - p[0]) * (s[0] - r[0])
                    + (q[1] - p[1]) * (s[1] - r[1]))
        return Num(ev, 'dot product')

    def c_cross_product(self, m, a, b, c, d):
        a, b, c, d = a.ev, b.ev, c.ev, d.ev

        def ev(t):
            p, q, r, s = a(t), b(t), c(t), d(t)
            return ((q[0] - p[0]) * (s[1] - r[1])
                    - (q[1] - p[1]) * (s[0] - r[0]))
        return Num(ev, 'cross product')

    def c_points_squared_distance(self, m, a, b):
        a, b = a.ev, b.ev
        return Num(lambda t: ((a(t)[0] - b(t)[0]) ** 2
                              + (a(t)[1] - b(t)[1]) ** 2), 'distance')


class CtxFn(Atom):
    def __init__(self, ctx, name, fn):
        self.ctx, self.name, self.fn = ctx, name, fn
        self.key = (ctx.label, name)

    def v_call(self, m, args, kwargs):
        m.world_event('context', self.ctx, self.name, args, kwargs)
        return self.fn(m, *args, **kwargs)

    def v_getattr(self, m, name):
        if name in ('__name__', '__qualname__'):
            return self.name
        m.raise_('AttributeError', name)

    def v_is(self, m, other):
        return (isinstance(other, CtxFn) and other.ctx is self.ctx
                and other.name == self.name)

    def v_eq(self, m, other):
        return self.v_is(m, other)


def P(name):
    """Point atom reading coordinate ``name`` of the situation."""
    return Pt(lambda t: t[name], str(name))


# ------------------------------------------------- order types of point sets
def signature(pts):
    """Order type of a tuple of points: everything comparisons and
    orientations can tell about it."""
    n = len(pts)
    xs = sorted({p[0] for p in pts})
    ys = sorted({p[1] for p in pts})
    sig = [(xs.index(p[0]), ys.index(p[1])) for p in pts]
    for i in range(n):
        for j in range(i + 1, n):
            for k in range(j + 1, n):
                sig.append(orient(pts[i], pts[j], pts[k]))
    return tuple(sig)
