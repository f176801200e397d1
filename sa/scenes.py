"""Sweeps of a few segments over all their order types.

The real queue classes are interpreted abstractly on segments whose end
points are unknown: the abstract state is the set of order types compatible
with the comparisons and orientations observed so far.  What the sweep
reports is compared with the arrangement of the segments.
"""
from __future__ import annotations

import itertools
import random
from functools import cmp_to_key

from .anchors import (event_class, queue_class, register_func, sweep_func)
from .kit import (MissingAnchor, StepLimit, attr, exc_name, explore, func_site,
                  interface_changed, iterate, method, name_of, program,
                  ret_site)
from .vm import NULL
from .world import (Ctx, Num, P, cross, on_segment, orient, seg_point,
                    seg_relation, signature)



# ------------------------------------------------------------------ universes
def valid(segs, roles, t_joints=True):
    """No two segments of one operand overlap or cross."""
    for (s, r), (u, q) in itertools.combinations(zip(segs, roles), 2):
        if r is q:
            rel = seg_relation(s, u)
            if rel not in ('DISJOINT', 'TOUCH'):
                return False
            if (rel == 'TOUCH' and not t_joints
                    and not (set(s) & set(u))):
                return False
    return True


_UNIVERSES = {}


def universe(grid, roles, sample=None, seed=1, t_joints=True, keep=None,
             limit=None):
    """Order types of segments with given operands (True - test)."""
    key = grid, roles, sample, seed, t_joints, keep, limit
    if key in _UNIVERSES:
        return _UNIVERSES[key]
    if isinstance(grid, str):
        combos = FAMILIES[grid](roles)
        k = len(roles)
    else:
        combos, k = _grid_combos(grid, roles, sample, seed)
    found = {}
    for n, c in enumerate(combos):
        if limit is not None and n >= limit:
            break
        if not valid(c, roles, t_joints):
            continue
        if keep is not None and not keep(c, roles):
            continue
        ps = tuple(p for s in c for p in s)
        sig = signature(ps)
        if sig not in found:
            t = {}
            for i, s in enumerate(c):
                t['s%d' % i], t['e%d' % i] = s
            t['segs'] = c
            found[sig] = t
    result = [found[s] for s in sorted(found)]
    if isinstance(grid, str) and sample is not None and len(result) > sample:
        rng = random.Random(seed)
        picked = sorted(rng.sample(range(len(result)), sample))
        result = [result[i] for i in picked]
    _UNIVERSES[key] = result
    return result


def _grid_combos(grid, roles, sample, seed):
    w, h = grid
    pts = [(x, y) for x in range(w) for y in range(h)]
    segs = list(itertools.combinations(pts, 2))
    k = len(roles)
    if sample is None:
        combos = itertools.product(segs, repeat=k)
    else:
        rng = random.Random(seed)
        combos = (tuple(rng.choice(segs) for _ in range(k))
                  for _ in range(sample))
    # segments of one operand are interchangeable
    return (c for c in combos
            if not any(roles[i] is roles[i + 1] and c[i] >= c[i + 1]
                       for i in range(k - 1))), k


def stacks(roles):
    """Segments one above the other, entering and leaving in any order."""
    k = len(roles)
    for starts in itertools.product(range(2), repeat=k):
        for ends in itertools.product((4, 5), repeat=k):
            yield tuple(((a, i), (b, i))
                        for i, (a, b) in enumerate(zip(starts, ends)))
    for starts in itertools.permutations(range(k)):
        yield tuple(((a, i), (k + 1, i)) for i, a in enumerate(starts))
        yield tuple(((0, i), (k + 1 + a, i)) for i, a in enumerate(starts))


def layers(roles):
    """The same with segments of both operands on a common line."""
    k = len(roles)
    rng = random.Random(2 * k + sum(roles))
    for _ in range(8000):
        c, level = [], 0
        for i in range(k):
            if i and (roles[i] is roles[i - 1] or rng.random() < .5
                      or i > 1 and c[i - 2][0][1] == level):
                level += 1
            c.append(((rng.randrange(3), level), (3 + rng.randrange(3),
                                                  level)))
        yield tuple(c)


def stars(roles):
    """Segments that start, end or pass through one point."""
    ring = [(2, 0), (2, 1), (1, 2), (0, 2), (-1, 2), (-2, 1), (-2, 0),
            (-2, -1), (-1, -2), (0, -2), (1, -2), (2, -1)]
    ring = ring[::2] + ring[1::4]
    o = (0, 0)
    options = [tuple(sorted((o, r))) for r in ring]
    options += [tuple(sorted(((-x, -y), (x, y)))) for x, y in ring
                if (-x, -y) in ring and (x, y) > o]
    k = len(roles)
    rng = random.Random(k * 7 + sum(roles))
    for _ in range(6000):
        c = [rng.choice(options) for _ in range(k)]
        yield tuple(c)


def rays(roles):
    """Segments that start or end in one point."""
    ring = [(2, 0), (2, 1), (1, 2), (0, 2), (-1, 2), (-2, 1), (-2, 0),
            (-2, -1), (-1, -2), (0, -2), (1, -2), (2, -1)]
    o = (0, 0)
    k = len(roles)
    n = sum(roles)
    rng = random.Random(k)
    for _ in range(4000):
        rs = rng.sample(ring, k)
        yield tuple(tuple(sorted((o, r))) for r in rs)


def lunes(roles):
    """Two segments that meet after the ones between them have ended."""
    rng = random.Random(3)
    k = len(roles)
    for _ in range(3000):
        top = ((0, 8), (rng.choice((10, 12)), rng.choice((2, 3, 4, 6))))
        bottom = ((0, -1), (rng.choice((10, 12)), rng.choice((4, 6, 3, 7))))
        inner = []
        for i in range(k - 2):
            x = rng.choice((0, 0, 1))
            y = rng.choice((1, 2, 3, 4, 5, 6))
            inner.append(((x, y), (rng.choice((2, 3)), rng.choice((2, 3, 4,
                                                                   5)))))
        c = [top, bottom] + inner
        rng.shuffle(c)
        yield tuple(c)


def teeth(roles):
    """Chains of overlapping collinear segments."""
    line = [(0, 0), (2, 1), (4, 2), (6, 3), (8, 4)]
    other = [(2, 0), (4, 4), (6, 0), (0, 2), (8, 0)]
    segs = list(itertools.combinations(line, 2))
    segs += [tuple(sorted((a, b))) for a in line for b in other]
    rng = random.Random(5)
    for _ in range(8000):
        yield tuple(rng.choice(segs) for _ in roles)


FAMILIES = {'stacks': stacks, 'layers': layers, 'stars': stars, 'rays': rays, 'lunes': lunes,
            'teeth': teeth}


def interacting(c, roles):
    """Every segment meets or faces another one (drops idle scenes)."""
    for i, s in enumerate(c):
        if not any(seg_relation(s, u) != 'DISJOINT'
                   for j, u in enumerate(c) if i != j):
            return False
    return True


# --------------------------------------------------------------------- oracle
class Piece:
    __slots__ = ('seg', 'start', 'end', 'relation', 'other', 'overlap',
                 'value', 'loose')

    def __init__(self, seg, start, end):
        self.seg, self.start, self.end = seg, start, end
        self.relation = {}
        self.overlap = None
        self.value = None


def contacts(s, u):
    """Points of segment ``s`` where segment ``u`` makes it split."""
    r = seg_relation(s, u)
    if r == 'DISJOINT':
        return []
    if r in ('TOUCH', 'CROSS'):
        return [seg_point(s, u)]
    lo, hi = max(s[0], u[0]), min(s[1], u[1])
    return [lo, hi]


def below(p, q, at):
    """Whether piece ``p`` lies lower than ``q`` just after point ``at``."""
    # compare along the sheared sweep x + eps * y right after ``at``
    a, b = (p.start, p.end), (q.start, q.end)
    return _lower(a, b, at)


def _vertical(s):
    return s[0][0] == s[1][0]


def _height(s, x):
    from fractions import Fraction
    (x0, y0), (x1, y1) = s
    return y0 + Fraction((y1 - y0)) * Fraction(x - x0) / Fraction(x1 - x0)


def _lower(a, b, at):
    """Segments spanning the sheared position right after ``at``; value is
    negative if ``a`` is lower, zero if collinear."""
    def key(s):
        if _vertical(s):
            # passes the position at the height of the sweep point
            return (at[1], 1, 0)
        from fractions import Fraction
        h = _height(s, at[0])
        slope = Fraction(s[1][1] - s[0][1]) / Fraction(s[1][0] - s[0][0])
        return (h, 0, slope)
    ka, kb = key(a), key(b)
    if ka[0] != kb[0]:
        return -1 if ka[0] < kb[0] else 1
    if ka[1:] == kb[1:]:
        return 0
    if ka[0] > at[1]:
        # higher points of the sheared sweep lie to the left
        return -1 if ka[1:] > kb[1:] else 1
    # same height: a vertical one goes up along the sheared sweep
    return -1 if ka[1:] < kb[1:] else 1


def arrangement(segs, roles, sides, kind):
    """Pieces with what must be known about them after the sweep."""
    pieces = []
    breaks = []
    for i, s in enumerate(segs):
        ps = {s[0], s[1]}
        for j, u in enumerate(segs):
            if i != j:
                ps.update(contacts(s, u))
        ps = sorted(ps)
        breaks.append(ps)
        for p, q in zip(ps, ps[1:]):
            pieces.append(Piece(i, p, q))
    # contacts
    linear_vertices(pieces, roles, kind)
    for p, q in itertools.combinations(pieces, 2):
        if roles[p.seg] is roles[q.seg]:
            continue
        if (p.start, p.end) == (q.start, q.end):
            p.overlap = q
            q.overlap = p
            for v in (p.start, p.end):
                p.relation[v] = q.relation[v] = 3
            continue
        for v in {p.start, p.end} & {q.start, q.end}:
            original = (v in segs[p.seg] or v in segs[q.seg])
            r = 1 if original else 2
            p.relation[v] = max(p.relation.get(v, 0), r)
            q.relation[v] = max(q.relation.get(v, 0), r)
    # positions, in the order of starts
    for p in sorted(pieces, key=lambda p: p.start):
        _value(p, pieces, segs, roles, sides)
    return pieces, breaks


def interleave(a, b):
    """Whether two sets of rays, none common, separate each other."""
    rays = sorted([(v, 0) for v in a] + [(v, 1) for v in b],
                  key=cmp_to_key(lambda u, v: _angle_cmp(u[0], v[0])))
    changes = sum(rays[i - 1][1] != rays[i][1] for i in range(len(rays)))
    return changes > 2


def _half(v):
    return 0 if (v[1] > 0 or v[1] == 0 and v[0] > 0) else 1


def _angle_cmp(u, v):
    if _half(u) != _half(v):
        return _half(u) - _half(v)
    c = u[0] * v[1] - u[1] * v[0]
    return -1 if c > 0 else (1 if c < 0 else 0)


def linear_vertices(pieces, roles, kind):
    """Crossings of linear geometries in the vertices of their edges."""
    for p in pieces:
        p.loose = {}
    if kind != 'linear':
        return
    for v in {q for p in pieces for q in (p.start, p.end)}:
        here = [p for p in pieces if v in (p.start, p.end)]
        rays = {True: [], False: []}
        for p in here:
            o = p.end if p.start == v else p.start
            rays[roles[p.seg]].append((o[0] - v[0], o[1] - v[1]))
        if min(len(rays[True]), len(rays[False])) < 2:
            continue
        shared = any(_angle_cmp(a, b) == 0 for a in rays[True]
                     for b in rays[False])
        if shared:
            # the shared edge decides, whatever is found for the others
            for p in here:
                p.loose[v] = 2
        elif interleave(rays[True], rays[False]):
            for p in here:
                p.relation[v] = 2


def _value(p, pieces, segs, roles, sides):
    if p.value is not None:
        return p.value
    at = p.start
    best = None
    for q in pieces:
        if q is p or q.seg == p.seg:
            continue
        if not (q.start <= at < q.end):
            continue
        c = _lower((q.start, q.end), (p.start, p.end), at)
        if c == 0:
            # of coincident pieces the one of test is lower
            c = -1 if roles[q.seg] else 1
        if c < 0:
            if best is None:
                best = q
            else:
                d = _lower((best.start, best.end), (q.start, q.end), at)
                if d < 0 or d == 0 and roles[best.seg]:
                    best = q
    if best is None:
        p.value = False
    elif roles[best.seg] is roles[p.seg]:
        p.value = _value(best, pieces, segs, roles, sides)
    else:
        p.value = sides[best.seg]
    return p.value


# ------------------------------------------------------------------ scenarios
def run_scene(kind, roles, sides, order=None):
    """Machine program sweeping the segments."""
    cls = queue_class(kind)
    n = len(roles)
    stop = stop_of(roles)

    def run(m, w):
        w.ctx = Ctx()
        q = m.call(cls, w.ctx)
        for role in (order or (False, True)):
            ends = [(P('s%d' % i), P('e%d' % i)) if sides[i]
                    else (P('e%d' % i), P('s%d' % i))
                    for i in range(n) if roles[i] is role]
            register(m, q, kind, ends, role)
        events = []
        w.notes['events'] = events
        w.notes['queue'] = q
        for ev in iterate(m, method(m, q, sweep_func(kind), stop)):
            events.append(describe(m, ev, kind))
        m.notes_ret = ret_site(m)
        left = m.truth_sync(q) if not isinstance(q, bool) else q
        head = None
        if left:
            head = attr(m, method(m, q, 'peek'), 'from_test')
        final = {}
        for e in events:
            ev = e['event']
            if id(ev) not in final:
                final[id(ev)] = (attr(m, ev, 'start'), attr(m, ev, 'end'))
        w.notes['final'] = final
        w.notes['left'] = left, head
        return None
    return run


def register(m, q, kind, ends, role):
    f = register_func(kind)
    if 'from_test' in f.code.co_varnames[:f.code.co_argcount
                                         + f.code.co_kwonlyargcount]:
        return method(m, q, f, ends, from_test=role)
    if f.code.co_kwonlyargcount == 1:
        return method(m, q, f, ends,
                      **{f.code.co_varnames[f.code.co_argcount]: role})
    return method(m, q, f, ends, role)


def describe(m, ev, kind):
    d = {'event': ev, 'from_test': attr(m, ev, 'from_test'),
         'relation': name_of(attr(m, ev, 'relation'))}
    if kind == 'compound':
        for n in ('inside', 'outside', 'is_common_region_boundary',
                  'is_common_polyline_component'):
            d[n] = attr(m, ev, n)
    return d


def stop_of(roles):
    tests = [i for i, r in enumerate(roles) if r]
    goals = [i for i, r in enumerate(roles) if not r]

    def ev(t):
        segs = t['segs']
        if not tests or not goals:
            return max(p[0] for s in segs for p in s)
        return min(max(p[0] for i in tests for p in segs[i]),
                   max(p[0] for i in goals for p in segs[i]))
    return Num(ev, 'stop_x', True)


RELATIONS = ['DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP']


def judge(kind, roles, sides, o, t):
    """Mismatches ``(category, text)`` of one situation with the outcome."""
    segs = t['segs']
    stop = stop_of(roles).ev(t)
    text = scene_text(segs, roles, sides)
    if o.exc is not None:
        return [('exception', 'raises %s on %s' % (exc_name(o.exc), text))]
    pieces, breaks = arrangement(segs, roles, sides, kind)
    by_key = {}
    for p in pieces:
        by_key.setdefault((roles[p.seg], p.start, p.end), []).append(p)
    bad = []
    notes = o.world.notes
    last = {}
    for e in notes['events']:
        last[id(e['event'])] = e
    seen = {}
    order = None
    for i, e in last.items():
        s, f = notes['final'][i]
        s, f = s.ev(t), f.ev(t)
        role = e['from_test']
        k = role, s, f
        match = by_key.get(k)
        if match is None and f[0] > stop:
            # beyond the extent pieces need not be split any more
            match = [p for p in pieces if roles[p.seg] is role
                     and p.start == s and p.end[0] > stop
                     and cross(s, f, p.end) == 0
                     and f in breaks[p.seg]]
        if not match:
            bad.append(('pieces', 'reports a piece %s-%s of %s, which is no '
                        'piece of %s' % (s, f, who(role), text)))
            continue
        seen[k] = seen.get(k, 0) + 1
        p = match[0]
        want = max([r for v, r in p.relation.items() if v[0] <= stop]
                   or [0])
        # a piece may have inherited a contact of the segment it was cut from
        inherited = max([r for q in pieces if q.seg == p.seg
                         and q.start <= p.start
                         for v, r in [*q.relation.items(), *q.loose.items()]
                         if v <= p.start and r < 3] or [0])
        loose = max(list(p.loose.values()) + [0])
        got = RELATIONS.index(e['relation'])
        top = max(want, inherited, loose)
        if got != want and (got == 3 or want == 3 or not want < got <= top):
            bad.append(('relation', 'piece %s-%s of %s is %s, not %s, in %s'
                        % (s, f, who(role), e['relation'], RELATIONS[want],
                           text)))
    for e in notes['events']:
        s, f = notes['final'][id(e['event'])]
        s, f = s.ev(t), f.ev(t)
        role = e['from_test']
        match = by_key.get((role, s, f))
        if match is None and f[0] > stop:
            match = [p for p in pieces if roles[p.seg] is role
                     and p.start == s and cross(s, f, p.end) == 0]
        if not match:
            continue
        p = match[0]
        if kind == 'compound':
            if p.overlap is not None:
                same = sides[p.seg] is sides[p.overlap.seg]
                want = (False, False, same, not same)
            else:
                want = (p.value, not p.value, False, False)
            got = (e['inside'], e['outside'],
                   e['is_common_region_boundary'],
                   e['is_common_polyline_component'])
            if tuple(map(bool, got)) != want:
                cat = ('position' if want[2:] == (False, False)
                       and not (got[2] or got[3]) else 'overlap')
                bad.append((cat, 'piece %s-%s of %s is reported as %s, not '
                            '%s, in %s' % (s, f, who(role), kinds(got),
                                           kinds(want), text)))
    for k, ps in by_key.items():
        if k[1][0] > stop:
            continue
        if k[2][0] > stop and not seen.get(k):
            # may be joined with its continuation
            if any(q[0] is k[0] and q[1] == k[1] for q in seen):
                continue
        if not seen.get(k):
            bad.append(('pieces', 'piece %s-%s of %s is never reported in %s'
                        % (k[1], k[2], who(k[0]), text)))
        elif seen[k] > 1:
            bad.append(('pieces', 'piece %s-%s of %s is reported as %d '
                        'different pieces in %s'
                        % (k[1], k[2], who(k[0]), seen[k], text)))
    left, head = notes['left']
    want = any(p.end[0] > stop for p in pieces)
    if bool(left) != want:
        bad.append(('extent', '%s events are left beyond x = %s in %s'
                    % ('some' if left else 'no', stop, text)))
    elif left:
        owners = {roles[p.seg] for p in pieces if p.end[0] > stop}
        if len(owners) == 1 and head not in owners:
            bad.append(('extent', 'left events belong to %s in %s'
                        % (who(head), text)))
    return bad


def who(role):
    return 'test' if role else 'goal'


def kinds(v):
    names = ('inside', 'outside', 'common, same side',
             'common, opposite sides')
    return ' and '.join(n for n, b in zip(names, v) if b) or 'nothing'


def scene_text(segs, roles, sides):
    return ', '.join('%s %s-%s%s' % (who(r), s[0], s[1],
                                     '' if d else ' reversed')
                     for s, r, d in zip(segs, roles, sides))


def sweep_task(rep, kind, roles, sides, grid, sample, categories, rule,
               part=(0, 1), order=None, keep=None, t_joints=True,
               cap=40, seed=1):
    """Explores one family of scenes."""
    u = universe(grid, roles, sample, keep=KEEP.get(keep),
                 t_joints=t_joints, seed=seed)
    u = u[len(u) * part[0] // part[1]:len(u) * (part[0] + 1) // part[1]]
    if not u:
        return
    cls = queue_class(kind)
    construct = '%s.sweep' % cls.name
    where = '%s' % func_site(sweep_func(kind))
    rep.sites.add(where)
    run = run_scene(kind, roles, sides, order)
    try:
        for o in explore(program(), run, u, stats=rep.stats, limit=400000):
            for t in o.world.S[:cap]:
                rep.ob(rule)
                for cat, text in judge(kind, roles, sides, o, t):
                    if cat in categories:
                        rep.violation(rule + ': ' + cat, construct,
                                      (o.where or [where])[0], text)
            if o.exc is None:
                t = o.world.S[0]
                rep.sample('%s (%d order types) -> %s' % (
                    scene_text(t['segs'], roles, sides), len(o.world.S),
                    ', '.join('%s-%s %s' % (
                        o.world.notes['final'][id(e['event'])][0].ev(t),
                        o.world.notes['final'][id(e['event'])][1].ev(t),
                        e['relation']) for e in o.world.notes['events'])))
    except StepLimit as e:
        rep.violation(rule + ': termination', construct, where, str(e))


def joints(c, roles):
    """A segment touches an edge of its own operand."""
    return any(roles[i] is roles[j] and seg_relation(s, u) == 'TOUCH'
               and not set(s) & set(u)
               for (i, s), (j, u) in itertools.combinations(enumerate(c), 2))


KEEP = {None: None, 'interacting': interacting, 'joints': joints}


T, F = True, False


def scene_tasks(configs, categories, rule, parts=8):
    """``configs``: (kind, roles, sides, grid or family, sample)."""
    tasks = []
    for c in configs:
        kind, roles, sides, grid, sample = c[:5]
        keep = c[5] if len(c) > 5 else None
        joints = kind == 'linear' or keep == 'joints'
        n = parts if sample is None or sample > 300 else 2
        label = '%s scene of %d %s' % (kind, len(roles),
                                       'segments' if len(roles) > 1
                                       else 'segment')
        for i in range(n):
            tasks.append((sweep_task, (kind, roles, sides, grid, sample,
                                       # a position there may be settled
                                       # before the edge touched is divided
                                       tuple(c for c in categories
                                             if c != 'position'
                                             or keep != 'joints'),
                                       rule, (i, n), None, keep, joints)))
    return tasks


def pairs(kind, sides=True):
    """All order types of a segment of test and one of goal."""
    return [(kind, (T, F), s, (4, 4), None)
            for s in ([(T, T), (T, F), (F, T), (F, F)] if sides
                      else [(T, F)])]


def overlap_task(rep, kind, roles, rule):
    """Edges of one operand that run along each other are rejected."""
    pts = [(x, y) for x in range(4) for y in range(4)]
    segs = list(itertools.combinations(pts, 2))
    found = {}
    for s, u in itertools.product(segs, repeat=2):
        r = seg_relation(s, u)
        if r in ('EQUAL', 'COMPONENT', 'COMPOSITE', 'OVERLAP'):
            sig = signature(s + u)
            if sig not in found:
                found[sig] = {'s0': s[0], 'e0': s[1], 's1': u[0],
                              'e1': u[1], 'segs': (s, u)}
    cls = queue_class(kind)
    construct = '%s.detect_intersection' % cls.name
    func = cls.lookup('detect_intersection')[0]
    try:
        event_cls = event_class(kind)
        where = func_site(func)
    except MissingAnchor as e:
        rep.skip(construct, 'no such operation')
        return
    if func is NULL:
        rep.skip(construct, 'no such operation')
        return
    rep.sites.add(where)
    for sides in ((T, T), (T, F)):
        def run(m, w):
            w.ctx = Ctx()
            q = m.call(cls, w.ctx)
            events = []
            for i in range(2):
                ends = P('s%d' % i), P('e%d' % i)
                events.append(method(m, event_cls, 'from_endpoints',
                                     ends if sides[i] else ends[::-1],
                                     roles[i]))
            return method(m, q, 'detect_intersection', *events)
        for o in explore(program(), run, list(found.values()),
                         stats=rep.stats, limit=400000):
            if interface_changed(rep, o, construct):
                return
            t = o.world.S[0]
            rep.ob(rule, len(o.world.S))
            got = None if o.exc is None else exc_name(o.exc)
            if got != 'ValueError':
                rep.violation(
                        rule, construct, (o.where or [where])[0],
                        '%s %s on overlapping edges of one operand: %s'
                        % ('raises' if got else 'does not raise',
                           got or 'ValueError',
                           scene_text(t['segs'], roles, sides)))


def mirror_task(rep, kind, roles, sides, grid, sample, rule, part=(0, 1),
                cap=40):
    """Exchanging the operands of a scene does not change what is found."""
    mirrored = tuple(not r for r in roles)
    u = universe(grid, roles, sample, t_joints=kind == 'linear')
    u = u[len(u) * part[0] // part[1]:len(u) * (part[0] + 1) // part[1]]
    if not u:
        return
    cls = queue_class(kind)
    where = func_site(sweep_func(kind))
    rep.sites.add(where)
    wrong = {}
    for way, rs in enumerate((roles, mirrored)):
        run = run_scene(kind, rs, sides)
        try:
            for o in explore(program(), run, u, stats=rep.stats,
                             limit=400000):
                for t in o.world.S:
                    bad = judge(kind, rs, sides, o, t)
                    if bad:
                        wrong.setdefault(id(t), {})[way] = bad[0][1], t
        except StepLimit as e:
            wrong.setdefault(None, {})[way] = str(e), None
    rep.ob(rule, len(u))
    for i, ways in wrong.items():
        if len(ways) == 1:
            way, (detail, t) = next(iter(ways.items()))
            rep.violation(rule, '%s.sweep' % cls.name, where,
                          detail + '; not so with the operands exchanged')
