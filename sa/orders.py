"""The order of end points and the order of segments on the sweep line."""
from __future__ import annotations

import itertools

from .anchors import event_class, line_class, queue_class, sweep_func
from .kit import (MissingAnchor, attr, exc_name, explore, func_site,
                  interface_changed, iterate, method, program)
from .scenes import (_lower, cross, run_scene,
                     scene_text, seg_relation, signature, stop_of, universe,
                     who)
from .vm import NULL
from .world import Ctx, P


def pair_universe(roles, grid=(4, 4)):
    """Order types of two segments, overlaps within one operand excluded."""
    return [t for t in universe(grid, roles)]


def make_event(m, kind, i, role):
    return method(m, event_class(kind), 'from_endpoints',
                  (P('s%d' % i), P('e%d' % i)), role)


# ----------------------------------------------------------- end points order
def expected_before(a, b):
    """Order of two end points ``(point, is left, other end, role)``:
    -1, 1 or None if both may be first."""
    (p, l, o, r), (q, k, u, s) = a, b
    if p != q:
        return -1 if p < q else 1
    if l is not k:
        return 1 if l else -1
    c = cross(p, o, u)
    if c == 0:
        return None
    # for left ends counterclockwise is higher, for right ends lower
    return -1 if (c > 0) is l else 1


def key_task(rep, kind, roles, rule):
    """Comparison of any two end points of two segments."""
    cls = queue_class(kind)
    construct = 'key of %s' % cls.name
    u = pair_universe(roles)
    collinear = {}
    for i, j in (((0, T), (1, T)), ((0, T), (1, F)), ((0, F), (1, T)),
                 ((0, F), (1, F)), ((0, T), (0, F)), ((1, F), (1, T))):
        def run(m, w):
            w.ctx = Ctx()
            q = m.call(cls, w.ctx)
            events = [make_event(m, kind, n, roles[n]) for n in range(2)]
            ends = [events[n] if left else attr(m, events[n], 'right')
                    for n, left in (i, j)]
            keys = [method(m, q, 'key', e) for e in ends]
            return (m.compare_sync('<', keys[0], keys[1]),
                    m.compare_sync('<', keys[1], keys[0]))
        for o in explore(program(), run, u, stats=rep.stats):
            if interface_changed(rep, o, construct):
                return
            for t in o.world.S:
                rep.ob(rule)
                segs = t['segs']
                text = '%s end of %s segment and %s end of %s segment in %s' % (
                    'left' if i[1] else 'right', who(roles[i[0]]),
                    'left' if j[1] else 'right', who(roles[j[0]]),
                    scene_text(segs, roles, (T, T)))
                if o.exc is not None:
                    rep.violation(rule, construct, (o.where or ['?'])[0],
                                  'raises %s comparing %s'
                                  % (exc_name(o.exc), text))
                    break
                ab, ba = map(bool, o.value)
                a = ends_of(segs[i[0]], i[1]) + (roles[i[0]],)
                b = ends_of(segs[j[0]], j[1]) + (roles[j[0]],)
                want = expected_before(a, b)
                if want is None:
                    if roles[i[0]] is roles[j[0]]:
                        continue
                    if ab is ba:
                        rep.violation(rule, construct, where_lt(cls),
                                      'order is not strict for ' + text)
                    first = roles[i[0]] if ab else roles[j[0]]
                    collinear.setdefault(first, text)
                elif (ab, ba) != (want < 0, want > 0):
                    rep.violation(rule, construct, where_lt(cls),
                                  'wrong order (%s) of %s'
                                  % ('first before second' if ab else
                                     'second before first' if ba else
                                     'neither first', text))
    if len(collinear) > 1:
        rep.violation(rule, construct + ': collinear', where_lt(cls),
                      'of collinear segments with a common end point '
                      'sometimes that of test, sometimes that of goal is '
                      'first: %s; %s' % tuple(collinear.values()))


T, F = True, False


def ends_of(s, left):
    return (s[0], True, s[1]) if left else (s[1], False, s[0])


def where_lt(cls):
    try:
        k = program().get('orient.core.events_queue', 'EventsQueueKey')
        return func_site(k.lookup('__lt__')[0])
    except (MissingAnchor, AttributeError):
        return func_site(cls.lookup('__init__')[0])


def unsplit(segs, roles):
    for (s, r), (u, q) in itertools.combinations(zip(segs, roles), 2):
        rel = seg_relation(s, u)
        if rel == 'DISJOINT':
            continue
        if rel == 'TOUCH' and set(s) & set(u):
            continue
        return False
    return True


def processing_task(rep, kind, roles, sides, grid, sample, rule, part=(0, 1)):
    """Order in which the sweep reports the ends of unsplit segments."""
    u = [t for t in universe(grid, roles, sample, t_joints=False)
         if unsplit(t['segs'], roles)]
    u = u[len(u) * part[0] // part[1]:len(u) * (part[0] + 1) // part[1]]
    if not u:
        return
    cls = queue_class(kind)
    where = func_site(sweep_func(kind))
    construct = '%s.sweep' % cls.name
    rep.sites.add(where)
    run = run_scene(kind, roles, sides)
    for o in explore(program(), run, u, stats=rep.stats, limit=400000):
        for t in o.world.S:
            rep.ob(rule)
            text = scene_text(t['segs'], roles, sides)
            if o.exc is not None:
                rep.violation(rule, construct, (o.where or [where])[0],
                              'raises %s on %s' % (exc_name(o.exc), text))
                break
            seen, ends = set(), []
            for e in o.world.notes['events']:
                i = id(e['event'])
                s, f = (p.ev(t) for p in o.world.notes['final'][i])
                left = i not in seen
                seen.add(i)
                ends.append((s, True, f, e['from_test']) if left
                            else (f, False, s, e['from_test']))
            for a, b in zip(ends, ends[1:]):
                if expected_before(a, b) == 1:
                    rep.violation(rule, construct, where,
                                  '%s end %s of %s is processed before %s '
                                  'end %s of %s in %s' % (
                                      'left' if a[1] else 'right', a[0],
                                      who(a[3]), 'left' if b[1] else 'right',
                                      b[0], who(b[3]), text))
                    break
            stop = stop_of(roles).ev(t)
            want = sum((s[0][0] <= stop) + (s[1][0] <= stop)
                       for s in t['segs'])
            if len(ends) != want:
                rep.violation(rule, construct + ': number', where,
                              '%d of %d ends are processed in %s'
                              % (len(ends), want, text))


# ---------------------------------------------------------- sweep line order
def line_task(rep, kind, roles, rule):
    """Two segments on the sweep line, for every mutual position."""
    try:
        cls = line_class()
    except MissingAnchor:
        rep.skip('SweepLine', 'no such class')
        return
    construct = 'SweepLine'
    key = program().modules[cls.module].d.get('SweepLineKey')
    where = (func_site(key.lookup('__lt__')[0])
             if key is not None and key.lookup('__lt__')[0] is not NULL
             else func_site(cls.lookup('add')[0]))
    rep.sites.add(where)
    u = []
    for t in pair_universe(roles):
        s, r = t['segs']
        if max(s[0], r[0]) < min(s[1], r[1]):
            u.append(t)
    collinear = {}
    for first in (0, 1):
        def run(m, w):
            w.ctx = Ctx()
            line = m.call(cls, w.ctx)
            ev = [make_event(m, kind, n, roles[n]) for n in range(2)]
            a, b = ev[first], ev[1 - first]
            method(m, line, 'add', a)
            alone = (method(m, line, 'above', a) is None
                     and method(m, line, 'below', a) is None)
            method(m, line, 'add', b)
            inside = (contains(m, line, a), contains(m, line, b))

            def label(e):
                return (None if e is None else
                        0 if e is ev[0] else 1 if e is ev[1] else '?')
            view = tuple(label(method(m, line, n, e)) for e in ev
                         for n in ('below', 'above'))
            method(m, line, 'remove', b)
            after = (contains(m, line, a), contains(m, line, b))
            return alone, inside, view, after
        for o in explore(program(), run, u, stats=rep.stats):
            if interface_changed(rep, o, construct):
                return
            for t in o.world.S:
                rep.ob(rule)
                segs = t['segs']
                text = scene_text(segs, roles, (T, T))
                if o.exc is not None:
                    rep.violation(rule, construct, (o.where or [where])[0],
                                  'raises %s on %s' % (exc_name(o.exc),
                                                       text))
                    break
                alone, inside, view, after = o.value
                if not alone:
                    rep.violation(rule, construct + ': neighbours', where,
                                  'a single segment has a neighbour: '
                                  + text)
                if inside != (True, True) or after != (True, False):
                    rep.violation(rule, construct + ': membership', where,
                                  'segments are not found or not removed '
                                  'again: ' + text)
                    continue
                at = max(segs[0][0], segs[1][0])
                c = _lower(segs[0], segs[1], at)
                low = view == (None, 1, 0, None)
                high = view == (1, None, None, 0)
                if not (low or high):
                    rep.violation(rule, construct + ': strictness', where,
                                  'segments do not see each other as '
                                  'neighbours: ' + text)
                elif c == 0:
                    lower = roles[0] if low else roles[1]
                    collinear.setdefault(lower, text)
                elif low != (c < 0):
                    rep.violation(rule, construct + ': order', where,
                                  'the lower segment counts as the higher '
                                  'one: ' + text)
    if len(collinear) > 1:
        rep.violation(rule, construct + ': collinear', where,
                      'of collinear segments sometimes that of test, '
                      'sometimes that of goal is lower: %s; %s'
                      % tuple(collinear.values()))


def contains(m, line, e):
    r = m.compare_in(line, e)
    return bool(r)


def triple_task(rep, kind, roles, rule, sample, part=(0, 1)):
    """Three segments on the sweep line: neighbours by height."""
    try:
        cls = line_class()
    except MissingAnchor:
        rep.skip('SweepLine', 'no such class')
        return
    u = []
    for t in universe((3, 4), roles, sample, t_joints=False):
        segs = t['segs']
        at = max(s[0] for s in segs)
        if at < min(s[1] for s in segs) and all(
                seg_relation(a, b) in ('DISJOINT', 'TOUCH')
                for a, b in itertools.combinations(segs, 2)):
            u.append(t)
    u = u[len(u) * part[0] // part[1]:len(u) * (part[0] + 1) // part[1]]
    if not u:
        return
    where = func_site(cls.lookup('add')[0])
    for order in ((0, 1, 2), (2, 0, 1)):
        def run(m, w):
            w.ctx = Ctx()
            line = m.call(cls, w.ctx)
            ev = [make_event(m, kind, n, roles[n]) for n in range(3)]
            for n in order:
                method(m, line, 'add', ev[n])
            names = {id(e): n for n, e in enumerate(ev)}
            view = [tuple(None if x is None else names.get(id(x))
                          for x in (method(m, line, 'below', e),
                                    method(m, line, 'above', e)))
                    for e in ev]
            method(m, line, 'remove', ev[0])
            rest = [tuple(None if x is None else names.get(id(x))
                          for x in (method(m, line, 'below', e),
                                    method(m, line, 'above', e)))
                    for e in ev[1:]]
            return view, rest
        for o in explore(program(), run, u, stats=rep.stats):
            if interface_changed(rep, o, 'SweepLine'):
                return
            for t in o.world.S:
                rep.ob(rule)
                segs = t['segs']
                text = scene_text(segs, roles, (T, T, T))
                if o.exc is not None:
                    rep.violation(rule, 'SweepLine', (o.where or [where])[0],
                                  'raises %s on %s' % (exc_name(o.exc),
                                                       text))
                    break
                at = max(s[0] for s in segs)
                ranks = sorted(range(3), key=_cmp_key(segs, at))
                want = neighbours(ranks)
                want_rest = neighbours([n for n in ranks if n])
                if (o.value[0] != [want[n] for n in range(3)]
                        or o.value[1] != [want_rest[n] for n in (1, 2)]):
                    rep.violation(rule, 'SweepLine: neighbours', where,
                                  'wrong neighbours in ' + text)


def _cmp_key(segs, at):
    from functools import cmp_to_key
    return cmp_to_key(lambda i, j: _lower(segs[i], segs[j], at))


def neighbours(ranks):
    return {n: (ranks[i - 1] if i else None,
                ranks[i + 1] if i + 1 < len(ranks) else None)
            for i, n in enumerate(ranks)}
