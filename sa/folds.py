"""The functions that turn the reported pieces of a sweep into a relation.

They are interpreted on streams of unknown length of pieces of unknown kind;
paths that reach the same abstract state (values of all locals plus the set
of kinds met so far) are merged, so the analysis ends with a fixpoint that
covers streams of any length.
"""
from __future__ import annotations

import itertools

from .anchors import (FOLDS, KIND, event_class, fold_func, heap_attr,
                      queue_class, sweep_func)
from .kit import (MissingAnchor, attr, enum, exc_name, explore, func_site,
                  method, name_of, program, ret_site)
from .vm import Atom, Machine, Native, Obj, Unsupported
from .world import Ctx, Num, P, Stats, World

POSITIONS = ('inside', 'outside', 'same', 'opposite')
BOUND = 14


def kinds(fold):
    """Kinds ``(role, position, contact)`` of pieces that can be reported."""
    result = []
    for role in (True, False):
        if fold == 'open':
            for r in ('DISJOINT', 'TOUCH', 'CROSS', 'OVERLAP'):
                result.append((role, None, r))
            continue
        for p in ('inside', 'outside'):
            for r in ('DISJOINT', 'TOUCH', 'CROSS'):
                result.append((role, p, r))
        for p in ('same', 'opposite'):
            result.append((role, p, 'OVERLAP'))
    return result


_TEMPLATES = {}


def template(fold, kind):
    key = fold == 'open', kind
    if key in _TEMPLATES:
        return _TEMPLATES[key]
    role, position, relation = kind
    p = program()
    m = Machine(p)
    m.world = World([], [{'a': (0, 0), 'b': (2, 1)}], set())
    cls = event_class(KIND[fold])
    ev = method(m, cls, 'from_endpoints', (P('a'), P('b')), role)
    m.setattr_(ev, 'relation',
               enum('orient.core.enums', 'SegmentsRelation')[relation])
    names = ('inside', 'outside', 'is_common_region_boundary',
             'is_common_polyline_component')
    if position is not None:
        over = enum('orient.core.enums', 'OverlapKind')
        m.setattr_(ev, 'overlap_kind',
                   over[{'same': 'SAME_ORIENTATION',
                         'opposite': 'DIFFERENT_ORIENTATION'}.get(position,
                                                                  'NONE')])
        m.setattr_(ev, 'other_interior_to_left', position != 'outside')
        got = tuple(attr(m, ev, n) for n in names)
        want = tuple(position == q for q in POSITIONS)
        if tuple(map(bool, got)) != want:
            raise Unsupported('an event of kind %r cannot be made' % (kind,))
    if (attr(m, ev, 'from_test') is not role
            or attr(m, ev, 'from_goal') is role):
        raise Unsupported('an event of kind %r cannot be made' % (kind,))
    _TEMPLATES[key] = ev
    return ev


def fresh(fold, kind):
    t = template(fold, kind)
    ev = Obj(t.cls, dict(t.f))
    right = t.f.get('right')
    if isinstance(right, Obj):
        r = Obj(right.cls, dict(right.f))
        if r.f.get('left') is t:
            r.f['left'] = ev
        ev.f['right'] = r
    return ev


class Stream(Atom):
    key = 'stream'

    def __init__(self, fold, bound):
        self.fold, self.bound = fold, bound

    def v_iter(self, m):
        return self

    def v_next(self, m):
        w = m.world
        if w.ended:
            return False, None
        w.checkpoint(m)
        options = w.options
        if w.count >= self.bound:
            w.ended = True
            return False, None
        c = w.choose(len(options) + 1)
        if c == 0:
            w.ended = True
            return False, None
        kind = options[c - 1]
        w.count += 1
        w.facts |= {kind}
        w.stream.append(kind)
        return True, fresh(self.fold, kind)


class Heap(Atom):
    """What a sweep leaves behind, nothing or anything of one operand."""

    key = 'heap'

    def __init__(self, fold):
        self.fold = fold

    def leftover(self, m):
        w = m.world
        if w.left == '?':
            if not w.ended:
                raise Unsupported('queue examined before the sweep')
            w.left = (None, True, False)[w.choose(3)]
        return w.left

    def v_bool(self, m):
        return self.leftover(m) is not None

    def v_len(self, m):
        m.raise_('TypeError', 'no length')

    def head(self, m):
        role = self.leftover(m)
        if role is None:
            m.raise_('ValueError', 'empty')
        return fresh(self.fold, (role, None, 'DISJOINT')
                     if self.fold == 'open'
                     else (role, 'outside', 'DISJOINT'))

    def v_getattr(self, m, name):
        if name in ('peek', 'pop'):
            return Native(name, lambda m, a, k: self.head(m))
        if name == '__bool__':
            return Native('__bool__', lambda m, a, k: self.v_bool(m))
        m.raise_('AttributeError', name)


def queue_model(m, fold):
    """Queue of the class the function works with, its contents unknown."""
    q = m.call(queue_class(KIND[fold]), Ctx())
    name = heap_attr(q)
    if name is None:
        raise Unsupported('queue keeps no priority queue')
    q.f[name] = Heap(fold)
    return q


def fold_hooks(fold, stream):
    """The sweep reports the stream."""
    def sweep(m, func, args, kwargs):
        m.world.stops.append((args[1:], kwargs))
        return stream()
    return {sweep_func(KIND[fold]).key: sweep}


class FoldWorld(World):
    def __init__(self, prefix, universe, visited, memo=None):
        super().__init__(prefix, universe, visited, memo)
        self.facts = frozenset()
        self.ended = False
        self.left = '?'
        self.stream = []
        self.stops = []
        self.count = 0
        self.options = OPTIONS
        self.fold = FOLD

    def state_key(self):
        return ghost(self.fold, self.facts), self.ended, self.left


OPTIONS = ()
FOLD = None
_GHOSTS = {}


def ghost(fold, kinds):
    """All that the meaning of a stream depends on."""
    key = fold, kinds
    g = _GHOSTS.get(key)
    if g is None:
        f = Facts(kinds, None)
        if fold == 'open':
            g = (frozenset(f.rest), frozenset(f.overlap), f.cross, f.touch,
                 None if f.overlap else frozenset(f.touching))
        else:
            g = (f.TI, f.TO, f.GI, f.GO, f.cross,
                 None if f.overlap else frozenset(f.touching),
                 (frozenset(f.S), frozenset(f.D)) if fold == 'compound'
                 else frozenset(f.overlap),
                 frozenset(f.rest) if fold == 'linear-compound' else None)
        _GHOSTS[key] = g
    return g


# ------------------------------------------------------------------- meaning
class Facts:
    """What occurred, by the definition of the relations."""

    def __init__(self, kinds, left):
        has = lambda **k: any(all(v == {'role': x[0], 'pos': x[1],
                                        'rel': x[2]}[n]
                                  for n, v in k.items()) for x in kinds)
        self.TI = has(role=True, pos='inside')
        self.TO = has(role=True, pos='outside') or left is True
        self.GI = has(role=False, pos='inside')
        self.GO = has(role=False, pos='outside') or left is False
        self.S = {r for r in (True, False) if has(role=r, pos='same')}
        self.D = {r for r in (True, False) if has(role=r, pos='opposite')}
        self.touch = has(rel='TOUCH')
        self.cross = has(rel='CROSS')
        self.overlap = {r for r in (True, False)
                        if has(role=r, rel='OVERLAP')}
        self.rest = {r for r in (True, False)
                     if any(x[0] is r and x[2] != 'OVERLAP' for x in kinds)
                     or left is r}
        self.contact = self.touch or self.cross or bool(self.overlap)
        self.roles = {x[0] for x in kinds} | ({left} if left is not None
                                              else set())
        touching = {x[0] for x in kinds if x[2] in ('TOUCH', 'CROSS')}
        self.touching = touching


def expected(fold, kinds, left):
    """Relation, or None when no pair of valid operands behaves so."""
    f = Facts(kinds, left)
    if f.roles != {True, False}:
        return None
    if len(f.overlap) == 1:
        return None
    if f.touching and not f.overlap and len(f.touching) == 1:
        return None
    if fold == 'open':
        t, g = True not in f.rest, False not in f.rest
        if t and g:
            return 'EQUAL'
        if g:
            return 'COMPOSITE'
        if t:
            return 'COMPONENT'
        return ('OVERLAP' if f.overlap else 'CROSS' if f.cross
                else 'TOUCH' if f.touch else 'DISJOINT')
    if fold == 'compound' and (len(f.S) == 1 or len(f.D) == 1):
        return None
    S, D = bool(f.S), bool(f.D)
    if fold == 'closed':
        common = S or D
        alone = {True: f.TI or f.TO, False: f.GI or f.GO}
        if not alone[True] and not alone[False]:
            return 'EQUAL' if common else None
        if common:
            # a closed curve is no proper part of another one
            if not (alone[True] and alone[False]):
                return None
            if not (f.TO or f.GO):
                return None
            # one of them has the outermost point unless it is common
            return 'OVERLAP'
        if not (f.TO or f.GO):
            return None
        crossing = f.TI and f.TO
        if crossing != (f.GI and f.GO) or crossing and not f.contact:
            return None
        if f.cross and not crossing:
            return None
        if f.TI and f.GI and not crossing:
            return None
        return ('CROSS' if crossing else 'TOUCH' if f.contact
                else 'DISJOINT')
    if fold == 'linear-compound':
        if f.TI and f.TO:
            return 'CROSS'
        if f.TO:
            return 'TOUCH' if f.contact else 'DISJOINT'
        if f.TI:
            return 'ENCLOSED' if f.contact else 'WITHIN'
        return 'COMPONENT' if f.overlap else None
    # compound
    t = not f.TO and not D and not f.GI
    g = not f.GO and not D and not f.TI
    if t and g:
        if not S:
            return None
        r = 'EQUAL'
    elif t:
        r = ('WITHIN' if not f.contact else
             'ENCLOSED' if f.TI else 'COMPONENT')
    elif g:
        r = ('COVER' if not f.contact else
             'ENCLOSES' if f.GI else 'COMPOSITE')
    elif S or f.TI or f.GI:
        r = 'OVERLAP'
    else:
        r = 'TOUCH' if f.contact else 'DISJOINT'
    if f.cross and r != 'OVERLAP':
        # crossing boundaries have pieces on both sides of each other
        return None
    return r


def completions(fold, kinds, all_kinds):
    """Feasible answers of all streams that begin with these kinds."""
    answers = {}
    base = frozenset(kinds)
    extra = [k for k in all_kinds if k not in base]
    todo, seen = [base], {ghost(fold, base)}
    while todo:
        now = todo.pop()
        for left in (None, True, False):
            e = expected(fold, now, left)
            if e is not None and e not in answers:
                answers[e] = (sorted(map(str, now)), left)
        for k in extra:
            nxt = now | {k}
            g = ghost(fold, nxt)
            if g not in seen:
                seen.add(g)
                todo.append(nxt)
    return answers


def show(kinds):
    return ', '.join('%s %s%s' % ('test' if r else 'goal',
                                  (p + ' ') if p else '', c)
                     for r, p, c in kinds)


def fold_task(rep, fold, rule, visit=None):
    """All streams of pieces through one function."""
    global OPTIONS, FOLD
    func = fold_func(fold)
    where = func_site(func)
    rep.sites.add(where)
    all_kinds = kinds(fold)
    OPTIONS = all_kinds
    FOLD = fold
    for k in all_kinds:
        template(fold, k)

    def explore_with(bound, max_paths):
        def run(m, w):
            q = queue_model(m, fold)
            return m.call(func, q, Num(lambda t: 0, 'stop_x', True))
        return explore(program(), run, make_world=FoldWorld,
                       stats=rep.stats, limit=200000, max_paths=max_paths,
                       hooks=fold_hooks(fold, lambda: Stream(fold, bound)))

    cache = {}

    def examine(outcomes):
        for o in outcomes:
            w = o.world
            left = None if w.left == '?' else w.left
            if visit is not None:
                visit(rep, o)
            if w.ended:
                # leftovers the function did not ask for may be anything
                lefts = (None, True, False) if w.left == '?' else (w.left,)
                want = {}
                for l in lefts:
                    e = expected(fold, w.facts, l)
                    if e is not None:
                        want.setdefault(e, l)
            else:
                g = ghost(fold, w.facts)
                if g not in cache:
                    cache[g] = completions(fold, w.facts, all_kinds)
                want = cache[g]
            rep.ob(rule)
            if not want:
                continue
            got = (name_of(o.value) if o.exc is None
                   else 'raises ' + exc_name(o.exc))
            bad = [e for e in want if e != got]
            site = ret_site(o.machine) if o.exc is None else (
                o.where or [where])[0]
            if bad:
                rep.violation(
                    rule, '%s: %s instead of %s' % (FOLDS[fold], got,
                                                    bad[0]), site,
                    'pieces met in order: %s; left unswept: %s%s' % (
                        show(w.stream) or 'none',
                        {None: 'nothing', True: 'test',
                         False: 'goal'}[left],
                        '' if w.ended else '; returns before the sweep '
                        'is finished'))
            else:
                rep.sample('%s: %s%s -> %s' % (
                    FOLDS[fold], show(w.stream),
                    '' if left is None else ', left %s' % (
                        'test' if left else 'goal'), got), 4)
    try:
        examine(explore_with(BOUND, 25000))
    except Unsupported as e:
        if 'path limit' not in str(e):
            raise
        rep.notes.append('%s keeps the pieces it meets; streams of up to '
                         'three pieces analysed' % FOLDS[fold])
        examine(explore_with(3, None))


MIRROR = {'COVER': 'WITHIN', 'WITHIN': 'COVER', 'ENCLOSES': 'ENCLOSED',
          'ENCLOSED': 'ENCLOSES', 'COMPOSITE': 'COMPONENT',
          'COMPONENT': 'COMPOSITE'}


def symmetry_task(rep, fold, rule):
    """Exchanging the operands of a stream complements the verdict.

    Every stream the fixpoint needs is taken with its operands exchanged as
    well; only streams that valid operands can produce count."""
    global OPTIONS, FOLD
    func = fold_func(fold)
    where = func_site(func)
    streams = {}

    def visit(rep, o):
        w = o.world
        if not w.ended:
            return
        lefts = (None, True, False) if w.left == '?' else (w.left,)
        got = (name_of(o.value) if o.exc is None
               else 'raises ' + exc_name(o.exc))
        for left in lefts:
            if expected(fold, w.facts, left) is not None:
                streams[tuple(w.stream), left] = got, (
                    ret_site(o.machine) if o.exc is None
                    else (o.where or [where])[0])
    r = type(rep)()
    fold_task(r, fold, rule, visit)
    rep.stats.add(r.stats)
    rep.sites |= r.sites
    for (stream, left), (got, site) in streams.items():
        mirrored = [(not role, p, c) for role, p, c in stream]
        other = run_stream(rep, func, fold, mirrored,
                           None if left is None else not left)
        rep.ob(rule)
        if other != MIRROR.get(got, got):
            rep.violation(rule, '%s: %s but %s' % (FOLDS[fold], got, other),
                          site, 'pieces met: %s; left unswept: %s; with the '
                          'operands exchanged it is %s'
                          % (show(stream), left, other))
        else:
            rep.sample('%s: %s -> %s, exchanged %s' % (
                FOLDS[fold], show(stream), got, other), 3)


def run_stream(rep, func, fold, stream, left):
    class Fixed(FoldWorld):
        def __init__(self, *args):
            super().__init__(*args)
            self.left = left

        def checkpoint(self, m, extra=()):
            pass

    class FixedStream(Stream):
        def v_next(self, m):
            w = m.world
            if w.count >= len(stream):
                w.ended = True
                return False, None
            w.count += 1
            return True, fresh(fold, stream[w.count - 1])

    def run(m, w):
        q = queue_model(m, fold)
        w.ended = True
        return m.call(func, q, Num(lambda t: 0, 'stop_x', True))
    for o in explore(program(), run, make_world=Fixed, stats=rep.stats,
                     limit=200000, hooks=fold_hooks(
                         fold, lambda: FixedStream(fold, BOUND))):
        return (name_of(o.value) if o.exc is None
                else 'raises ' + exc_name(o.exc))
