"""Splitting a segment loses nothing and keeps its history."""
from ..anchors import event_class
from ..kit import (MissingAnchor, attr, enum, exc_name, explore, func_site,
                   interface_changed, method, name_of, program)
from ..scenes import F, T, pairs, scene_tasks
from ..world import Ctx, P

CATEGORIES = ('pieces', 'relation', 'overlap', 'exception')
RULE = 'pieces of the swept segments'
EXPLANATION = (
    'Abstract interpretation of both queue classes over the order types of '
    'the end points of 2 and 3 segments: the abstract state is the set of '
    'order types compatible with the comparisons and orientations seen on '
    'the path. The pieces reported by the sweep must partition every '
    'segment at exactly its contacts, each piece once, with the operand, '
    'side and original ends of the segment. In addition the splitting '
    'operation of both event classes is interpreted on events with every '
    'contact and every side.')
ASSUMPTIONS = ['segments of one operand do not cross or overlap',
               'the context answers orientation, relation and intersection '
               'exactly']


def divide_task(rep, cls_name):
    """The splitting operation on a single event."""
    p = program()
    try:
        cls = event_class('compound' if 'Compound' in cls_name else 'linear')
        relations = enum('orient.core.enums', 'SegmentsRelation')
        func = cls.lookup('divide')[0]
        func.code
    except (MissingAnchor, AttributeError):
        rep.skip(cls_name + '.divide', 'no such operation, '
                 'splitting is checked through the sweeps only')
        return
    where = func_site(func)
    rep.sites.add(where)
    rule = 'split event'
    t = {'a': (0, 0), 'b': (8, 4), 'c': (2, 1), 'd': (4, 2), 'e': (6, 3)}
    for first, rest in (('d', ()), ('d', ('head', 'c')), ('d', ('tail', 'e')),
                        ('c', ('tail', 'd'))):
        for role in (True, False):
            for left in (True, False):
                for name, rel in relations.items():
                    def run(m, w):
                        a, b = P('a'), P('b')
                        ev = method(m, cls, 'from_endpoints',
                                    (a, b) if left else (b, a), role)
                        m.setattr_(ev, 'relation', rel)
                        pieces = [ev]
                        tail = method(m, ev, 'divide', P(first))
                        pieces.append(tail)
                        if rest:
                            i = 0 if rest[0] == 'head' else 1
                            pieces.insert(i + 1, method(
                                    m, pieces[i], 'divide', P(rest[1])))
                        out = []
                        for e in pieces:
                            r = attr(m, e, 'right')
                            out.append({
                                'start': attr(m, e, 'start'),
                                'end': attr(m, e, 'end'),
                                'right start': attr(m, r, 'start'),
                                'right end': attr(m, r, 'end'),
                                'right is_left': attr(m, r, 'is_left'),
                                'is_left': attr(m, e, 'is_left'),
                                'from_test': attr(m, e, 'from_test'),
                                'right from_test': attr(m, r, 'from_test'),
                                'from_goal': attr(m, e, 'from_goal'),
                                'left of right': attr(m, r, 'left') is e,
                                'original_start': attr(m, e,
                                                       'original_start'),
                                'original_end': attr(m, e, 'original_end'),
                                'right original_start': attr(
                                        m, r, 'original_start'),
                                'right original_end': attr(
                                        m, r, 'original_end'),
                                'relation': attr(m, e, 'relation'),
                                'side': (attr(m, e, 'interior_to_left')
                                         if 'Compound' in cls_name
                                         else left),
                                'distinct': all(x is e or x is not e
                                                for x in pieces)})
                        return out
                    cuts = sorted([first] + list(rest[1:]),
                                  key=lambda n: t[n])
                    ends = ['a'] + cuts + ['b']
                    for o in explore(p, run, [t], stats=rep.stats):
                        what = ('%s %s split at %s' % (
                            cls_name, name, ', '.join(cuts)))
                        if interface_changed(rep, o, cls_name + '.divide'):
                            return
                        if o.exc is not None:
                            rep.ob(rule)
                            rep.violation(rule, cls_name + '.divide',
                                          (o.where or [where])[0],
                                          'raises %s on %s'
                                          % (exc_name(o.exc), what))
                            continue
                        for i, d in enumerate(o.value):
                            want = {
                                'start': t[ends[i]], 'end': t[ends[i + 1]],
                                'right start': t[ends[i + 1]],
                                'right end': t[ends[i]],
                                'right is_left': False, 'is_left': True,
                                'from_test': role, 'right from_test': role,
                                'from_goal': not role,
                                'left of right': True,
                                'original_start': t['a'],
                                'original_end': t['b'],
                                'right original_start': t['b'],
                                'right original_end': t['a'],
                                'relation': rel, 'side': left,
                                'distinct': True}
                            for k, v in want.items():
                                rep.ob(rule)
                                g = d[k]
                                if hasattr(g, 'ev'):
                                    g = g.ev(t)
                                if g is not v and g != v:
                                    rep.violation(
                                        rule, '%s.divide: %s' % (cls_name,
                                                                 k),
                                        where, '%s of piece %d of %s is %s, '
                                        'not %s' % (k, i, what,
                                                    name_of(g) if not
                                                    isinstance(g, tuple)
                                                    else g,
                                                    name_of(v) if not
                                                    isinstance(v, tuple)
                                                    else v))


def tasks(thorough):
    configs = pairs('compound') + pairs('linear', False)
    three = None if thorough else 4000
    grid = (3, 3)
    for kind in ('compound', 'linear'):
        configs += [(kind, (T, T, F), (T, F, T), grid, three),
                    (kind, (T, F, F), (F, T, T), grid, three),
                    (kind, (T, F, T), (F, T, T), 'teeth',
                     None if thorough else 300)]
        if thorough:
            configs += [(kind, (T, T, F), (T, T, F), (4, 4), 60000),
                        (kind, (T, T, F, F), (T, T, F, F), (4, 4), 30000)]
    return ([(divide_task, (n,)) for n in ('LinearLeftEvent',
                                           'CompoundLeftEvent')]
            + scene_tasks(configs, CATEGORIES, RULE))


FLOOR = {RULE: 3000}
