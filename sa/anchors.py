"""Where the parts of the analysed package are.

Parts are looked up by name first.  When a name is gone, the part is looked
up by the role it plays: a public query is interpreted on simple operands and
the part is recognised by what flows through it (a queue is the object that
keeps a priority queue, it is swept by the generator that gets the extent,
and so on).
"""
from __future__ import annotations

from .kit import program
from .program import MissingAnchor
from .vm import Cls, Func, Machine, Obj, VMRaise
from .world import (Ctx, Num, P, World, contour, multisegment, segment)

QUEUES = {'compound': ('orient.core.events_queue', 'CompoundEventsQueue'),
          'linear': ('orient.core.events_queue', 'LinearEventsQueue')}
EVENTS = {'compound': ('orient.core.event', 'CompoundLeftEvent'),
          'linear': ('orient.core.event', 'LinearLeftEvent')}
FOLDS = {'open': 'process_open_linear_queue',
         'closed': 'process_closed_linear_queue',
         'linear-compound': 'process_linear_compound_queue',
         'compound': 'process_compound_queue'}
LINE = 'orient.core.sweep_line', 'SweepLine'
PROBES = {'open': 'multisegment_in_multisegment',
          'closed': 'contour_in_contour',
          'linear-compound': 'contour_in_region',
          'compound': 'region_in_region'}
KIND = {'open': 'linear', 'closed': 'compound', 'linear-compound': 'compound',
        'compound': 'compound'}
SCENE = {'a': (0, 0), 'b': (8, 0), 'c': (0, 8), 'd': (1, -2), 'e': (9, 6),
         'f': (1, 6), 'g': (12, 1), 'h': (13, 9)}
_CACHE = {}


class Probe:
    """Parts met while a query is interpreted."""

    def __init__(self, fold):
        self.calls = []
        self.fold = self.queue = self.register = self.sweep = None
        self.event = None
        p = program()
        m = Machine(p)
        m.world = World([], [SCENE], set())
        m.world.ctx = Ctx()
        m.watch = self.watch
        if fold == 'open':
            x = multisegment([segment(P('a'), P('e'), 'x.0'),
                              segment(P('c'), P('h'), 'x.1')], 'x')
            y = multisegment([segment(P('d'), P('f'), 'y.0'),
                              segment(P('d'), P('g'), 'y.1')], 'y')
        else:
            x = contour([P('a'), P('b'), P('c')], 'x')
            y = contour([P('d'), P('e'), P('f')], 'y')
        self.done = False
        try:
            m.call(p.get('orient.planar', PROBES[fold]), x, y,
                   context=m.world.ctx)
        except VMRaise:
            pass

    def watch(self, m, func, args, kwargs):
        if not func.key[0].startswith('orient'):
            return
        values = list(args) + list(kwargs.values())
        queues = [v for v in values if isinstance(v, Obj) and keeps_heap(v)]
        nums = [v for v in values if isinstance(v, Num)]
        bools = [v for v in values if isinstance(v, bool)]
        generator = bool(func.code.co_flags & 0x20)
        if len(queues) == 1 and len(nums) == 1 and len(values) == 2:
            if generator:
                self.sweep = self.sweep or func
                self.queue = self.queue or queues[0].cls
            elif self.sweep is None and self.fold is None:
                self.fold = func
                self.queue = queues[0].cls
        elif (len(queues) == 1 and len(bools) == 1 and len(values) == 3
              and self.sweep is None and not generator):
            self.register = self.register or func


def keeps_heap(o):
    return heap_attr(o) is not None


def heap_attr(o):
    """Attribute of an object of the package that keeps a priority queue."""
    if not o.cls.module.startswith('orient'):
        return None
    for n, v in o.f.items():
        if isinstance(v, Obj) and v.cls.name == 'PriorityQueue':
            return n
    return None


def probe(fold):
    if fold not in _CACHE:
        _CACHE[fold] = Probe(fold)
    return _CACHE[fold]


def named(module, name, kind):
    try:
        v = program().get(module, name)
    except MissingAnchor:
        return None
    return v if isinstance(v, kind) else None


def fold_func(fold):
    """Function that turns a sweep into a relation."""
    f = named('orient.core.processing', FOLDS[fold], Func)
    if f is None:
        f = probe(fold).fold
    if f is None:
        raise MissingAnchor(FOLDS[fold])
    return f


def queue_class(kind):
    c = named(*QUEUES[kind], Cls)
    if c is None:
        c = probe('open' if kind == 'linear' else 'compound').queue
    if c is None:
        raise MissingAnchor(QUEUES[kind][1])
    return c


def _method(kind, name, role):
    cls = queue_class(kind)
    f = cls.lookup(name)[0]
    if isinstance(f, Func):
        return f
    f = getattr(probe('open' if kind == 'linear' else 'compound'), role)
    if f is None:
        raise MissingAnchor('%s.%s' % (cls.name, name))
    return f


def register_func(kind):
    return _method(kind, 'register', 'register')


def sweep_func(kind):
    return _method(kind, 'sweep', 'sweep')


def event_class(kind):
    c = named(*EVENTS[kind], Cls)
    if c is None:
        raise MissingAnchor(EVENTS[kind][1])
    return c


def line_class():
    c = named(*LINE, Cls)
    if c is None:
        raise MissingAnchor(LINE[1])
    return c
