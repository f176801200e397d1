"""Where values flow: an interprocedural points-to and taint analysis.

Works on the code objects of the package (compiled, not executed), resolves
callees through the values that flow into each call, and is independent of
branch conditions: everything a query could reach on any path is examined.
Flow-sensitive for local variables, one call site of context, allocation
sites per context, field-sensitive heap.

Origins are tracked for: the operands and everything reachable from them,
coordinates, numbers computed by the context, the context passed by the
caller, the default context, objects created during the query and objects
that outlive it (module and class level).  ``flags`` collects

``context``   geometry not coming from the context in charge
``mutation``  writes to objects reachable from the arguments
``state``     writes to objects that outlive the query, impure inputs
``number``    arithmetic, conversions, tests other than comparisons with
              other coordinates, applied to coordinates
"""
from __future__ import annotations

from .vm import (BINOPS, Bound, CachedProp, Cell, ClassM, Cls, EnumMember,
                 Func, Gen, InList, Machine, Module, NULL, Native, Obj,
                 Opaque, Partial, Prop, SeqIter, StaticM, VDict, VMRaise, VSet, Unsupported,
                 decode)
from .world import CONTEXT_NAMES, Ctx, GEO_FIELDS

NONE, PLAIN, COORD, CNUM, UNK = (('none',), ('plain',), ('coord',),
                                 ('cnum',), ('unk',))
MPT, BOX, EXC = ('mpt',), ('box',), ('exc',)
TRUE, FALSE = ('k', True), ('k', False)
EMPTY = frozenset()
BOOL = frozenset((TRUE, FALSE))
V_NONE, V_PLAIN, V_UNK = (frozenset((x,)) for x in (NONE, PLAIN, UNK))
V_COORD, V_CNUM = frozenset((COORD,)), frozenset((CNUM,))

FIELDS = {'point': {'x': V_COORD, 'y': V_COORD},
          'segment': {'start': 'point', 'end': 'point'},
          'contour': {'vertices': ['point']},
          'multisegment': {'segments': ['segment']},
          'polygon': {'border': 'contour', 'holes': ['contour']},
          'multipolygon': {'polygons': ['polygon']},
          'multipoint': {'points': ['point']}}
KIND_OF = {'region': 'contour'}
IMPURE = {'time', 'random', 'os', 'sys', 'datetime', 'secrets', 'uuid',
          'threading', 'gc', 'weakref', 'inspect', 'tempfile', 'io',
          'socket', 'subprocess', 'locale', 'platform', 'contextvars',
          'asyncio', 'multiprocessing', 'pathlib', 'shelve', 'pickle',
          'atexit', 'signal', 'warnings', 'logging'}
HARMLESS = {'warnings', 'logging'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem',
            '__setitem__', '__delitem__', '__iadd__', '__imul__',
            'appendleft', 'extendleft', 'popleft', 'rotate',
            'difference_update', 'intersection_update',
            'symmetric_difference_update'}
ARITH_FUNCS = {'int', 'float', 'complex', 'abs', 'round', 'divmod', 'pow'}


GIVEN = ('geo', 'arg', 'mpt', 'box', 'coord', 'cnum')
ORDERING = {'__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__',
            '__hash__'}
DOCUMENTED = {k: set(v) for k, v in FIELDS.items()}
DOCUMENTED.update({
    'region': {'vertices'},
    'sequence': {'index', 'count', '__len__', '__getitem__', '__iter__',
                 '__contains__', '__reversed__'},
    'box': {'min_x', 'max_x', 'min_y', 'max_y'},
    'context': CONTEXT_NAMES | {
        'box_point_squared_distance', 'box_segment_squared_distance',
        'locate_point_in_point_point_point_circle', 'multipoint_cls',
        'contour_length', 'multipoint_centroid', 'multipolygon_centroid',
        'multisegment_centroid', 'multisegment_length', 'polygon_centroid',
        'points_convex_hull', 'region_centroid', 'segment_centroid',
        'segment_length'}})


SETTERS = {n: Native('object.' + n, None) for n in ('__setattr__',
                                                    '__delattr__')}


def arg_value(kind):
    if isinstance(kind, list):
        return frozenset((('arg', kind[0]),))
    if kind == 'multiregion':
        return frozenset((('arg', 'contour'),))
    return frozenset((('geo', KIND_OF.get(kind, kind)),))


def is_input(a):
    return a[0] in ('geo', 'arg')


def numeric(v):
    """Numbers computed from coordinates among the possible values."""
    return COORD in v or CNUM in v


class Instance:
    """A function in a calling context."""
    __slots__ = ('key', 'atom', 'code', 'glob', 'params', 'ret', 'cells',
                 'gen', 'ctx')

    def __init__(self, key, atom, code, glob, ctx):
        self.key, self.atom, self.code, self.glob = key, atom, code, glob
        self.params = {}
        self.ret = EMPTY
        self.ctx = ctx
        self.gen = None


class Flow:
    def __init__(self, program, mode):
        self.program = program
        self.mode = mode          # 'explicit' or 'default'
        self.heap = {}
        self.deps = {}
        self.instances = {}
        self.dirty = []
        self.flags = {}
        self.sites = {'context': set(), 'mutation': set(), 'state': set(),
                      'number': set(), 'interface': set(), 'depth': set()}
        self.edges = {}
        self.current = None
        self.ins = None
        self.runs = 0
        self.default_seen = False

    # ---------------------------------------------------------------- heap
    def get(self, atom, field):
        key = atom, field
        self.deps.setdefault(key, set()).add(self.current)
        return self.heap.get(key, EMPTY)

    def put(self, atom, field, value):
        if not value:
            return
        key = atom, field
        old = self.heap.get(key, EMPTY)
        new = old | value
        if len(new) > len(old):
            self.heap[key] = widen(new)
            for k in self.deps.get(key, ()):
                self.mark(k)
        fs = self.heap.setdefault((atom, '*'), set())
        if field not in fs:
            fs.add(field)
            for k in self.deps.get((atom, '*'), ()):
                self.mark(k)

    def fields(self, atom):
        self.deps.setdefault((atom, '*'), set()).add(self.current)
        return self.heap.get((atom, '*'), ())

    def mark(self, key):
        if key is not None and key not in self.queued:
            self.queued.add(key)
            self.dirty.append(key)

    # ---------------------------------------------------------- interface
    def used(self, a, name):
        """An attribute of something given by the caller."""
        self.site('interface')
        if name == '__class__':
            return self.typed((a,))
        what = {'geo': a[-1], 'arg': 'sequence', 'mpt': 'point', 'box': 'box',
                'ctx': 'context'}[a[0]]
        if name in DOCUMENTED[what] or what == 'point' and name in ORDERING:
            return
        self.flag('interface', 'attribute %s of a %s is used, which is not '
                  'part of its interface' % (name, what))

    def typed(self, value):
        if any(x[0] in GIVEN for x in value):
            self.site('interface')
            self.flag('interface', 'the type of an operand or of a part of '
                      'one is examined')

    def equated(self, value, op):
        """Only points can be compared and hashed."""
        for x in value:
            if x[0] in ('geo', 'arg', 'mpt'):
                self.site('interface')
            if x[0] == 'arg' or x[0] == 'geo' and x[1] != 'point':
                self.flag('interface', '%s applied to a %s, of which only '
                          'the parts can be compared'
                          % (op, 'sequence' if x[0] == 'arg' else x[1]))
                return

    # --------------------------------------------------------------- flags
    def here(self):
        inst = self.current
        if inst is None:
            return '?', '?'
        i = self.instances[inst]
        glob, code, line = i.glob, i.code, self.ins.line
        if glob.name.startswith('<') and i.ctx is not None:
            # inside a library function: the place calling it
            glob, code, line = i.ctx[0], i.ctx[1], i.ctx[2]
        return ('%s:%d in %s' % (glob.file or glob.name, line,
                                 code.co_qualname),
                '%s.%s' % (glob.name, code.co_qualname))

    def flag(self, kind, text):
        where, func = self.here()
        self.flags.setdefault((kind, func, text), where)

    def site(self, kind):
        inst = self.instances[self.current]
        if not inst.glob.name.startswith('<'):
            self.sites[kind].add((inst.glob.name, inst.code.co_qualname,
                                  self.ins.offset))

    def alloc(self, typ, extra=None):
        return (typ, self.current, self.ins.offset, extra)

    # --------------------------------------------------------------- calls
    def calls(self, key):
        if self.current is not None:
            e = self.edges.setdefault(self.current, {})
            if key not in e:
                e[key] = self.here()[0]

    def instance(self, atom, code, glob, ctx):
        key = (atom, ctx[1] if ctx else None, ctx[3] if ctx else None)
        if self.current is not None and ctx is not None:
            i = self.instances[self.current]
            if i.code is ctx[1] and i.glob.name.startswith('<'):
                # a library function on behalf of its own caller
                key += self.current[1:3]
        self.calls(key)
        i = self.instances.get(key)
        if i is None:
            i = self.instances[key] = Instance(key, atom, code, glob, ctx)
            if code.co_flags & 0x20:
                i.gen = ('gen', key)
            self.mark(key)
        return i

    def ctx(self):
        i = self.instances[self.current]
        return i.glob, i.code, self.ins.line, self.ins.offset

    def bind(self, inst, defaults, kwdefaults, args, kwargs, star=None,
             dstar=None):
        code = inst.code
        n, nk = code.co_argcount, code.co_kwonlyargcount
        names = code.co_varnames
        i = n + nk
        var = kw = None
        if code.co_flags & 4:
            var = names[i]
            i += 1
        if code.co_flags & 8:
            kw = names[i]
        new = {}
        for nm, v in zip(names[:n], args):
            new[nm] = v
        if var is not None:
            t = ('tuple', inst.key, -1, None)
            extra = EMPTY
            for v in args[n:]:
                extra |= v
            if star:
                extra |= star
            self.put(t, 'e', extra)
            new[var] = frozenset((t,))
        if star:
            for nm in names[len(args):n]:
                new[nm] = star | new.get(nm, EMPTY)
        extra = EMPTY
        for nm, v in kwargs.items():
            if nm in names[:n + nk]:
                new[nm] = v | (star or EMPTY if nm in new else EMPTY)
            else:
                extra |= v
        if dstar:
            extra |= dstar
            for nm in names[:n + nk]:
                if nm not in new:
                    new[nm] = dstar
        if kw is not None:
            d = ('dict', inst.key, -2, None)
            self.put(d, 'e', extra)
            self.put(d, 'k', V_PLAIN)
            new[kw] = frozenset((d,))
        pos = names[:n]
        for nm, v in zip(reversed(pos), reversed(defaults)):
            if nm not in new or star or dstar:
                new[nm] = new.get(nm, EMPTY) | v
        for nm, v in kwdefaults.items():
            if nm not in new or dstar:
                new[nm] = new.get(nm, EMPTY) | v
        changed = False
        for nm, v in new.items():
            old = inst.params.get(nm, EMPTY)
            if not v <= old:
                inst.params[nm] = widen(old | v)
                changed = True
        if changed:
            self.mark(inst.key)

    def invoke(self, f, args, kwargs, star=None, dstar=None, ctx=None):
        """Calls everything ``f`` may be."""
        out = EMPTY
        for a in f:
            out |= self.invoke1(a, args, kwargs, star, dstar, ctx)
        return out

    def invoke1(self, a, args, kwargs, star=None, dstar=None, ctx=None):
        t = a[0]
        if t == 'fn':
            func = a[1]
            if (func.code.co_name in ('min', 'max') and star is None
                    and self.program.prelude.get(func.code.co_name) is func):
                # of the elements, or of the arguments
                func = self.program.prelude['_%s_of' % func.code.co_name]
                items = args[0] if len(args) == 1 else self.new(
                    'tuple', frozenset().union(*args))
                return self.invoke1(('fn', func), [
                    items, kwargs.get('key', V_NONE),
                    kwargs.get('default', self.wrap(
                        self.program.prelude['_missing']))], {}, None, dstar,
                    ctx)
            inst = self.instance(a, func.code, func.glob,
                                 ctx or self.ctx())
            inst.cells = None
            self.bind(inst, [self.wrap(v) for v in func.defaults],
                      {k: self.wrap(v) for k, v in func.kwdefaults.items()},
                      args, kwargs, star, dstar)
            return self.result(inst)
        if t == 'clo':
            inst = self.instance(a, a[1], a[2], ctx or self.ctx())
            defaults = [self.get(a, ('d', i)) for i in range(
                len([f for f in self.fields(a) if isinstance(f, tuple)
                     and f[0] == 'd']))]
            kwd = {f[1]: self.get(a, f) for f in list(self.fields(a))
                   if isinstance(f, tuple) and f[0] == 'kd'}
            self.bind(inst, defaults, kwd, args, kwargs, star, dstar)
            return self.result(inst)
        if t == 'bound':
            return self.invoke1(a[1], [frozenset((a[2],))] + list(args),
                                kwargs, star, dstar, ctx)
        if t == 'part':
            f = self.get(a, 'func')
            pre = []
            i = 0
            while ('a', i) in self.fields(a):
                pre.append(self.get(a, ('a', i)))
                i += 1
            kw = {f2[1]: self.get(a, f2) for f2 in list(self.fields(a))
                  if isinstance(f2, tuple) and f2[0] == 'kw'}
            kw.update(kwargs)
            return self.invoke(f, pre + list(args), kw, star, dstar, ctx)
        if t == 'lm':
            return self.container_method(a[1], a[2], list(args) + (
                [star] if star else []), kwargs)
        if t == 'ctxfn':
            return self.context_call(a[1], a[2], list(args), kwargs, star)
        if t == 'v':
            return self.invoke_value(a[1], args, kwargs, star, dstar, ctx)
        if t == 'inst':
            m = self.lookup(a[3], '__call__')
            if m is not NULL:
                return self.invoke(self.wrap(m), [frozenset((a,))]
                                   + list(args), kwargs, star, dstar)
            return V_UNK
        if t == 'type':
            self.flag('context', 'geometry is constructed by its own class '
                      'instead of the context')
            return V_UNK
        if t in ('coord', 'cnum', 'geo', 'arg', 'k', 'none', 'plain', 'box',
                 'ctx', 'mpt'):
            return EMPTY
        return V_UNK

    def result(self, inst):
        key = inst.key, 'ret'
        self.deps.setdefault(key, set()).add(self.current)
        if inst.gen is not None:
            return frozenset((inst.gen,))
        return inst.ret

    def lookup(self, cls, name):
        return cls.lookup(name)[0]

    def invoke_value(self, o, args, kwargs, star, dstar, ctx=None):
        if isinstance(o, Func):
            return self.invoke1(('fn', o), args, kwargs, star, dstar, ctx)
        if isinstance(o, (StaticM, ClassM)):
            return self.invoke_value(o.f, args, kwargs, star, dstar, ctx)
        if isinstance(o, Bound):
            return self.invoke_value(o.func, [self.wrap(o.self)]
                                     + list(args), kwargs, star, dstar, ctx)
        if isinstance(o, Partial):
            kw = {k: self.wrap(v) for k, v in o.kwargs.items()}
            kw.update(kwargs)
            return self.invoke_value(o.func, [self.wrap(v) for v in o.args]
                                     + list(args), kw, star, dstar, ctx)
        if isinstance(o, Native):
            return self.native(o, list(args), kwargs, star, dstar)
        if isinstance(o, Cls):
            return self.construct(o, list(args), kwargs, star, dstar)
        if isinstance(o, Opaque):
            return self.external(o, list(args), kwargs, star)
        if isinstance(o, Obj):
            m = self.lookup(o.cls, '__call__')
            if m is not NULL:
                return self.invoke_value(m, [frozenset((('v', o),))]
                                         + list(args), kwargs, star, dstar)
        return V_UNK

    # ------------------------------------------------------------- context
    def context_use(self, which, name):
        self.site('context')
        if which == 'stale':
            self.flag('context', 'context.%s of a context fixed at import '
                      'is used' % name)
        elif which == 'default' and self.mode == 'explicit':
            self.flag('context', 'context.%s of the default context is used '
                      'although a context was passed' % name)

    def context_call(self, which, name, args, kwargs, star):
        self.context_use(which, name)
        vals = list(args) + list(kwargs.values()) + ([star] if star else [])
        if name == 'angle_orientation':
            return frozenset(('v', e) for e in self.program.prelude[
                'Orientation'].enum_members.values())
        if name == 'segments_relation':
            return frozenset(('v', e) for e in self.program.prelude[
                'Relation'].enum_members.values())
        if name == 'segment_contains_point':
            return BOOL
        if name == 'segments_intersection':
            return frozenset((MPT,))
        if name.endswith('_box') or name == 'merged_box':
            return frozenset((BOX,))
        if name == 'contour_segments':
            s = self.alloc('geoobj', 'segment')
            pts = EMPTY
            for v in vals:
                for x in self.field(v, 'vertices'):
                    pts |= self.elements(frozenset((x,)))
            self.put(s, 'start', pts)
            self.put(s, 'end', pts)
            l = self.alloc('list')
            self.put(l, 'e', frozenset((s,)))
            return frozenset((l,))
        if name in GEO_FIELDS:
            kind, fields = GEO_FIELDS[name]
            if kind == 'point':
                return frozenset((MPT,))
            if kind == 'box':
                return frozenset((BOX,))
            o = self.alloc('geoobj', kind)
            for f, v in zip(fields, args):
                self.put(o, f, v)
            for f, v in kwargs.items():
                self.put(o, f, v)
            if star:
                for f in fields:
                    self.put(o, f, star)
            return frozenset((o,))
        if name in ('dot_product', 'cross_product', 'sqrt',
                    'points_squared_distance', 'region_signed_area',
                    'segments_squared_distance',
                    'segment_point_squared_distance'):
            return V_CNUM
        return V_UNK

    # ------------------------------------------------------------ wrapping
    def wrap(self, o):
        if o is None:
            return V_NONE
        if isinstance(o, (bool, int, float, str, bytes)):
            return frozenset((('k', o),))
        if isinstance(o, Func):
            return frozenset((('fn', o),))
        if isinstance(o, Ctx):
            return frozenset((('ctx', 'stale'),))
        if isinstance(o, tuple) and not isinstance(o, Machine):
            t = ('ktuple', o if hashable(o) else id(o))
            for i, v in enumerate(o):
                self.put(t, i, self.wrap(v))
            self.put(t, 'n', frozenset((('k', len(o)),)))
            return frozenset((t,))
        if o is NotImplemented or o is Ellipsis:
            return V_PLAIN
        if isinstance(o, frozenset):
            t = ('kset', o)
            for v in o:
                self.put(t, 'e', self.wrap(v))
            return frozenset((t,))
        if isinstance(o, (list, range)):
            return frozenset((('v', Ref(o)),))
        return frozenset((('v', o),))

    def outlives(self, a):
        """Object created before the query."""
        return (a[0] == 'v' and isinstance(a[1], (Ref, VDict, VSet, Obj, Cls,
                                                  Module, Func, Opaque,
                                                  Native, Gen, SeqIter))
                or a[0] == 'fn')

    def remembered(self, value):
        if any(a[0] in ('ctx', 'ctxfn') for a in value):
            self.flag('context', 'a context is remembered beyond the query')

    # ---------------------------------------------------------- attributes
    def field(self, value, name):
        out = EMPTY
        for a in value:
            out |= self.attr(a, name)
        return out

    def attr(self, a, name):
        t = a[0]
        if t in ('geo', 'arg', 'mpt', 'box') or t == 'ctx':
            self.used(a, name)
        if t == 'geo':
            f = FIELDS[a[1]].get(name)
            if f is not None:
                return f if isinstance(f, frozenset) else arg_value(f)
            if name == '__class__':
                return frozenset((('type', a[1]),))
            if name in ('__dict__', '__slots__'):
                return frozenset((('arg', 'point'),))
            if name in ('__setattr__', '__delattr__'):
                return frozenset((('bound', ('v', SETTERS[name]), a),))
            return V_UNK
        if t == 'mpt':
            if name in ('x', 'y'):
                return V_COORD
            if name == '__class__':
                return frozenset((('type', 'point'),))
            return V_UNK
        if t == 'box':
            if name in ('min_x', 'max_x', 'min_y', 'max_y'):
                return V_COORD
            return V_UNK
        if t == 'geoobj':
            if name in self.fields(a):
                return self.get(a, name)
            if name == '__class__':
                return frozenset((('type', a[3]),))
            return EMPTY
        if t == 'ctx':
            self.context_use(a[1], name)
            if name in ('origin',):
                return frozenset((MPT,))
            if name == 'empty':
                return V_UNK
            return frozenset((('ctxfn', a[1], name),))
        if t in ('coord', 'cnum'):
            self.site('number')
            self.flag('number', 'attribute %s of a coordinate is used' % name)
            return frozenset((a,))
        if t in ('arg', 'list', 'tuple', 'set', 'dict', 'gen', 'iter',
                 'ktuple', 'kset', 'k', 'plain', 'view'):
            return frozenset((('lm', a, name),))
        if t == 'inst':
            return self.object_attr(a, a[3], name)
        if t == 'v':
            return self.value_attr(a[1], name)
        if t == 'fn':
            if name in a[1].d:
                return self.wrap(a[1].d[name])
            return V_UNK
        if t == 'part':
            if name == 'func':
                return self.get(a, 'func')
            return V_UNK
        if t == 'none':
            return EMPTY
        return V_UNK

    def object_attr(self, a, cls, name):
        out = EMPTY
        if name in self.fields(a):
            out |= self.get(a, name)
        m = self.lookup(cls, name)
        if m is NULL:
            if name == '__class__':
                return frozenset((('v', cls),))
            g = self.lookup(cls, '__getattr__')
            if g is not NULL and not out:
                return self.invoke(self.wrap(g), [frozenset((a,)), V_PLAIN],
                                   {})
            return out
        return out | self.from_class(a, cls, m)

    def from_class(self, a, cls, m):
        self_ = frozenset((a,))
        if isinstance(m, Prop):
            return self.invoke(self.wrap(m.fget), [self_], {})
        if isinstance(m, CachedProp):
            return self.invoke(self.wrap(m.f), [self_], {})
        if isinstance(m, Func):
            return frozenset((('bound', ('fn', m), a),))
        if isinstance(m, Native):
            return frozenset((('bound', ('v', m), a),))
        if isinstance(m, ClassM):
            return frozenset((('bound', self.one(m.f), ('v', cls)),))
        if isinstance(m, StaticM):
            return self.wrap(m.f)
        if hasattr(m, 'cached'):
            return frozenset((('bound', ('v', m), a),))
        return self.wrap(m)

    def one(self, o):
        return next(iter(self.wrap(o)))

    def value_attr(self, o, name):
        if isinstance(o, Module):
            if name in o.d:
                return self.wrap(o.d[name])
            if o.opaque:
                return frozenset((('v', Opaque('%s.%s' % (o.name, name))),))
            sub = self.program.submodule(o.name, name)
            return self.wrap(sub) if sub is not None else EMPTY
        if isinstance(o, Cls):
            if o.enum_members is not None and name in o.enum_members:
                return frozenset((('v', o.enum_members[name]),))
            if name in ('__class__', '__name__', '__qualname__', '__doc__',
                        '__members__', '__module__'):
                return V_PLAIN
            m = self.lookup(o, name)
            if m is NULL:
                key = o.name, name
                if key not in self.TYPE_ATTRS:
                    n = self.program.type_attr(self.program.loader, o, name)
                    self.TYPE_ATTRS[key] = (EMPTY if n is NULL else
                                            frozenset((('v', n),)))
                return self.TYPE_ATTRS[key]
            if isinstance(m, ClassM):
                return frozenset((('bound', self.one(m.f), ('v', o)),))
            if isinstance(m, StaticM):
                return self.wrap(m.f)
            return self.wrap(m)
        if isinstance(o, EnumMember):
            if name in ('name', 'value', '_name_', '_value_'):
                return V_PLAIN
            if name == '__class__':
                return frozenset((('v', o.cls),))
            m = self.lookup(o.cls, name)
            if m is NULL:
                mem = o.cls.enum_members.get(name)
                return self.wrap(mem) if mem is not None else V_PLAIN
            if isinstance(m, EnumMember):
                return self.wrap(m)
            return self.from_class(('v', o), o.cls, m)
        if isinstance(o, Opaque):
            return frozenset((('v', Opaque('%s.%s' % (o.name, name))),))
        if isinstance(o, Obj):
            out = EMPTY
            if name in o.f:
                out |= self.wrap(o.f[name])
            m = self.lookup(o.cls, name)
            if m is not NULL:
                out |= self.from_class(('v', o), o.cls, m)
            return out
        if isinstance(o, (Ref, VDict, VSet)):
            return frozenset((('lm', ('v', o), name),))
        if isinstance(o, (Native, Partial, Bound)):
            try:
                return self.wrap(self.program.loader.getattr_(o, name))
            except Exception:
                return V_UNK
        return V_UNK

    def set_attr(self, target, name, value):
        self.site('mutation')
        self.site('state')
        for a in target:
            t = a[0]
            if t in ('geo', 'arg'):
                self.flag('mutation', 'attribute %s of an operand is set'
                          % name)
            elif t == 'ctx':
                self.flag('mutation', 'attribute %s of the context is set'
                          % name)
                if a[1] != 'explicit':
                    self.flag('state', 'attribute %s of the default context '
                              'is set' % name)
            elif t in ('inst', 'geoobj'):
                m = (self.lookup(a[3], name) if t == 'inst' else NULL)
                if isinstance(m, Prop) and m.fset is not None:
                    self.invoke(self.wrap(m.fset), [frozenset((a,)), value],
                                {})
                else:
                    self.put(a, name, value)
            elif self.outlives(a):
                self.remembered(value)
                self.flag('state', 'attribute %s of %s, which outlives the '
                          'query, is set' % (name, describe(a)))

    # ---------------------------------------------------------- containers
    def elements(self, value):
        """What iterating over the value yields."""
        out = EMPTY
        for a in value:
            out |= self.elems1(a)
        return out

    def elems1(self, a):
        t = a[0]
        if t == 'arg':
            return arg_value(a[1])
        if t == 'gen':
            # its body continues on top of the stack
            self.calls(a[1])
            return self.get(a, 'e')
        if t in ('list', 'set', 'iter', 'kset', 'view'):
            return self.get(a, 'e')
        if t == 'dict':
            return self.get(a, 'k')
        if t in ('tuple', 'ktuple'):
            out = self.get(a, 'e')
            for f in list(self.fields(a)):
                if isinstance(f, int):
                    out |= self.get(a, f)
            return out
        if t in ('plain', 'k', 'unk'):
            return V_PLAIN if t != 'unk' else V_UNK
        if t == 'v':
            o = a[1]
            if isinstance(o, Ref):
                out = EMPTY
                for x in o.o:
                    out |= self.wrap(x)
                    if len(out) > 12:
                        return widen(out)
                return out
            if isinstance(o, VDict):
                out = EMPTY
                for p in o.items:
                    out |= self.wrap(p[0])
                return out
            if isinstance(o, VSet):
                out = EMPTY
                for p in o.items:
                    out |= self.wrap(p)
                return out
            if isinstance(o, Cls) and o.enum_members is not None:
                return frozenset(('v', e) for e in o.enum_members.values())
            if isinstance(o, Obj):
                return self.user_iter(a, o.cls)
            return V_UNK
        if t == 'inst':
            return self.user_iter(a, a[3])
        if t == 'none':
            return EMPTY
        return V_UNK

    def user_iter(self, a, cls):
        m = self.lookup(cls, '__iter__')
        if m is not NULL:
            it = self.invoke(self.wrap(m), [frozenset((a,))], {})
            out = EMPTY
            for x in it:
                if x == a or x[0] == 'inst' and x[3] is cls:
                    n = self.lookup(cls, '__next__')
                    if n is not NULL:
                        out |= self.invoke(self.wrap(n), [frozenset((x,))],
                                           {})
                else:
                    out |= self.elems1(x)
            return out
        m = self.lookup(cls, '__getitem__')
        if m is not NULL:
            return self.invoke(self.wrap(m), [frozenset((a,)), V_PLAIN], {})
        return EMPTY

    def iterator(self, value):
        it = self.alloc('iter')
        out = EMPTY
        for a in value:
            if a[0] in ('iter', 'gen'):
                out |= frozenset((a,))
            elif self.outlives(a) and not iterable(a):
                out |= frozenset((a,))
            else:
                self.put(it, 'e', self.elems1(a))
                out |= frozenset((it,))
        return out

    def advance(self, value):
        for a in value:
            if self.outlives(a) and a[0] == 'v' and not iterable(a):
                self.flag('state', 'an iterator that outlives the query is '
                          'advanced')
        return self.elements(value)

    def item(self, value, index):
        out = EMPTY
        ks = [a[1] for a in index if a[0] == 'k'
              and isinstance(a[1], int)] if all(
            a[0] == 'k' for a in index) else None
        sl = any(a[0] == 'slice' for a in index)
        for a in value:
            t = a[0]
            if sl:
                if t in ('tuple', 'ktuple'):
                    n = self.alloc('tuple', 's')
                    self.put(n, 'e', self.elems1(a))
                    out |= frozenset((n,))
                elif t in ('plain', 'k'):
                    out |= V_PLAIN
                elif t == 'inst':
                    out |= self.user_item(a, a[3], index)
                else:
                    n = self.alloc('list', 's')
                    self.put(n, 'e', self.elems1(a))
                    out |= frozenset((n,))
                continue
            if t in ('tuple', 'ktuple') and ks is not None:
                n = self.size(a)
                if n is not None:
                    for k in ks:
                        if -n <= k < n:
                            out |= self.get(a, k % n)
                    continue
            if t == 'dict':
                out |= self.get(a, 'e')
            elif t == 'v' and isinstance(a[1], VDict):
                for p in a[1].items:
                    out |= self.wrap(p[1])
            elif t == 'inst':
                out |= self.user_item(a, a[3], index)
            else:
                out |= self.elems1(a)
        return out

    def user_item(self, a, cls, index):
        m = self.lookup(cls, '__getitem__')
        if m is NULL:
            return EMPTY
        return self.invoke(self.wrap(m), [frozenset((a,)), index], {})

    def size(self, a):
        n = self.get(a, 'n')
        if len(n) == 1:
            return next(iter(n))[1]
        return None

    def write_item(self, target, key, value, what='is assigned'):
        self.site('mutation')
        self.site('state')
        for a in target:
            t = a[0]
            if t == 'arg':
                self.flag('mutation', 'an item of a list of an operand %s'
                          % what)
            elif t in ('list', 'set', 'iter'):
                if t == 'set':
                    self.equated(value, 'hash')
                self.put(a, 'e', value)
            elif t == 'dict':
                self.equated(key, 'hash')
                self.put(a, 'e', value)
                self.put(a, 'k', key)
            elif t == 'inst':
                m = self.lookup(a[3], '__setitem__')
                if m is not NULL:
                    self.invoke(self.wrap(m), [frozenset((a,)), key, value],
                                {})
            elif self.outlives(a):
                self.remembered(value)
                self.flag('state', 'an item of %s, which outlives the query, '
                          '%s' % (describe(a), what))

    def new(self, typ, elems=EMPTY, keys=EMPTY, extra=None):
        a = self.alloc(typ, extra)
        if typ in ('set', 'dict'):
            self.equated(elems if typ == 'set' else keys, 'hash')
        self.put(a, 'e', elems)
        self.put(a, 'k', keys)
        return frozenset((a,))

    def container_method(self, a, name, args, kwargs):
        t = a[0]
        allv = EMPTY
        for v in args:
            allv |= v
        if t in ('plain', 'k'):
            return V_PLAIN
        if name in MUTATORS:
            self.site('mutation')
            self.site('state')
            if t == 'arg':
                self.flag('mutation', '%s() of a list of an operand' % name)
            elif self.outlives(a):
                self.remembered(allv)
                self.flag('state', '%s() of %s, which outlives the query'
                          % (name, describe(a)))
        if name in ('append', 'add', 'appendleft'):
            if t in ('list', 'set', 'dict'):
                self.put(a, 'e', args[0] if args else EMPTY)
            return V_NONE
        if name == 'insert':
            if t == 'list' and len(args) > 1:
                self.put(a, 'e', args[1])
            return V_NONE
        if name in ('extend', '__iadd__', 'difference_update',
                    'intersection_update', 'symmetric_difference_update'):
            if t in ('list', 'set'):
                self.put(a, 'e', self.elements(allv))
            return V_NONE
        if name == 'update':
            if t == 'set':
                self.put(a, 'e', self.elements(allv))
            elif t == 'dict':
                for x in allv:
                    if x[0] == 'dict':
                        self.put(a, 'e', self.get(x, 'e'))
                        self.put(a, 'k', self.get(x, 'k'))
                    else:
                        for y in self.elems1(x):
                            self.put(a, 'e', self.elems1(y))
                            self.put(a, 'k', self.elems1(y))
                for v in kwargs.values():
                    self.put(a, 'e', v)
            return V_NONE
        if name == 'setdefault':
            if t == 'dict':
                self.put(a, 'k', args[0] if args else EMPTY)
                self.put(a, 'e', args[1] if len(args) > 1 else V_NONE)
            return self.item(frozenset((a,)), V_PLAIN)
        if name in ('pop', 'popleft', 'popitem', 'get'):
            if t in ('set', 'kset') and name == 'pop':
                self.hash_order(a, 'pop() of a set')
            if name == 'popitem':
                return self.new('tuple', self.item(frozenset((a,)), V_PLAIN)
                                | self.elems1(a))
            r = self.item(frozenset((a,)), V_PLAIN)
            if name == 'get' or t == 'dict':
                r |= args[1] if len(args) > 1 else (
                    V_NONE if name == 'get' else EMPTY)
            return r
        if name == 'sort':
            if 'key' in kwargs:
                self.invoke(kwargs['key'], [self.elems1(a)], {})
            self.order_elements(self.elems1(a))
            return V_NONE
        if name in ('remove', 'discard', 'clear', 'reverse', 'rotate'):
            return V_NONE
        if name in ('index', 'count', '__len__', 'isdisjoint', 'issubset',
                    'issuperset', '__contains__', '__eq__', '__ne__',
                    '__bool__'):
            if name in ('index', 'count') and args:
                self.equated(args[0], name + '()')
            return V_PLAIN if name in ('index', 'count', '__len__') else BOOL
        if name in ('copy',):
            r = self.new('list' if t in ('arg', 'list', 'v') else t,
                         self.elems1(a) if t != 'dict' else self.get(a, 'e'),
                         self.get(a, 'k') if t == 'dict' else EMPTY)
            return r
        if name == '__getitem__':
            return self.item(frozenset((a,)), args[0] if args else V_PLAIN)
        if name == '__setitem__':
            self.write_item(frozenset((a,)), args[0], args[1])
            return V_NONE
        if name == '__iter__':
            return self.iterator(frozenset((a,)))
        if name in ('__next__', 'send'):
            return self.elems1(a)
        if name in ('keys',):
            return self.new('view', self.elems1(a))
        if name == 'values':
            return self.new('view', self.item(frozenset((a,)), V_PLAIN))
        if name == 'items':
            p = self.alloc('tuple', 'items')
            self.put(p, 0, self.elems1(a))
            self.put(p, 1, self.item(frozenset((a,)), V_PLAIN))
            self.put(p, 'n', frozenset((('k', 2),)))
            return self.new('view', frozenset((p,)))
        if name in ('union', 'intersection', 'difference',
                    'symmetric_difference', '__or__', '__and__', '__sub__'):
            return self.new('set', self.elems1(a) | self.elements(allv))
        if name in ('close', 'throw'):
            return V_NONE
        return V_UNK

    def order_elements(self, elems):
        """Elements are compared with each other."""
        for x in elems:
            if x[0] == 'inst':
                m = self.lookup(x[3], '__lt__')
                if m is not NULL:
                    self.invoke(self.wrap(m), [frozenset((x,)), elems], {})
            if x[0] in ('tuple', 'ktuple'):
                self.order_elements(self.elems1(x) - elems)

    def hash_order(self, a, text):
        """Numbers and truths have the same order in every run, unlike
        strings and objects (the missing knowledge counts for none)."""
        elems = self.elems1(a)
        strings = [x for x in elems if x[0] == 'k' and isinstance(
            x[1], (str, bytes))]
        if len(strings) > 1 or any(
                x[0] not in ('k', 'v', 'none', 'unk') for x in elems):
            self.flag('state', 'the order of a set is used: ' + text)

    # -------------------------------------------------------------- natives
    def native(self, o, args, kwargs, star, dstar):
        name = o.name
        cached = getattr(o, 'cached', None)
        if cached is not None:
            self.site('state')
            if any(a[0] not in ('k', 'plain', 'none', 'v', 'ktuple')
                   for v in list(args) + list(kwargs.values()) for a in v):
                self.flag('state', '%s is called, which remembers results '
                          'between calls' % name)
            result = self.invoke_value(cached, args, kwargs, star, dstar)
            if ('ctx', 'default') in result:
                for kind in ('state', 'context'):
                    self.flag(kind, 'the default context is remembered by '
                              '%s, whatever it becomes later' % name)
            return result
        if star:
            args = args + [star] * 4
        first = args[0] if args else EMPTY
        allv = EMPTY
        for v in list(args) + list(kwargs.values()):
            allv |= v
        if '.' in name and name.split('.')[0] in (
                'list', 'tuple', 'dict', 'set', 'frozenset', 'object'):
            name = name.split('.', 1)[1]
            if name in ('__setattr__', '__delattr__'):
                for n in [a[1] for a in args[1] if a[0] == 'k'] or ['?']:
                    self.set_attr(first, n,
                                  args[2] if len(args) > 2 else V_NONE)
                return V_NONE
            if name == '__new__':
                out = EMPTY
                for a in first:
                    if a[0] == 'v' and isinstance(a[1], Cls):
                        out |= frozenset((self.alloc('inst', a[1]),))
                return out or V_UNK
            if name == 'fromkeys':
                return self.new('dict', args[1] if len(args) > 1 else V_NONE,
                                self.elements(first))
            if name in ('__getattribute__',):
                return self.native(self.program.builtins['getattr'], args,
                                   kwargs, None, None)
            out = EMPTY
            for a in first:
                out |= self.container_method(a, name, args[1:], kwargs)
            return out or V_NONE
        if name == 'get_context':
            self.site('context')
            self.default_seen = True
            if self.mode == 'explicit':
                self.flag('context', 'the default context is consulted '
                          'although a context was passed')
            return frozenset((('ctx', 'default'),))
        if name == 'set_context':
            self.flag('state', 'the default context is replaced')
            self.flag('context', 'the default context is replaced')
            return V_NONE
        if name == 'len':
            for a in first:
                if a[0] == 'inst':
                    m = self.lookup(a[3], '__len__')
                    if m is not NULL:
                        self.invoke(self.wrap(m), [frozenset((a,))], {})
            return V_PLAIN
        if name in ('isinstance', 'issubclass', 'callable', 'hasattr'):
            if numeric(first):
                self.site('number')
                self.flag('number', 'the type of a coordinate is tested')
            if name in ('isinstance', 'hasattr'):
                self.typed(first)
            return BOOL
        if name == 'iter':
            for a in first:
                if a[0] in ('set', 'kset'):
                    self.hash_order(a, 'iter() of a set')
            return self.iterator(first)
        if name == 'next':
            r = self.advance(first)
            for a in first:
                if a[0] == 'inst':
                    m = self.lookup(a[3], '__next__')
                    if m is not NULL:
                        r |= self.invoke(self.wrap(m), [frozenset((a,))], {})
            return r | (args[1] if len(args) > 1 else EMPTY)
        if name == 'getattr':
            names = [a[1] for a in args[1] if a[0] == 'k'] if len(
                    args) > 1 else []
            r = args[2] if len(args) > 2 else EMPTY
            for n in names:
                r |= self.field(first, n)
            return r if names else r | V_UNK
        if name == 'vars':
            return self.field(first, '__dict__')
        if name in ('setattr', 'delattr'):
            names = [a[1] for a in args[1] if a[0] == 'k'] if len(
                    args) > 1 else ['?']
            for n in names or ['?']:
                self.set_attr(first, n, args[2] if len(args) > 2 else V_NONE)
            return V_NONE
        if name in ('id', 'hash'):
            self.site('state')
            self.equated(first, name)
            inst = self.instances[self.current]
            if inst.code.co_name != '__hash__':
                self.flag('state', '%s() is used' % name)
            return V_PLAIN
        if name == 'repr':
            return V_PLAIN
        if name == 'print':
            return V_NONE
        if name in ARITH_FUNCS:
            self.site('number')
            if numeric(allv):
                self.flag('number', '%s() of a coordinate' % name)
                return V_COORD
            return V_PLAIN
        if name == 'globals':
            self.flag('state', 'globals() is used')
            return V_UNK
        if name == 'chain':
            return self.invoke(self.wrap(self.program.prelude['chain']),
                               args, kwargs, star)
        if name == 'partial':
            p = self.alloc('part')
            self.put(p, 'func', first)
            for i, v in enumerate(args[1:]):
                self.put(p, ('a', i), v)
            for k, v in kwargs.items():
                self.put(p, ('kw', k), v)
            return frozenset((p,))
        if name == '_append':
            self.write_item(first, V_PLAIN, args[1], 'is added')
            return V_NONE
        if name == 'copy':
            return self.copy(first)
        if name == 'cast':
            return args[1]
        if name == '_with_default':
            for a in first:
                if a[0] == 'dict':
                    self.put(a, 'e', self.invoke(args[1], [], {}))
            return first
        if name in ('lru_cache', 'cache'):
            self.flag('state', '%s is used inside a query' % name)
            return first
        if name in ('wraps', 'recursive_repr', 'abstractmethod', 'final',
                    'unique'):
            return first or V_UNK
        return self.new('list', allv) | V_UNK if allv else V_UNK

    def copy(self, value):
        out = EMPTY
        for a in value:
            if a[0] == 'arg':
                out |= self.new('list', self.elems1(a))
            elif a[0] in ('list', 'set'):
                out |= self.new(a[0], self.elems1(a))
            elif a[0] == 'dict':
                out |= self.new('dict', self.get(a, 'e'), self.get(a, 'k'))
            elif a[0] == 'inst':
                n = self.alloc('inst', a[3])
                for f in list(self.fields(a)):
                    self.put(n, f, self.get(a, f))
                out |= frozenset((n,))
            else:
                out |= frozenset((a,))
        return out

    def construct(self, cls, args, kwargs, star, dstar):
        name = cls.name
        if star:
            args = args + [star]
        first = args[0] if args else EMPTY
        if cls.native is not None:
            if name in ('list', 'tuple', 'set', 'frozenset'):
                if name in ('list', 'tuple'):
                    for a in first:
                        if a[0] in ('set', 'kset'):
                            self.hash_order(a, '%s() of a set' % name)
                if name == 'tuple' and len(first) == 1:
                    (a,) = first
                    if a[0] in ('tuple', 'ktuple'):
                        return first
                return self.new({'frozenset': 'set'}.get(name, name),
                                self.elements(first))
            if name == 'dict':
                r = self.new('dict')
                (a,) = r
                if first:
                    self.container_method(a, 'update', [first], {})
                for v in kwargs.values():
                    self.put(a, 'e', v)
                    self.put(a, 'k', V_PLAIN)
                return r
            if name in ('int', 'float', 'complex'):
                self.site('number')
                if any(numeric(v) for v in args):
                    self.flag('number', '%s() of a coordinate' % name)
                    return V_COORD
                return V_PLAIN
            if name == 'bool':
                self.truth(first)
                return BOOL
            if name == 'str':
                # text of a coordinate is still worth as much as it
                return V_COORD if numeric(first) else V_PLAIN
            if name == 'range':
                return self.new('list', V_PLAIN, extra='range')
            if name == 'slice':
                return frozenset((('slice',),))
            if name == 'type':
                self.typed(first)
                out = EMPTY
                for a in first:
                    if a[0] in ('coord', 'cnum'):
                        self.flag('number', 'the type of a coordinate is '
                                  'used')
                        out |= V_UNK
                    elif a[0] in ('geo', 'mpt', 'geoobj', 'arg', 'box'):
                        out |= frozenset((('type', '?'),))
                    elif a[0] == 'inst':
                        out |= frozenset((('v', a[3]),))
                    else:
                        out |= V_UNK
                return out
            return V_UNK
        if cls.enum_members is not None:
            return frozenset(('v', e) for e in cls.enum_members.values())
        if cls.issub(self.program.builtins['BaseException']):
            return frozenset((EXC,))
        a = self.alloc('inst', cls)
        r = frozenset((a,))
        new = self.lookup(cls, '__new__')
        if isinstance(new, (Func, StaticM)):
            r = self.invoke(self.wrap(new.f if isinstance(new, StaticM)
                                      else new),
                            [frozenset((('v', cls),))] + args, kwargs, None,
                            dstar) or r
        init = self.lookup(cls, '__init__')
        if isinstance(init, Func):
            self.invoke(self.wrap(init), [frozenset((a,))] + args, kwargs,
                        star, dstar)
        elif isinstance(init, Native):
            fs = self.lookup(cls, '_fields')
            if isinstance(fs, tuple):
                for n, v in zip(fs, args):
                    self.put(a, n, v)
                for n, v in kwargs.items():
                    self.put(a, n, v)
        return r

    def external(self, o, args, kwargs, star):
        self.site('state')
        vals = EMPTY
        for v in list(args) + list(kwargs.values()) + (
                [star] if star else []):
            vals |= v
        top = o.name.split('.')[0]
        if top in IMPURE and top not in HARMLESS:
            self.flag('state', '%s is called' % o.name)
        if top == 'ground':
            self.site('context')
            self.flag('context', '%s is used instead of the context'
                      % o.name)
        if numeric(vals):
            self.site('number')
            self.flag('number', '%s is applied to a coordinate' % o.name)
            return V_COORD
        if any(x[0] in ('geo', 'mpt') for x in vals) and top in (
                'math', 'cmath', 'fractions', 'decimal', 'numpy', 'ground'):
            self.flag('number', '%s is applied to an operand' % o.name)
        if o.name.split('.')[-1] in ('insort', 'insort_left', 'insort_right',
                                     'shuffle', 'heapreplace', 'heappushpop',
                                     'setattr', 'delattr'):
            self.site('mutation')
            for v in args[:1]:
                if any(is_input(x) for x in v):
                    self.flag('mutation', '%s changes an operand' % o.name)
                for x in v:
                    if self.outlives(x):
                        self.flag('state', '%s changes %s, which outlives '
                                  'the query' % (o.name, describe(x)))
        return V_UNK

    # ------------------------------------------------------------ operators
    def truth(self, v):
        """Possible truth values."""
        out = set()
        for a in v:
            t = a[0]
            if t == 'none':
                out.add(False)
            elif t == 'k':
                out.add(bool(a[1]))
            elif t in ('ctx', 'geo', 'mpt'):
                # classes of contexts and geometries may define their truth
                self.site('interface')
                self.flag('interface', 'the truth value of a %s is used'
                          % {'ctx': 'context', 'mpt': 'point'}.get(t, a[-1]))
                out |= {True, False}
            elif t in ('fn', 'ctxfn', 'bound', 'part'):
                out.add(True)
            elif t in ('coord', 'cnum'):
                self.site('number')
                self.flag('number', 'the truth value of a coordinate is '
                          'used')
                return {True, False}
            elif t == 'inst':
                for n in ('__bool__', '__len__'):
                    m = self.lookup(a[3], n)
                    if m is not NULL:
                        self.invoke(self.wrap(m), [frozenset((a,))], {})
                        out |= {True, False}
                        break
                else:
                    out.add(True)
            else:
                out |= {True, False}
        return out

    DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv',
              '//': 'floordiv', '%': 'mod', '**': 'pow', '&': 'and',
              '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift',
              '@': 'matmul'}

    def binary(self, op, a, b):
        inplace = op.endswith('=')
        op = op.rstrip('=')
        self.site('number')
        if numeric(a) or numeric(b):
            other = (a - {COORD, CNUM}) | (b - {COORD, CNUM})
            if not (op in '&|^' and not other - {TRUE, FALSE, PLAIN}):
                self.flag('number', 'operator %s is applied to a coordinate'
                          % op)
            return V_COORD
        if inplace:
            self.site('mutation')
            for x in a:
                if x[0] == 'arg' and op in '+*':
                    self.flag('mutation', 'a list of an operand is extended '
                              'in place')
                elif x[0] == 'v' and isinstance(x[1], (Ref, VSet, VDict)):
                    self.flag('state', '%s, which outlives the query, is '
                              'changed in place' % describe(x))
        out = EMPTY
        if any(x[0] == 'arg' for x in a | b):
            self.site('interface')
            self.flag('interface', 'operator %s is applied to a sequence of '
                      'an operand' % op)
        for x in a:
            t = x[0]
            if t in ('k', 'plain', 'none'):
                if any(y[0] in ('list', 'tuple', 'arg', 'ktuple') for y in b):
                    out |= self.joined(a, b, 'list')
                else:
                    out |= V_PLAIN
            elif t in ('list', 'arg'):
                if inplace and t == 'list':
                    self.put(x, 'e', self.elements(b))
                    out |= frozenset((x,))
                else:
                    out |= self.joined(frozenset((x,)), b, 'list')
            elif t in ('tuple', 'ktuple'):
                out |= self.joined(frozenset((x,)), b, 'tuple')
            elif t in ('set', 'kset', 'view', 'dict'):
                if inplace and t in ('set', 'dict'):
                    self.put(x, 'e', self.elements(b))
                    out |= frozenset((x,))
                else:
                    out |= self.joined(frozenset((x,)), b, 'set')
            elif t in ('inst',) or t == 'v' and isinstance(x[1], Obj):
                cls = x[3] if t == 'inst' else x[1].cls
                m = self.lookup(cls, '__%s__' % self.DUNDER.get(op, op))
                if m is not NULL:
                    out |= self.invoke(self.wrap(m), [frozenset((x,)), b],
                                       {})
                else:
                    out |= V_UNK
            elif t == 'v' and isinstance(x[1], (Ref, VSet)):
                out |= self.joined(frozenset((x,)), b, 'list'
                                   if isinstance(x[1], Ref) else 'set')
            elif t == 'v':
                out |= V_PLAIN
            else:
                out |= V_UNK
        return out

    def joined(self, a, b, typ):
        bs = frozenset(x for x in b if x[0] not in ('k', 'plain'))
        as_ = frozenset(x for x in a if x[0] not in ('k', 'plain'))
        n = self.alloc(typ, 'joined')
        self.put(n, 'e', self.elements(as_) | self.elements(bs))
        return frozenset((n,))

    def compare(self, op, a, b):
        self.site('number')
        if a != V_NONE and b != V_NONE:
            self.equated(a, op)
            self.equated(b, op)
        self.numbers_compared(a, b, op)
        self.numbers_compared(b, a, op)
        name = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__',
                '==': '__eq__', '!=': '__ne__'}[op]
        swap = {'__lt__': '__gt__', '__le__': '__ge__', '__gt__': '__lt__',
                '__ge__': '__le__', '__eq__': '__eq__', '__ne__': '__ne__'}
        for x, y, n in ((a, b, name), (b, a, swap[name])):
            for e in x:
                if e[0] == 'inst':
                    m = self.lookup(e[3], n)
                    if m is NULL and n == '__ne__':
                        m = self.lookup(e[3], '__eq__')
                    if m is not NULL:
                        self.invoke(self.wrap(m), [frozenset((e,)), y], {})
                elif e[0] in ('tuple', 'ktuple', 'list') and op not in (
                        '==', '!='):
                    pass
        if len(a) == len(b) == 1:
            (x,), (y,) = a, b
            if x[0] == y[0] == 'k':
                try:
                    r = {'<': x[1] < y[1], '<=': x[1] <= y[1],
                         '>': x[1] > y[1], '>=': x[1] >= y[1],
                         '==': x[1] == y[1], '!=': x[1] != y[1]}[op]
                except TypeError:
                    return BOOL
                # constants join over iterations: keep both answers
                return BOOL
        return BOOL

    def numbers_compared(self, a, b, op):
        if COORD in a:
            for y in b:
                if y[0] == 'k' and isinstance(y[1], (int, float)) and not (
                        isinstance(y[1], bool)):
                    self.flag('number', 'a coordinate is compared with the '
                              'constant %r' % (y[1],))
                    break
        if CNUM in a:
            for y in b:
                if y[0] == 'k' and isinstance(y[1], (int, float)) and y[1]:
                    self.flag('number', 'a computed number is compared with '
                              'the constant %r' % (y[1],))
                    break

    def identity(self, a, b):
        self.site('state')
        if a == V_NONE or b == V_NONE:
            other = b if a == V_NONE else a
            if NONE not in other:
                return frozenset((FALSE,)) if UNK not in other else BOOL
            if other == V_NONE:
                return frozenset((TRUE,))
            return BOOL
        mine = [x for x in a if x[0] in ('geo', 'arg', 'coord', 'mpt')]
        its = [x for x in b if x[0] in ('geo', 'arg', 'coord', 'mpt')]
        if mine and its:
            self.flag('state', 'identity of operands or coordinates is '
                      'compared')
        return BOOL

    # ------------------------------------------------------------- running
    def run(self, func, args, kwargs):
        self.queued = set()
        f = ('fn', func)
        root = (f, None, None)
        inst = self.instances[root] = Instance(root, f, func.code,
                                               func.glob, None)
        if func.code.co_flags & 0x20:
            inst.gen = ('gen', root)
        inst.cells = None
        self.current = root
        self.ins = decode(func.code)[0][0]
        self.bind(inst, [self.wrap(v) for v in func.defaults],
                  {k: self.wrap(v) for k, v in func.kwdefaults.items()},
                  args, kwargs)
        self.mark(root)
        n = 0
        while self.dirty:
            key = self.dirty.pop()
            self.queued.discard(key)
            self.step(self.instances[key])
            n += 1
            if n > 200000:
                raise Unsupported('no fixpoint')
        return inst

    def step(self, inst):
        self.current = inst.key
        self.runs += 1
        code = inst.code
        instrs, index, table = decode(code)
        locs = {n: v for n, v in inst.params.items()}
        for n in code.co_cellvars:
            if n in locs:
                self.put(('cell', inst.key, n), 'v', locs[n])
        states = {0: ((), locs)}
        work = [0]
        self.next_pc = None
        while work:
            pc = work.pop()
            stack, loc = states[pc]
            self.ins = instrs[pc]
            kw = ()
            j = pc - 1
            if j >= 0 and instrs[j].op == 'KW_NAMES':
                kw = code.co_consts[instrs[j].arg]
            outs = self.transfer(inst, instrs, index, pc, list(stack),
                                 dict(loc), kw)
            off = self.ins.offset
            for start, end, target, depth, lasti in table:
                if start <= off < end:
                    st = list(stack[:depth])
                    if lasti:
                        st.append(V_PLAIN)
                    st.append(frozenset((EXC,)))
                    outs.append((index[target], st, dict(loc)))
                    # the variable assigned here may be unset or set
                    break
            for npc, st, lo in outs:
                old = states.get(npc)
                if old is None:
                    states[npc] = tuple(st), lo
                    work.append(npc)
                    continue
                s2, l2, ch = join(old, tuple(st), lo)
                if ch:
                    states[npc] = s2, l2
                    if npc not in work:
                        work.append(npc)
        self.current = None

    def returned(self, inst, v):
        if inst.gen is not None:
            return
        if not v <= inst.ret:
            inst.ret = widen(inst.ret | v)
            for k in self.deps.get((inst.key, 'ret'), ()):
                self.mark(k)

    def cell_of(self, inst, name):
        """Heap cell of a captured variable."""
        if name in inst.code.co_cellvars:
            return ('cell', inst.key, name)
        a = inst.atom
        if a[0] == 'clo':
            return ('cell', a[3], name)
        return None

    def transfer(self, inst, instrs, index, pc, st, loc, kw):
        ins = instrs[pc]
        op = ins.op
        nxt = pc + 1

        def go():
            return [(nxt, st, loc)]
        if op in ('NOP', 'RESUME', 'CACHE', 'PRECALL', 'MAKE_CELL',
                  'COPY_FREE_VARS', 'SETUP_ANNOTATIONS', 'KW_NAMES',
                  'DELETE_FAST', 'EXTENDED_ARG'):
            return go()
        if op == 'POP_TOP':
            st.pop()
            return go()
        if op == 'END_FOR':
            del st[-2:]
            return go()
        if op == 'END_SEND':
            v = st.pop()
            st[-1] = v
            return go()
        if op == 'PUSH_NULL':
            st.append(None)
            return go()
        if op == 'COPY':
            st.append(st[-ins.arg])
            return go()
        if op == 'SWAP':
            st[-1], st[-ins.arg] = st[-ins.arg], st[-1]
            return go()
        if op == 'LOAD_CONST':
            c = ins.argval
            st.append(frozenset((('code', c),)) if hasattr(c, 'co_code')
                      else self.wrap(c))
            return go()
        if op == 'RETURN_CONST':
            self.returned(inst, self.wrap(ins.argval))
            return []
        if op == 'RETURN_VALUE':
            self.returned(inst, st.pop())
            return []
        if op in ('LOAD_FAST', 'LOAD_FAST_CHECK'):
            v = loc.get(ins.argval)
            if v is None:
                if op == 'LOAD_FAST_CHECK':
                    return []
                v = EMPTY
            st.append(v)
            return go()
        if op == 'LOAD_FAST_AND_CLEAR':
            st.append(loc.get(ins.argval, EMPTY))
            return go()
        if op == 'STORE_FAST':
            loc[ins.argval] = st.pop()
            return go()
        if op == 'LOAD_CLOSURE':
            c = self.cell_of(inst, ins.argval)
            st.append(frozenset((c if c is not None else
                                 ('hostcell', ins.argval),)))
            return go()
        if op in ('LOAD_DEREF', 'LOAD_FROM_DICT_OR_DEREF'):
            if op != 'LOAD_DEREF':
                st.pop()
            st.append(self.load_cell(inst, ins.argval))
            return go()
        if op == 'STORE_DEREF':
            v = st.pop()
            c = self.cell_of(inst, ins.argval)
            self.site('state')
            if c is None:
                self.remembered(v)
                self.flag('state', 'variable %s of an enclosing scope that '
                          'outlives the query is set' % ins.argval)
            else:
                self.put(c, 'v', v)
            return go()
        if op == 'DELETE_DEREF':
            return go()
        if op in ('LOAD_GLOBAL', 'LOAD_NAME', 'LOAD_FROM_DICT_OR_GLOBALS'):
            if op == 'LOAD_FROM_DICT_OR_GLOBALS':
                st.pop()
            n = ins.argval
            if op == 'LOAD_GLOBAL' and ins.arg & 1:
                st.append(None)
            d = inst.glob.d
            if n in d:
                v = self.wrap(d[n])
            elif n in self.program.builtins:
                v = self.wrap(self.program.builtins[n])
            else:
                v = frozenset((('v', self.opaque('builtins.' + n)),))
            st.append(v)
            return go()
        if op in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
            if op == 'STORE_GLOBAL':
                self.remembered(st.pop())
            self.site('state')
            self.flag('state', 'global variable %s is set' % ins.argval)
            return go()
        if op in ('STORE_NAME', 'DELETE_NAME'):
            if op == 'STORE_NAME':
                st.pop()
            return go()
        if op == 'LOAD_ATTR':
            v = st.pop()
            r = self.field(v, ins.argval)
            if ins.arg & 1:
                st.append(None)
            st.append(r)
            return go()
        if op == 'LOAD_SUPER_ATTR':
            s = st.pop()
            cls = st.pop()
            st.pop()
            out = EMPTY
            for c in cls:
                if c[0] == 'v' and isinstance(c[1], Cls):
                    for a in s:
                        own = (a[3] if a[0] == 'inst' else None)
                        mro = own.mro if own is not None else c[1].mro
                        i = mro.index(c[1]) if c[1] in mro else -1
                        for k in mro[i + 1:]:
                            if ins.argval in k.d:
                                out |= self.from_class(a, k,
                                                       k.d[ins.argval])
                                break
            if ins.arg & 1:
                st.append(None)
            st.append(out or V_UNK)
            return go()
        if op == 'STORE_ATTR':
            target = st.pop()
            value = st.pop()
            self.set_attr(target, ins.argval, value)
            return go()
        if op == 'DELETE_ATTR':
            self.set_attr(st.pop(), ins.argval, EMPTY)
            return go()
        if op in ('POP_JUMP_IF_FALSE', 'POP_JUMP_IF_TRUE'):
            v = st.pop()
            t = self.truth(v)
            want = op.endswith('TRUE')
            outs = []
            if want in t:
                outs.append((index[ins.argval], list(st),
                             self.refine(instrs, pc, dict(loc), want)))
            if (not want) in t:
                outs.append((nxt, list(st),
                             self.refine(instrs, pc, dict(loc), not want)))
            return outs
        if op in ('POP_JUMP_IF_NONE', 'POP_JUMP_IF_NOT_NONE'):
            v = st.pop()
            none = NONE in v or UNK in v
            other = bool(v - {NONE})
            outs = []
            jump_none = op == 'POP_JUMP_IF_NONE'
            prev = instrs[pc - 1] if pc else None
            var = (prev.argval if prev is not None and prev.op in (
                'LOAD_FAST', 'LOAD_FAST_CHECK') else None)

            def branch(is_none, target):
                l2 = dict(loc)
                if var is not None and var in l2:
                    l2[var] = (V_NONE if is_none and UNK not in v
                               else l2[var] - {NONE} if not is_none
                               else l2[var])
                outs.append((target, list(st), l2))
            if none:
                branch(True, index[ins.argval] if jump_none else nxt)
            if other:
                branch(False, nxt if jump_none else index[ins.argval])
            return outs
        if op in ('JUMP_FORWARD', 'JUMP_BACKWARD',
                  'JUMP_BACKWARD_NO_INTERRUPT'):
            return [(index[ins.argval], st, loc)]
        if op == 'UNARY_NOT':
            t = self.truth(st.pop())
            st.append(frozenset(('k', not x) for x in t))
            return go()
        if op in ('UNARY_NEGATIVE', 'UNARY_INVERT'):
            v = st.pop()
            self.site('number')
            if numeric(v):
                self.flag('number', 'a coordinate is negated')
                st.append(V_COORD)
            else:
                st.append(V_PLAIN)
            return go()
        if op == 'BINARY_OP':
            b = st.pop()
            a = st.pop()
            name = BINARY_NAMES[ins.arg]
            st.append(self.binary(name, a, b) if a and b else EMPTY)
            return go()
        if op == 'COMPARE_OP':
            b = st.pop()
            a = st.pop()
            st.append(self.compare(ins.argval, a, b) if a and b else EMPTY)
            return go()
        if op == 'IS_OP':
            b = st.pop()
            a = st.pop()
            r = self.identity(a, b) if a and b else EMPTY
            if ins.arg:
                r = frozenset(('k', not x[1]) for x in r)
            st.append(r)
            return go()
        if op == 'CONTAINS_OP':
            b = st.pop()
            a = st.pop()
            for x in b:
                if x[0] == 'inst':
                    m = self.lookup(x[3], '__contains__')
                    if m is not NULL:
                        self.invoke(self.wrap(m), [frozenset((x,)), a], {})
            if any(x[0] not in ('inst', 'box') for x in b):
                self.equated(a, 'in')
            if numeric(a):
                self.numbers_compared(a, self.elements(b), 'in')
            else:
                for x in a:
                    if x[0] == 'inst':
                        m = self.lookup(x[3], '__eq__')
                        if m is not NULL:
                            self.invoke(self.wrap(m), [frozenset((x,)),
                                                       self.elements(b)], {})
            st.append(BOOL if a and b else EMPTY)
            return go()
        if op == 'BUILD_TUPLE':
            n = ins.arg
            vals = st[len(st) - n:] if n else []
            if n:
                del st[-n:]
            if n and all(len(v) == 1 and next(iter(v))[0] == 'cell'
                         for v in vals):
                st.append(('cells', vals) and frozenset(
                        next(iter(v)) for v in vals))
                return go()
            a = self.alloc('tuple')
            for i, v in enumerate(vals):
                self.put(a, i, v)
            self.put(a, 'n', frozenset((('k', n),)))
            st.append(frozenset((a,)))
            return go()
        if op in ('BUILD_LIST', 'BUILD_SET'):
            n = ins.arg
            vals = EMPTY
            if n:
                for v in st[-n:]:
                    vals |= v
                del st[-n:]
            st.append(self.new('list' if op == 'BUILD_LIST' else 'set',
                               vals))
            return go()
        if op == 'BUILD_MAP':
            n = ins.arg
            ks = vs = EMPTY
            if n:
                items = st[-2 * n:]
                del st[-2 * n:]
                for v in items[::2]:
                    ks |= v
                for v in items[1::2]:
                    vs |= v
            st.append(self.new('dict', vs, ks))
            return go()
        if op == 'BUILD_CONST_KEY_MAP':
            n = ins.arg
            st.pop()
            vs = EMPTY
            for v in st[-n:]:
                vs |= v
            del st[-n:]
            st.append(self.new('dict', vs, V_PLAIN))
            return go()
        if op == 'BUILD_STRING':
            if ins.arg:
                del st[-ins.arg:]
            st.append(V_PLAIN)
            return go()
        if op == 'FORMAT_VALUE':
            if ins.arg & 4:
                st.pop()
            st.pop()
            st.append(V_PLAIN)
            return go()
        if op == 'BUILD_SLICE':
            del st[-ins.arg:]
            st.append(frozenset((('slice',),)))
            return go()
        if op in ('LIST_APPEND', 'SET_ADD'):
            v = st.pop()
            for a in st[-ins.arg]:
                self.put(a, 'e', v)
            return go()
        if op == 'MAP_ADD':
            v = st.pop()
            k = st.pop()
            for a in st[-ins.arg]:
                self.put(a, 'e', v)
                self.put(a, 'k', k)
            return go()
        if op in ('LIST_EXTEND', 'SET_UPDATE'):
            v = st.pop()
            for a in st[-ins.arg]:
                self.put(a, 'e', self.elements(v))
            return go()
        if op in ('DICT_UPDATE', 'DICT_MERGE'):
            v = st.pop()
            for a in st[-ins.arg]:
                self.container_method(a, 'update', [v], {})
            return go()
        if op == 'UNPACK_SEQUENCE':
            v = st.pop()
            n = ins.arg
            parts = [EMPTY] * n
            for a in v:
                if a[0] in ('tuple', 'ktuple') and self.size(a) is not None:
                    if self.size(a) == n:
                        for i in range(n):
                            parts[i] |= self.get(a, i)
                else:
                    e = self.elems1(a)
                    parts = [p | e for p in parts]
            st.extend(reversed(parts))
            return go()
        if op == 'UNPACK_EX':
            v = st.pop()
            before, after = ins.arg & 0xff, ins.arg >> 8
            e = self.elements(v)
            l = self.new('list', e)
            st.extend([e] * after + [l] + [e] * before)
            return go()
        if op == 'BINARY_SUBSCR':
            i = st.pop()
            v = st.pop()
            st.append(self.item(v, i))
            return go()
        if op == 'BINARY_SLICE':
            st.pop()
            st.pop()
            v = st.pop()
            st.append(self.item(v, frozenset((('slice',),))))
            return go()
        if op == 'STORE_SUBSCR':
            k = st.pop()
            t = st.pop()
            v = st.pop()
            if any(x[0] == 'slice' for x in k):
                v = self.elements(v)
            self.write_item(t, k, v)
            return go()
        if op == 'STORE_SLICE':
            st.pop()
            st.pop()
            t = st.pop()
            v = st.pop()
            self.write_item(t, V_PLAIN, self.elements(v))
            return go()
        if op == 'DELETE_SUBSCR':
            k = st.pop()
            t = st.pop()
            self.write_item(t, EMPTY, EMPTY, 'is deleted')
            return go()
        if op == 'GET_LEN':
            st.append(V_PLAIN)
            return go()
        if op in ('GET_ITER', 'GET_YIELD_FROM_ITER'):
            v = st.pop()
            for a in v:
                if a[0] == 'set' and any(
                        x[0] == 'inst'
                        and self.lookup(x[3], '__hash__') is NULL
                        for x in self.elems1(a)):
                    if (not inst.glob.name.startswith('<')
                            and pc + 1 < len(instrs)
                            and instrs[pc + 1].op == 'FOR_ITER'):
                        self.flag('state', 'objects are visited in the order '
                                  'of their identity')
            st.append(self.iterator(v))
            return go()
        if op == 'FOR_ITER':
            it = st[-1]
            e = self.advance(it)
            outs = [(index[ins.argval], st + [V_UNK], dict(loc))]
            for a in it:
                if a[0] == 'inst':
                    m = self.lookup(a[3], '__next__')
                    if m is not NULL:
                        e |= self.invoke(self.wrap(m), [frozenset((a,))],
                                         {})
            if e:
                outs.append((nxt, st + [e], dict(loc)))
            return outs
        if op == 'SEND':
            st.pop()
            it = st[-1]
            e = self.elements(it)
            outs = [(index[ins.argval], st + [V_NONE | V_UNK], dict(loc))]
            if e:
                outs.append((nxt, st + [e], dict(loc)))
            return outs
        if op == 'YIELD_VALUE':
            v = st.pop()
            if inst.gen is not None:
                self.put(inst.gen, 'e', v)
            st.append(V_NONE)
            return go()
        if op == 'RETURN_GENERATOR':
            st.append(V_UNK)
            return go()
        if op == 'PUSH_EXC_INFO':
            v = st.pop()
            st.append(V_NONE)
            st.append(v)
            return go()
        if op == 'CHECK_EXC_MATCH':
            st.pop()
            st.append(BOOL)
            return go()
        if op == 'POP_EXCEPT':
            st.pop()
            return go()
        if op in ('RERAISE', 'RAISE_VARARGS'):
            return []
        if op == 'LOAD_ASSERTION_ERROR':
            st.append(V_UNK)
            return go()
        if op == 'CLEANUP_THROW':
            del st[-3:]
            st.extend((V_NONE, V_UNK))
            return go()
        if op == 'BEFORE_WITH':
            v = st.pop()
            st.append(V_UNK)
            out = EMPTY
            for a in v:
                if a[0] == 'inst':
                    m = self.lookup(a[3], '__enter__')
                    if m is not NULL:
                        out |= self.invoke(self.wrap(m), [frozenset((a,))],
                                           {})
                elif self.outlives(a):
                    out |= V_UNK
                else:
                    out |= V_UNK
            st.append(out)
            return go()
        if op == 'WITH_EXCEPT_START':
            st.append(BOOL)
            return go()
        if op == 'MAKE_FUNCTION':
            code = st.pop()
            cells = kwd = defs = None
            if ins.arg & 8:
                cells = st.pop()
            if ins.arg & 4:
                st.pop()
            if ins.arg & 2:
                kwd = st.pop()
            if ins.arg & 1:
                defs = st.pop()
            out = EMPTY
            for c in code:
                if c[0] != 'code':
                    continue
                owner = None
                if cells:
                    for x in cells:
                        if x[0] == 'cell':
                            owner = x[1]
                    # captured from several frames: remember each variable
                a = ('clo', c[1], inst.glob, owner or inst.key)
                if cells:
                    for x in cells:
                        if x[0] == 'cell' and x[1] != (owner or inst.key):
                            # forwarded through an intermediate scope
                            self.put(('cell', owner or inst.key, x[2]), 'v',
                                     self.get(x, 'v'))
                if inst.atom[0] == 'clo' or inst.code.co_freevars:
                    for n in c[1].co_freevars:
                        cell = self.cell_of(inst, n)
                        if cell is not None and cell[1] != a[3]:
                            self.put(('cell', a[3], n), 'v',
                                     self.get(cell, 'v'))
                if defs:
                    for d in defs:
                        n = self.size(d) if d[0] in ('tuple',
                                                     'ktuple') else None
                        if n is not None:
                            for i in range(n):
                                self.put(a, ('d', i), self.get(d, i))
                if kwd:
                    for d in kwd:
                        for n in c[1].co_varnames[
                                c[1].co_argcount:c[1].co_argcount
                                + c[1].co_kwonlyargcount]:
                            self.put(a, ('kd', n), self.get(d, 'e'))
                out |= frozenset((a,))
            st.append(out)
            return go()
        if op == 'LOAD_BUILD_CLASS':
            st.append(V_UNK)
            return go()
        if op == 'CALL':
            n = ins.arg
            args = st[len(st) - n:] if n else []
            if n:
                del st[-n:]
            b = st.pop()
            a = st.pop()
            if a is None:
                f = b
            else:
                f = a
                args = [b] + args
            pos = args[:len(args) - len(kw)]
            kws = dict(zip(kw, args[len(args) - len(kw):]))
            if any(not v for v in args):
                st.append(EMPTY)
                # an argument is still unknown: wait
                return go() if False else []
            st.append(self.invoke(f, pos, kws))
            return go() if st[-1] else []
        if op == 'CALL_FUNCTION_EX':
            d = st.pop() if ins.arg & 1 else None
            t = st.pop()
            f = st.pop()
            st.pop()
            pos, star = [], None
            exact = [a for a in t if a[0] in ('tuple', 'ktuple')
                     and self.size(a) is not None]
            if len(t) == 1 and exact:
                pos = [self.get(exact[0], i)
                       for i in range(self.size(exact[0]))]
            else:
                star = self.elements(t) or V_UNK
            dstar = None
            if d:
                dstar = EMPTY
                for a in d:
                    dstar |= self.get(a, 'e') if a[0] == 'dict' else V_UNK
            st.append(self.invoke(f, pos, {}, star, dstar))
            return go() if st[-1] else []
        if op == 'CALL_INTRINSIC_1':
            if ins.arg == 6:   # list to tuple
                v = st.pop()
                st.append(self.new('tuple', self.elements(v)))
            elif ins.arg == 5 or ins.arg == 3:
                pass
            return go()
        if op == 'IMPORT_NAME':
            st.pop()
            st.pop()
            try:
                m = self.program.import_(self.program.loader, ins.argval,
                                         True, 0, inst.glob)
                st.append(self.wrap(m))
            except Exception:
                st.append(V_UNK)
            return go()
        if op == 'IMPORT_FROM':
            st.append(self.field(st[-1], ins.argval))
            return go()
        raise Unsupported('instruction %s in %s' % (op,
                                                    inst.code.co_qualname))

    def refine(self, instrs, pc, loc, outcome):
        return loc

    OPAQUES = {}
    TYPE_ATTRS = {}

    def opaque(self, name):
        o = self.OPAQUES.get(name)
        if o is None:
            o = self.OPAQUES[name] = Opaque(name)
        return o

    def load_cell(self, inst, name):
        c = self.cell_of(inst, name)
        if c is not None:
            return self.get(c, 'v')
        a = inst.atom
        if a[0] == 'fn':
            f = a[1]
            names = f.code.co_freevars
            if name in names:
                cell = f.closure[names.index(name)]
                if isinstance(cell, Cell) and cell.v is not NULL:
                    return self.wrap(cell.v)
        return V_UNK


class Ref:
    """Identity of an unhashable program value."""
    _all = {}

    def __new__(cls, o):
        r = cls._all.get(id(o))
        if r is None:
            r = cls._all[id(o)] = object.__new__(cls)
            r.o = o
        return r

    def __repr__(self):
        return 'a module level %s' % type(self.o).__name__


def iterable(a):
    return a[0] != 'v' or isinstance(a[1], (Ref, VDict, VSet, Cls, Obj,
                                            EnumMember))


def describe(a):
    o = a[1]
    if isinstance(o, Ref):
        return repr(o)
    if isinstance(o, VDict):
        return 'a dictionary'
    if isinstance(o, VSet):
        return 'a set'
    return repr(o).strip('<>')


def hashable(o):
    try:
        hash(o)
        return True
    except TypeError:
        return False


def widen(v):
    """Too many different constants become an unknown plain value."""
    if len(v) > 8:
        ks = [a for a in v if a[0] == 'k' and not isinstance(a[1], bool)]
        if len(ks) > 6:
            return frozenset(a for a in v if a not in ks) | V_PLAIN
    return v


def join(old, st, lo):
    s1, l1 = old
    changed = False
    if len(s1) != len(st):
        n = min(len(s1), len(st))
        s1, st = s1[:n], st[:n]
        changed = True
    out = []
    for a, b in zip(s1, st):
        if a is None or b is None:
            out.append(a if b is None else b)
            continue
        if b <= a:
            out.append(a)
        else:
            out.append(widen(a | b))
            if out[-1] != a:
                changed = True
    l2 = l1
    for k, v in lo.items():
        o = l2.get(k)
        if o is None:
            if l2 is l1:
                l2 = dict(l1)
            l2[k] = v
            changed = True
        elif not v <= o:
            w = widen(o | v)
            if w != o:
                if l2 is l1:
                    l2 = dict(l1)
                l2[k] = w
                changed = True
    return tuple(out), l2, changed


import dis as _dis

BINARY_NAMES = {i: n[1] for i, n in enumerate(_dis._nb_ops)}


def analyse(program, name, kinds, mode):
    """Everything a public query may do."""
    f = Flow(program, mode)
    func = program.get('orient.planar', name)
    x, y = kinds
    ctx = (frozenset((('ctx', 'explicit'),)) if mode == 'explicit'
           else V_NONE)
    inst = f.run(func, [arg_value(x), arg_value(y)], {'context': ctx})
    return f, inst


def cycles(f):
    """Functions that call themselves, directly or through others.

    Nodes are functions per calling site; the strongly connected components
    of the graph of calls are found iteratively (Tarjan)."""
    index, low, on, stack, out = {}, {}, set(), [], []
    for root in list(f.instances):
        if root in index:
            continue
        work = [(root, iter(f.edges.get(root, ())))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in index:
                    index[w] = low[w] = len(index)
                    stack.append(w)
                    on.add(w)
                    work.append((w, iter(f.edges.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], index[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == index[v]:
                    part = []
                    while True:
                        w = stack.pop()
                        on.discard(w)
                        part.append(w)
                        if w == v:
                            break
                    if len(part) > 1 or v in f.edges.get(v, ()):
                        out.append(part)
    found = []
    for part in out:
        names, where = set(), None
        for k in part:
            i = f.instances[k]
            if i.glob.name.startswith('<'):
                continue
            names.add('%s.%s' % (i.glob.name, i.code.co_qualname))
            for t, w in f.edges.get(k, {}).items():
                if t in part:
                    where = where or w
        if not names:
            where = f.edges[part[0]].get(part[0]) or where
            names.add('iterators of %s' % ', '.join(
                sorted({f.instances[k].code.co_qualname for k in part})))
        if names:
            found.append((' <-> '.join(sorted(names)), where or '?'))
    return found
