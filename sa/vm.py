"""Abstract machine over CPython 3.12 bytecode.

The sources of the analysed package are *compiled* (never imported or
executed by the host interpreter); the resulting code objects are then
interpreted here over abstract values.  Everything the code touches --
frames, objects, classes, generators, iterators -- lives in structures of
this module, unknown values are :class:`Atom` instances whose operations are
answered by an abstract *world* (see ``world.py``), and every answer the
world leaves open splits the analysis.
"""
from __future__ import annotations

import dis
import os
import types

from dis import _parse_exception_table  # type: ignore


class Prune(Exception):
    """The current abstract path is subsumed by one already analysed."""


class Unsupported(Exception):
    """The machine met a construct it has no abstract semantics for."""


class StepLimit(Unsupported):
    pass


class VMRaise(Exception):
    """An analysed program lets an exception escape."""

    def __init__(self, exc, where=None):
        super().__init__(exc, where)
        self.exc = exc
        self.where = where


class _Null:
    def __repr__(self):
        return 'NULL'


NULL = _Null()


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=NULL):
        self.v = v


class Cls:
    def __init__(self, name, bases, d, module=None, native=None):
        self.name = name
        self.bases = tuple(bases)
        self.d = d
        self.module = module
        self.native = native  # host constructor: (m, cls, args, kwargs)
        self.mro = _mro(self)
        self.enum_members = None
        self.is_enum = any(b.is_enum for b in self.bases
                           if isinstance(b, Cls))
        self.writes = 0

    def lookup(self, name):
        for c in self.mro:
            if name in c.d:
                return c.d[name], c
        return NULL, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


def _mro(cls):
    seqs = [list(b.mro) for b in cls.bases if isinstance(b, Cls)]
    seqs.append([b for b in cls.bases if isinstance(b, Cls)])
    res = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return res
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent mro')
        res.append(h)
        for s in seqs:
            if s[0] is h:
                del s[0]


class Obj:
    __slots__ = ('cls', 'f', 'tag')

    def __init__(self, cls, f=None):
        self.cls = cls
        self.f = {} if f is None else f
        self.tag = None

    def __repr__(self):
        return '<%s object>' % self.cls.name


class EnumMember:
    __slots__ = ('cls', 'name', 'value')

    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)


class Func:
    def __init__(self, code, glob, defaults=(), kwdefaults=None, closure=(),
                 qualname=None):
        self.code = code
        self.glob = glob
        self.defaults = defaults
        self.kwdefaults = kwdefaults or {}
        self.closure = closure
        self.qualname = qualname or code.co_qualname
        self.d = {}

    @property
    def key(self):
        return self.glob.name, self.qualname

    def __repr__(self):
        return '<function %s.%s>' % self.key


class Bound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func, self.self = func, self_


class Partial:
    __slots__ = ('func', 'args', 'kwargs')

    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class StaticM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class ClassM:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class Prop:
    __slots__ = ('fget', 'fset')

    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedProp:
    __slots__ = ('f', 'name')

    def __init__(self, f):
        self.f = f
        self.name = f.qualname.rsplit('.', 1)[-1]


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return '<native %s>' % self.name


class Module:
    def __init__(self, name, d=None, opaque=False, file=None):
        self.name = name
        self.d = {} if d is None else d
        self.opaque = opaque
        self.file = file

    def __repr__(self):
        return '<module %s>' % self.name


class Opaque:
    """Value of an external the analysis does not model (type hints ...)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


class VDict:
    """Insertion ordered mapping with abstract equality of keys."""

    def __init__(self, items=()):
        self.items = [list(p) for p in items]
        self.default = None

    def find(self, m, key):
        for p in self.items:
            if m.eq(p[0], key):
                return p
        return None


class VSet:
    def __init__(self, items=(), frozen=False):
        self.items = list(items)
        self.frozen = frozen

    def has(self, m, v):
        return any(m.eq(x, v) for x in self.items)

    def add(self, m, v):
        if not self.has(m, v):
            self.items.append(v)


class InList(list):
    """Sequence reachable from the caller's arguments: must not change."""
    label = '?'


class SeqIter:
    """Iterator over a host sequence (list, tuple, range, str)."""
    __slots__ = ('seq', 'i')

    def __init__(self, seq):
        self.seq, self.i = seq, 0


class Atom:
    """Unknown value; the world answers what can be observed about it."""
    key = None
    operators = ()

    def v_getattr(self, m, name):
        raise Unsupported('attribute %r of %r' % (name, self))

    def v_setattr(self, m, name, value):
        m.effect('set attribute %r of %r' % (name, self))

    def v_call(self, m, args, kwargs):
        raise Unsupported('call of %r' % (self,))

    def v_iter(self, m):
        raise Unsupported('iteration over %r' % (self,))

    def v_next(self, m):
        raise Unsupported('next of %r' % (self,))

    def v_bool(self, m):
        return True

    def v_len(self, m):
        raise Unsupported('len of %r' % (self,))

    def v_getitem(self, m, index):
        raise Unsupported('subscript of %r' % (self,))

    def v_contains(self, m, item):
        raise Unsupported('membership in %r' % (self,))

    def v_eq(self, m, other):
        return self is other

    def v_cmp(self, m, op, other):
        raise Unsupported('comparison %s of %r' % (op, self))

    def v_binop(self, m, op, left, right):
        raise Unsupported('operation %s on %r' % (op, self))

    def v_unop(self, m, op):
        raise Unsupported('operation %s on %r' % (op, self))

    def v_isinstance(self, m, cls):
        raise Unsupported('isinstance of %r' % (self,))

    def v_type(self, m):
        raise Unsupported('type of %r' % (self,))


class CallVM:
    """Request to call something; its value becomes the pending result."""
    __slots__ = ('func', 'args', 'kwargs', 'k')

    def __init__(self, func, args=(), kwargs=None, k=None):
        self.func, self.args, self.kwargs, self.k = (func, tuple(args),
                                                     kwargs or {}, k)


class K:
    """Continuation of a host operation waiting for a called function."""
    __slots__ = ('fn', 'data', 'on_exc')

    def __init__(self, fn, data=(), on_exc=None):
        self.fn, self.data, self.on_exc = fn, data, on_exc


class Gen:
    __slots__ = ('frame', 'done', 'running', 'started', 'resume')

    def __init__(self, frame):
        self.frame, self.done, self.running = frame, False, False
        self.started = False
        self.resume = None


class Instr:
    __slots__ = ('op', 'arg', 'argval', 'line', 'offset')


_CODE_CACHE = {}


def decode(code):
    r = _CODE_CACHE.get(code)
    if r is None:
        instrs, index = [], {}
        line = code.co_firstlineno
        for ins in dis.get_instructions(code):
            if ins.opname in ('CACHE', 'EXTENDED_ARG'):
                # jumps may target the extended arg prefix
                index[ins.offset] = len(instrs)
                continue
            i = Instr()
            i.op, i.arg, i.argval, i.offset = (ins.opname, ins.arg,
                                               ins.argval, ins.offset)
            if ins.positions and ins.positions.lineno:
                line = ins.positions.lineno
            i.line = line
            index[ins.offset] = len(instrs)
            instrs.append(i)
        table = [(e.start, e.end, e.target, e.depth, e.lasti)
                 for e in _parse_exception_table(code)]
        r = _CODE_CACHE[code] = instrs, index, table
    return r


_LIVE_CACHE = {}


def liveness(code):
    """Names of locals that may still be read, per instruction."""
    r = _LIVE_CACHE.get(code)
    if r is not None:
        return r
    instrs, index, table = decode(code)
    n = len(instrs)
    always = set(code.co_cellvars) | set(code.co_freevars)
    use = [()] * n
    kill = [()] * n
    succ = [[] for _ in range(n)]
    for i, ins in enumerate(instrs):
        op = ins.op
        if op in ('LOAD_FAST', 'LOAD_FAST_CHECK', 'LOAD_FAST_AND_CLEAR',
                  'LOAD_CLOSURE', 'DELETE_FAST', 'LOAD_NAME'):
            use[i] = (ins.argval,)
        elif op == 'STORE_FAST':
            kill[i] = (ins.argval,)
        if 'JUMP' in op or op in ('FOR_ITER', 'SEND'):
            t = index.get(ins.argval)
            if t is None:
                _LIVE_CACHE[code] = r = [None] * n
                return r
            succ[i].append(t)
        if (op not in ('JUMP_FORWARD', 'JUMP_BACKWARD', 'RETURN_VALUE',
                       'RETURN_CONST', 'RAISE_VARARGS', 'RERAISE',
                       'JUMP_BACKWARD_NO_INTERRUPT') and i + 1 < n):
            succ[i].append(i + 1)
        for start, end, target, _, _ in table:
            if start <= ins.offset < end:
                succ[i].append(index[target])
    live = [set(always) for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            s = set()
            for j in succ[i]:
                s |= live[j]
            s -= set(kill[i])
            s |= set(use[i])
            s |= always
            if s != live[i]:
                live[i] = s
                changed = True
    _LIVE_CACHE[code] = live
    return live


class Frame:
    __slots__ = ('code', 'instrs', 'index', 'table', 'pc', 'stack', 'locs',
                 'glob', 'ns', 'gen', 'func', 'k', 'kw', 'last')

    def __init__(self, code, glob, locs, ns=None, func=None, k=None):
        self.code = code
        self.instrs, self.index, self.table = decode(code)
        self.pc = 0
        self.stack = []
        self.locs = locs
        self.glob = glob
        self.ns = ns
        self.gen = None
        self.func = func
        self.k = k
        self.kw = ()
        self.last = 0

    @property
    def where(self):
        i = self.instrs[self.last]
        return '%s:%d' % (self.glob.file or self.glob.name, i.line)


class Root:
    """Bottom of the frame stack."""

    def __init__(self):
        self.stack = []
        self.k = None


BINOPS = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b,
    '*': lambda a, b: a * b, '/': lambda a, b: a / b,
    '//': lambda a, b: a // b, '%': lambda a, b: a % b,
    '**': lambda a, b: a ** b, '&': lambda a, b: a & b,
    '|': lambda a, b: a | b, '^': lambda a, b: a ^ b,
    '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
}
CMPS = {
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
    '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
}
CMP_METHODS = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__',
               '==': '__eq__', '!=': '__ne__'}
CMP_SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==',
            '!=': '!='}
HOST = (int, float, str, bytes, bool, complex, type(None), type(...))


class Machine:
    """One abstract path through the analysed program."""

    MAX_STEPS = 4000000

    def __init__(self, program):
        self.program = program
        self.world = None
        self.frames = []
        self.steps = 0
        self.effects = []
        self.cur_exc = None
        self.trace = []
        self.hooks = {}
        self.watch = None
        self.seen_funcs = set()
        self.ret_site = None
        self.lines = None

    # ------------------------------------------------------------ helpers
    def effect(self, text):
        where = self.where()
        self.effects.append((where, text))

    def where(self):
        for f in reversed(self.frames):
            if isinstance(f, Frame) and not f.glob.name.startswith('<'):
                return f.where
        return '?'

    def stack_trace(self):
        return [f.where + ' in ' + f.code.co_qualname
                for f in reversed(self.frames)
                if isinstance(f, Frame) and not f.glob.name.startswith('<')]

    def exc(self, name, *args):
        o = Obj(self.program.builtins[name])
        o.f['args'] = tuple(args)
        return o

    def raise_(self, name, *args):
        raise VMRaise(self.exc(name, *args))

    # ----------------------------------------------------------- running
    def call(self, func, *args, **kwargs):
        """Runs the call to completion and returns its abstract value."""
        root = Root()
        base = len(self.frames)
        self.frames.append(root)
        try:
            self.start(CallVM(func, args, kwargs))
            self.loop(root)
            return root.stack.pop()
        finally:
            del self.frames[base:]

    def run_code(self, code, glob, ns=None):
        root = Root()
        base = len(self.frames)
        self.frames.append(root)
        try:
            fr = Frame(code, glob, {}, ns=glob.d if ns is None else ns)
            self.frames.append(fr)
            self.loop(root)
            return root.stack.pop()
        finally:
            del self.frames[base:]

    def loop(self, root):
        frames = self.frames
        while frames[-1] is not root:
            f = frames[-1]
            ins = f.instrs[f.pc]
            f.last = f.pc
            f.pc += 1
            self.steps += 1
            if self.steps > self.MAX_STEPS:
                raise StepLimit('step limit reached in '
                                + f.code.co_qualname)
            try:
                OPS[ins.op](self, f, ins)
            except VMRaise as e:
                if e.where is None:
                    e.where = self.stack_trace()
                self.unwind(e, root)

    def unwind(self, e, root):
        frames = self.frames
        while True:
            f = frames[-1]
            if f is root:
                raise e
            if isinstance(f, Root):
                raise e
            off = f.instrs[f.last].offset
            best = None
            for start, end, target, depth, lasti in f.table:
                if start <= off < end:
                    best = target, depth, lasti
                    break
            if best is not None:
                target, depth, lasti = best
                del f.stack[depth:]
                if lasti:
                    f.stack.append(off)
                f.stack.append(e.exc)
                f.pc = f.index[target]
                return
            frames.pop()
            if f.gen is not None:
                f.gen.done = True
                f.gen.running = False
                res = f.gen.resume
                if res is not None and res[0] == 'k':
                    k = res[1]
                    if k is not None and k.on_exc is not None:
                        r = k.on_exc(self, e, k.data)
                        if r is not NULL:
                            self.finish(r)
                            return
                continue
            k = f.k
            if k is not None and k.on_exc is not None:
                r = k.on_exc(self, e, k.data)
                if r is not NULL:
                    self.finish(r)
                    return

    def ret(self, value):
        """Top frame returns value to the frame below."""
        f = self.frames.pop()
        if not f.glob.name.startswith('<'):
            self.ret_site = f
        if f.gen is not None:
            g = f.gen
            g.done, g.running = True, False
            self.gen_finished(g, value)
            return
        k = f.k
        if k is None:
            self.frames[-1].stack.append(value)
        else:
            self.finish(k.fn(self, value, k.data))

    def finish(self, r):
        if isinstance(r, CallVM):
            self.start(r)
        else:
            self.frames[-1].stack.append(r)

    # --------------------------------------------------------- generators
    def gen_resume(self, gen, how, send=None):
        if gen.running:
            self.raise_('ValueError', 'generator already executing')
        gen.running = True
        gen.resume = how
        f = gen.frame
        self.frames.append(f)
        if gen.started:
            f.stack.append(send)
        else:
            gen.started = True
            f.stack.append(None)

    def gen_yield(self, value):
        f = self.frames.pop()
        g = f.gen
        g.running = False
        kind = g.resume[0]
        top = self.frames[-1]
        if kind == 'k':
            k = g.resume[1]
            if k is None:
                top.stack.append(value)
            else:
                self.finish(k.fn(self, value, k.data))
        else:  # for / send
            top.stack.append(value)

    def gen_finished(self, g, value):
        kind = g.resume[0]
        top = self.frames[-1]
        if kind == 'for':
            top.stack.pop()
            top.pc = g.resume[1]
        elif kind == 'send':
            top.stack.append(value)
            top.pc = g.resume[1]
        else:
            k = g.resume[1]
            e = VMRaise(self.exc('StopIteration', value),
                        self.stack_trace())
            if k is not None and k.on_exc is not None:
                r = k.on_exc(self, e, k.data)
                if r is not NULL:
                    self.finish(r)
                    return
            raise e

    # ------------------------------------------------------------ calling
    def start(self, c):
        """Starts a call; its value ends on the stack of the top frame."""
        func, args, kwargs, k = c.func, c.args, c.kwargs, c.k
        while True:
            if isinstance(func, Bound):
                args = (func.self,) + args
                func = func.func
            elif isinstance(func, Partial):
                args = func.args + args
                kwargs = {**func.kwargs, **kwargs}
                func = func.func
            elif isinstance(func, (StaticM, ClassM)):
                func = func.f
            else:
                break
        if isinstance(func, Func):
            if self.watch is not None:
                self.watch(self, func, args, kwargs)
            hook = self.hooks.get(func.key)
            if hook is None and self.hooks:
                hook = self.hooks.get(func.code)
            if hook is not None:
                r = hook(self, func, args, kwargs)
                if r is not NotImplemented:
                    self._k(r, k)
                    return
            self.seen_funcs.add(func.key)
            locs = self.bind(func, args, kwargs)
            f = Frame(func.code, func.glob, locs, func=func, k=k)
            if len(self.frames) > 400:
                raise Unsupported('recursion limit in ' + func.qualname)
            self.frames.append(f)
            return
        if isinstance(func, Native):
            self._k(func.fn(self, args, kwargs), k)
            return
        if isinstance(func, Cls):
            self._k(self.instantiate(func, args, kwargs), k)
            return
        if isinstance(func, Atom):
            self._k(func.v_call(self, args, kwargs), k)
            return
        if isinstance(func, Opaque):
            self._k(self.opaque_call(func, args, kwargs), k)
            return
        if isinstance(func, Obj):
            meth, _ = func.cls.lookup('__call__')
            if meth is not NULL:
                self.start(CallVM(meth, (func,) + args, kwargs, k))
                return
        raise Unsupported('call of %r at %s' % (func, self.where()))

    def _k(self, r, k):
        if k is None:
            self.finish(r)
        elif isinstance(r, CallVM):
            if r.k is None:
                self.start(CallVM(r.func, r.args, r.kwargs, k))
            else:
                inner = r.k
                self.start(CallVM(
                        r.func, r.args, r.kwargs,
                        K(_chain_ret, (inner, k),
                          _chain_exc if inner.on_exc else None)))
        else:
            self.finish(k.fn(self, r, k.data))

    def opaque_call(self, func, args, kwargs):
        self.world_event('external', func.name, args, kwargs)
        return Opaque(func.name + '()')

    def world_event(self, kind, *data):
        w = self.world
        if w is not None:
            w.event(self, kind, *data)

    def bind(self, func, args, kwargs):
        code = func.code
        nargs, nkw = code.co_argcount, code.co_kwonlyargcount
        names = code.co_varnames
        locs = {}
        pos = names[:nargs]
        flags = code.co_flags
        i = nargs + nkw
        varargs = names[i] if flags & 4 else None
        if varargs is not None:
            i += 1
        varkw = names[i] if flags & 8 else None
        for n, v in zip(pos, args):
            locs[n] = v
        if len(args) > nargs:
            if varargs is None:
                self.raise_('TypeError', 'too many arguments for '
                            + func.qualname)
            locs[varargs] = tuple(args[nargs:])
        elif varargs is not None:
            locs[varargs] = ()
        extra = {}
        kwonly = names[nargs:nargs + nkw]
        npos_only = code.co_posonlyargcount
        for n, v in kwargs.items():
            if n in pos[npos_only:] or n in kwonly:
                if n in locs:
                    self.raise_('TypeError', 'multiple values for ' + n)
                locs[n] = v
            elif varkw is not None:
                extra[n] = v
            else:
                self.raise_('TypeError', 'unexpected argument %r for %s'
                            % (n, func.qualname))
        if varkw is not None:
            locs[varkw] = VDict(extra.items())
        nd = len(func.defaults)
        for j, n in enumerate(pos):
            if n not in locs:
                dj = j - (nargs - nd)
                if dj < 0:
                    self.raise_('TypeError', 'missing argument %r of %s'
                                % (n, func.qualname))
                locs[n] = func.defaults[dj]
        for n in kwonly:
            if n not in locs:
                if n not in func.kwdefaults:
                    self.raise_('TypeError', 'missing argument %r of %s'
                                % (n, func.qualname))
                locs[n] = func.kwdefaults[n]
        return locs

    def instantiate(self, cls, args, kwargs):
        if cls.is_enum and cls.enum_members is not None:
            v, = args
            for mem in cls.enum_members.values():
                if isinstance(v, EnumMember):
                    if mem is v:
                        return mem
                elif isinstance(v, HOST):
                    if mem.value == v:
                        return mem
            if isinstance(v, Atom):
                raise Unsupported('enumeration from unknown value')
            self.raise_('ValueError', v)
        for c in cls.mro:
            if c.native is not None:
                return c.native(self, cls, args, kwargs)
            if '__init__' in c.d:
                break
        new, owner = cls.lookup('__new__')
        if new is not NULL:
            if isinstance(new, StaticM):
                new = new.f
            return CallVM(new, (cls,) + tuple(args), kwargs,
                          K(_after_new, (cls, args, kwargs)))
        o = Obj(cls)
        return self.init(o, args, kwargs)

    def init(self, o, args, kwargs):
        init, _ = o.cls.lookup('__init__')
        if init is NULL:
            if args or kwargs:
                if o.cls.issub(self.program.builtins['BaseException']):
                    o.f['args'] = tuple(args)
                    return o
                self.raise_('TypeError', '%s() takes no arguments'
                            % o.cls.name)
            return o
        return CallVM(init, (o,) + tuple(args), kwargs, K(_ret_data, (o,)))

    # --------------------------------------------------------- attributes
    def getattr_(self, v, name):
        """Returns the value or a CallVM; raises AttributeError."""
        if isinstance(v, Obj):
            a, owner = v.cls.lookup(name)
            if isinstance(a, Prop):
                return CallVM(a.fget, (v,))
            if name in v.f:
                return v.f[name]
            if isinstance(a, CachedProp):
                return CallVM(a.f, (v,), None, K(_store_attr, (v, a.name)))
            if a is not NULL:
                return self.bind_attr(a, v, v.cls)
            if name == '__class__':
                return v.cls
            if name == '__dict__':
                return VDict(v.f.items())
            if v.cls.issub(self.program.builtins['BaseException']):
                if name in ('with_traceback', 'add_note'):
                    return Native(name, lambda m, a, kw: v)
            g, _ = v.cls.lookup('__getattr__')
            if g is not NULL:
                return CallVM(g, (v, name))
            if name in ('__eq__', '__ne__'):
                return self.program.dunder(v, name)
            self.raise_('AttributeError', name)
        if isinstance(v, Atom):
            if name in v.operators:
                r = self.program.dunder(v, name)
                if r is not NULL:
                    return r
            return v.v_getattr(self, name)
        if isinstance(v, Module):
            if name in v.d:
                return v.d[name]
            sub = self.program.submodule(v.name, name)
            if sub is not None:
                return sub
            if v.opaque:
                return Opaque(v.name + '.' + name)
            self.raise_('AttributeError', '%s.%s' % (v.name, name))
        if isinstance(v, EnumMember):
            if name in ('value', '_value_'):
                return v.value
            if name in ('name', '_name_'):
                return v.name
            a, owner = v.cls.lookup(name)
            if isinstance(a, Prop):
                return CallVM(a.fget, (v,))
            if a is not NULL:
                return self.bind_attr(a, v, v.cls)
            if name == '__class__':
                return v.cls
            r = self.program.dunder(v, name)
            if r is not NULL and (name in ('__eq__', '__ne__')
                                  or isinstance(v.value, HOST)
                                  and hasattr(type(v.value), name)):
                return r
            if isinstance(v.value, HOST):
                return self.program.host_attr(self, v.value, name)
            self.raise_('AttributeError', name)
        if isinstance(v, Cls):
            a, owner = v.lookup(name)
            if a is not NULL:
                if isinstance(a, StaticM):
                    return a.f
                if isinstance(a, ClassM):
                    return Bound(a.f, v)
                return a
            if name == '__name__' or name == '__qualname__':
                return v.name
            if name == '__members__' and v.enum_members is not None:
                return VDict(v.enum_members.items())
            if name == '__module__':
                return v.module
            if name == '__mro__':
                return tuple(v.mro)
            if name == '__bases__':
                return v.bases
            if name == '__dict__':
                return VDict(v.d.items())
            if name == '__class__':
                return self.program.builtins['type']
            r = self.program.type_attr(self, v, name)
            if r is not NULL:
                return r
            self.raise_('AttributeError', name)
        if isinstance(v, Func):
            if name in v.d:
                return v.d[name]
            if name in ('__name__',):
                return v.code.co_name
            if name == '__qualname__':
                return v.qualname
            if name == '__doc__':
                return None
            if name == '__module__':
                return v.glob.name
            if name == '__wrapped__':
                self.raise_('AttributeError', name)
            if name == '__defaults__':
                return v.defaults
            if name == '__get__':
                return Native('__get__', lambda m, a, kw: Bound(v, a[0]))
            if name == '__call__':
                return v
            self.raise_('AttributeError', name)
        if isinstance(v, Bound):
            if name == '__self__':
                return v.self
            if name == '__func__':
                return v.func
            return self.getattr_(v.func, name)
        if isinstance(v, Partial):
            if name == 'func':
                return v.func
            if name == 'args':
                return v.args
            if name == 'keywords':
                return VDict(v.kwargs.items())
            self.raise_('AttributeError', name)
        if isinstance(v, Prop):
            if name == 'setter':
                return Native('setter',
                              lambda m, a, kw: Prop(v.fget, a[0]))
            if name == 'getter':
                return Native('getter',
                              lambda m, a, kw: Prop(a[0], v.fset))
            if name == 'fget':
                return v.fget
        if isinstance(v, Opaque):
            return Opaque(v.name + '.' + name)
        if isinstance(v, Native):
            if name in ('__name__', '__qualname__'):
                return v.name
            r = self.program.native_attr(self, v, name)
            if r is not NULL:
                return r
        return self.program.host_attr(self, v, name)

    def bind_attr(self, a, obj, cls):
        if isinstance(a, (Func, Native)):
            return Bound(a, obj)
        if isinstance(a, StaticM):
            return a.f
        if isinstance(a, ClassM):
            return Bound(a.f, cls)
        return a

    def setattr_(self, v, name, value):
        if isinstance(v, Obj):
            a, _ = v.cls.lookup(name)
            if isinstance(a, Prop):
                if a.fset is None:
                    self.raise_('AttributeError', name)
                return CallVM(a.fset, (v, value))
            s, _ = v.cls.lookup('__setattr__')
            if s is not NULL:
                return CallVM(s, (v, name, value))
            if v.tag == 'input':
                self.effect('attribute %r of an argument is set' % name)
            v.f[name] = value
            w = self.world
            if w is not None and w.watch_setattr is not None:
                w.watch_setattr(self, v, name, value)
            return None
        if isinstance(v, Atom):
            v.v_setattr(self, name, value)
            return None
        if isinstance(v, Cls):
            if self.world is not None:
                self.effect('class attribute %s.%s is set at run time'
                            % (v.name, name))
            v.d[name] = value
            return None
        if isinstance(v, Module):
            if self.world is not None:
                self.effect('module attribute %s.%s is set at run time'
                            % (v.name, name))
            v.d[name] = value
            return None
        if isinstance(v, Func):
            if self.world is not None:
                self.effect('function attribute %s.%s is set at run time'
                            % (v.qualname, name))
            v.d[name] = value
            return None
        if isinstance(v, Opaque):
            return None
        raise Unsupported('setting attribute %r of %r' % (name, v))

    # ---------------------------------------------------------- equality
    def eq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Atom):
            return a.v_eq(self, b)
        if isinstance(b, Atom):
            return b.v_eq(self, a)
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            return self.enum_int(a) == self.enum_int(b)
        if isinstance(a, HOST) and isinstance(b, HOST):
            return a == b
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if ((isinstance(a, tuple) and isinstance(b, tuple))
                or (isinstance(a, list) and isinstance(b, list))):
            return (len(a) == len(b)
                    and all(self.eq(x, y) for x, y in zip(a, b)))
        if isinstance(a, VSet) and isinstance(b, VSet):
            return (len(a.items) == len(b.items)
                    and all(b.has(self, x) for x in a.items))
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.items) != len(b.items):
                return False
            for k, v in a.items:
                p = b.find(self, k)
                if p is None or not self.eq(v, p[1]):
                    return False
            return True
        if isinstance(a, Bound) and isinstance(b, Bound):
            return a.func is b.func and a.self is b.self
        if isinstance(a, Obj) and isinstance(b, Obj):
            # identity unless the class defines equality
            e, _ = a.cls.lookup('__eq__')
            if e is not NULL:
                return bool(self.truth_sync(self.call(e, a, b)))
            return False
        return False

    def enum_int(self, v):
        if isinstance(v, EnumMember):
            if v.cls.issub(self.program.builtins['int']):
                return v.value
            return v
        return v

    def truth_sync(self, v):
        r = self.truth(v)
        if isinstance(r, CallVM):
            r = self.call(r.func, *r.args, **r.kwargs)
        return r

    def truth(self, v):
        if v is None or v is True or v is False:
            return bool(v)
        if isinstance(v, (int, float, str, bytes, tuple, list, range)):
            return bool(v)
        if isinstance(v, EnumMember):
            if v.cls.issub(self.program.builtins['int']):
                return bool(v.value)
            return True
        if isinstance(v, (VDict, VSet)):
            return bool(v.items)
        if isinstance(v, Atom):
            return v.v_bool(self)
        if isinstance(v, Obj):
            b, _ = v.cls.lookup('__bool__')
            if b is not NULL:
                return CallVM(b, (v,))
            ln, _ = v.cls.lookup('__len__')
            if ln is not NULL:
                return CallVM(ln, (v,), None, K(_to_bool))
            return True
        if v is NotImplemented:
            return True
        return True

    def compare(self, op, a, b):
        """Ordering comparison or equality; value or CallVM."""
        if op in ('==', '!='):
            if isinstance(a, Obj) or isinstance(b, Obj):
                if isinstance(a, Obj):
                    meth, _ = a.cls.lookup(CMP_METHODS[op])
                    if meth is not NULL:
                        return CallVM(meth, (a, b))
                    meth, _ = a.cls.lookup('__eq__')
                    if meth is not NULL and op == '!=':
                        return CallVM(meth, (a, b), None, K(_negate))
                if isinstance(b, Obj):
                    meth, _ = b.cls.lookup(CMP_METHODS[op])
                    if meth is not NULL:
                        return CallVM(meth, (b, a))
            r = self.eq(a, b)
            return r if op == '==' else (not r)
        if isinstance(a, Obj):
            meth, _ = a.cls.lookup(CMP_METHODS[op])
            if meth is not NULL:
                return CallVM(meth, (a, b))
            if isinstance(b, Obj):
                meth, _ = b.cls.lookup(CMP_METHODS[CMP_SWAP[op]])
                if meth is not NULL:
                    return CallVM(meth, (b, a))
            if '__total_order__' in a.cls.d:
                return self.total_order(op, a, b)
            self.raise_('TypeError', 'unorderable')
        if isinstance(a, Atom):
            return a.v_cmp(self, op, b)
        if isinstance(b, Atom):
            return b.v_cmp(self, CMP_SWAP[op], a)
        if isinstance(a, EnumMember) or isinstance(b, EnumMember):
            a, b = self.enum_int(a), self.enum_int(b)
            if isinstance(a, HOST) and isinstance(b, HOST):
                return CMPS[op](a, b)
            self.raise_('TypeError', 'unorderable')
        if isinstance(a, HOST) and isinstance(b, HOST):
            try:
                return CMPS[op](a, b)
            except TypeError:
                self.raise_('TypeError', 'unorderable')
        if ((isinstance(a, tuple) and isinstance(b, tuple))
                or (isinstance(a, list) and isinstance(b, list))):
            for x, y in zip(a, b):
                if not self.eq(x, y):
                    r = self.compare(op, x, y)
                    return r
            return CMPS[op](len(a), len(b))
        if isinstance(a, VSet) and isinstance(b, VSet):
            sub = all(b.has(self, x) for x in a.items)
            sup = all(a.has(self, x) for x in b.items)
            return {'<=': sub, '>=': sup, '<': sub and not sup,
                    '>': sup and not sub}[op]
        raise Unsupported('comparison %s of %r and %r' % (op, a, b))

    def compare_sync(self, op, a, b):
        r = self.compare(op, a, b)
        if isinstance(r, CallVM):
            r = self.call(r.func, *r.args, **(r.kwargs or {}))
        return self.truth_sync(r)

    def compare_in(self, c, x):
        r = contains(self, c, x)
        if isinstance(r, CallVM):
            r = self.call(r.func, *r.args, **(r.kwargs or {}))
        return self.truth_sync(r)

    def total_order(self, op, a, b):
        have = {n: a.cls.lookup(n)[0] for n in ('__lt__', '__le__',
                                                '__gt__', '__ge__')}
        raise Unsupported('total ordering')

    def canon(self, extra=()):
        """Canonical form of the whole machine state (names, not ids)."""
        ids = {}
        out = []
        todo = []

        def ref(v):
            if isinstance(v, HOST):
                return ('h', type(v).__name__, v)
            if isinstance(v, EnumMember):
                return ('e', v.cls.name, v.name)
            if isinstance(v, tuple):
                return ('t',) + tuple(map(ref, v))
            if isinstance(v, range):
                return ('r', v.start, v.stop, v.step)
            if isinstance(v, slice):
                return ('s', ref(v.start), ref(v.stop), ref(v.step))
            if isinstance(v, Atom):
                k = v.key
                if callable(k):
                    return ('a', type(v).__name__, k(ref))
                return ('a', type(v).__name__,
                        k if k is not None else id(v))
            if isinstance(v, (Cls, Module)):
                return ('c', v.name)
            if isinstance(v, Opaque):
                return ('o', v.name)
            if isinstance(v, Native):
                return ('n', v.name)
            if v is NULL:
                return ('null',)
            i = ids.get(id(v))
            if i is None:
                i = ids[id(v)] = len(ids)
                todo.append(v)
            return ('#', i)

        def body(v):
            if isinstance(v, Obj):
                return (v.cls.name,) + tuple(
                        (n, ref(x)) for n, x in sorted(v.f.items()))
            if isinstance(v, list):
                return ('list',) + tuple(map(ref, v))
            if isinstance(v, VDict):
                return ('dict',) + tuple((ref(a), ref(b))
                                         for a, b in v.items)
            if isinstance(v, VSet):
                return ('set',) + tuple(map(ref, v.items))
            if isinstance(v, SeqIter):
                return ('iter', ref(v.seq), v.i)
            if isinstance(v, Bound):
                return ('bound', ref(v.func), ref(v.self))
            if isinstance(v, Partial):
                return ('partial', ref(v.func), ref(v.args),
                        tuple((n, ref(x)) for n, x in v.kwargs.items()))
            if isinstance(v, Func):
                return ('func', v.key, tuple(map(ref, v.closure)),
                        tuple(map(ref, v.defaults)))
            if isinstance(v, Cell):
                return ('cell', ref(v.v))
            if isinstance(v, Gen):
                return ('gen', v.done, v.started, frame(v.frame))
            if isinstance(v, K):
                return ('k', v.fn.__name__, ref(v.data))
            if isinstance(v, (StaticM, ClassM)):
                return ('m', ref(v.f))
            if isinstance(v, VMRaise):
                return ('raise', ref(v.exc))
            return ('?', type(v).__name__)

        def frame(f):
            if isinstance(f, Root):
                return ('root', tuple(map(ref, f.stack)))
            live = liveness(f.code)
            here = live[f.last]
            there = live[f.pc] if f.pc < len(live) else None
            alive = (None if here is None or there is None
                     else here | there)
            return (f.code.co_qualname, f.code.co_firstlineno, f.pc,
                    tuple(map(ref, f.stack)),
                    tuple((n, ref(v)) for n, v in sorted(f.locs.items())
                          if alive is None or n in alive),
                    None if f.k is None else (f.k.fn.__name__,
                                              ref(f.k.data)))

        for f in self.frames:
            out.append(frame(f))
        out.append(tuple(map(ref, extra)))
        while todo:
            v = todo.pop(0)
            out.append((ids[id(v)], body(v)))
        return tuple(out)


# --------------------------------------------------- continuation functions
def _chain_ret(m, value, data):
    inner, outer = data
    r = inner.fn(m, value, inner.data)
    if isinstance(r, CallVM):
        m._k(r, outer)
        return _Started
    return outer.fn(m, r, outer.data)


def _chain_exc(m, e, data):
    inner, outer = data
    r = inner.on_exc(m, e, inner.data)
    if r is NULL:
        return NULL
    if isinstance(r, CallVM):
        m._k(r, outer)
        return _Started
    return outer.fn(m, r, outer.data)


class _StartedType:
    pass


_Started = _StartedType()
_orig_finish = Machine.finish


def _finish(self, r):
    if r is _Started:
        return
    _orig_finish(self, r)


Machine.finish = _finish


def _ret_data(m, value, data):
    return data[0]


def _to_bool(m, value, data):
    return bool(value)


def _negate(m, value, data):
    r = m.truth(value)
    if isinstance(r, CallVM):
        return CallVM(r.func, r.args, r.kwargs, K(_negate))
    return not r


def _after_new(m, value, data):
    cls, args, kwargs = data
    if isinstance(value, Obj) and value.cls.issub(cls):
        return m.init(value, args, kwargs)
    return value


def _store_attr(m, value, data):
    obj, name = data
    obj.f[name] = value
    return value


# ------------------------------------------------------------------ opcodes
OPS = {}


def op(*names):
    def deco(fn):
        for n in names:
            OPS[n] = fn
        return fn
    return deco


@op('NOP', 'RESUME', 'CACHE', 'END_FOR_SKIP', 'PRECALL')
def _(m, f, i):
    pass


@op('SETUP_ANNOTATIONS')
def _(m, f, i):
    f.ns.setdefault('__annotations__', VDict())


@op('POP_TOP')
def _(m, f, i):
    f.stack.pop()


@op('END_FOR')
def _(m, f, i):
    f.stack.pop()
    f.stack.pop()


@op('END_SEND')
def _(m, f, i):
    v = f.stack.pop()
    f.stack[-1] = v


@op('PUSH_NULL')
def _(m, f, i):
    f.stack.append(NULL)


@op('COPY')
def _(m, f, i):
    f.stack.append(f.stack[-i.arg])


@op('SWAP')
def _(m, f, i):
    s = f.stack
    s[-1], s[-i.arg] = s[-i.arg], s[-1]


@op('LOAD_CONST')
def _(m, f, i):
    v = i.argval
    if isinstance(v, frozenset):
        v = VSet(sorted(v, key=repr), frozen=True)
    f.stack.append(v)


@op('RETURN_CONST')
def _(m, f, i):
    m.ret(i.argval)


@op('RETURN_VALUE')
def _(m, f, i):
    m.ret(f.stack.pop())


def _local(m, f, name):
    v = f.locs.get(name, NULL)
    if v is NULL:
        m.raise_('UnboundLocalError', name)
    return v


@op('LOAD_FAST', 'LOAD_FAST_CHECK')
def _(m, f, i):
    f.stack.append(_local(m, f, i.argval))


@op('LOAD_FAST_AND_CLEAR')
def _(m, f, i):
    f.stack.append(f.locs.pop(i.argval, NULL))


@op('STORE_FAST')
def _(m, f, i):
    v = f.stack.pop()
    if v is NULL:
        f.locs.pop(i.argval, None)
    else:
        f.locs[i.argval] = v


@op('DELETE_FAST')
def _(m, f, i):
    f.locs.pop(i.argval, None)


@op('MAKE_CELL')
def _(m, f, i):
    f.locs[i.argval] = Cell(f.locs.get(i.argval, NULL))


@op('LOAD_CLOSURE')
def _(m, f, i):
    f.stack.append(f.locs[i.argval])


@op('COPY_FREE_VARS')
def _(m, f, i):
    for n, c in zip(f.code.co_freevars, f.func.closure):
        f.locs[n] = c


@op('LOAD_DEREF')
def _(m, f, i):
    v = f.locs[i.argval].v
    if v is NULL:
        m.raise_('NameError', i.argval)
    f.stack.append(v)


@op('STORE_DEREF')
def _(m, f, i):
    f.locs[i.argval].v = f.stack.pop()


@op('DELETE_DEREF')
def _(m, f, i):
    f.locs[i.argval].v = NULL


@op('LOAD_FROM_DICT_OR_DEREF')
def _(m, f, i):
    ns = f.stack.pop()
    if isinstance(ns, VDict):
        p = ns.find(m, i.argval)
        if p is not None:
            f.stack.append(p[1])
            return
    elif f.ns is not None and i.argval in f.ns:
        f.stack.append(f.ns[i.argval])
        return
    f.stack.append(f.locs[i.argval].v)


@op('LOAD_LOCALS')
def _(m, f, i):
    f.stack.append(Opaque('locals'))


def _global(m, f, name):
    d = f.glob.d
    if name in d:
        return d[name]
    b = m.program.builtins
    if name in b:
        return b[name]
    if hasattr(m.program.host_builtins, name):
        return Opaque('builtins.' + name)
    m.raise_('NameError', name)


@op('LOAD_FROM_DICT_OR_GLOBALS')
def _(m, f, i):
    f.stack.pop()
    if f.ns is not None and i.argval in f.ns:
        f.stack.append(f.ns[i.argval])
    else:
        f.stack.append(_global(m, f, i.argval))


@op('LOAD_GLOBAL')
def _(m, f, i):
    if i.arg & 1:
        f.stack.append(NULL)
    f.stack.append(_global(m, f, i.argval))


@op('STORE_GLOBAL')
def _(m, f, i):
    if m.world is not None:
        m.effect('global variable %s.%s is set at run time'
                 % (f.glob.name, i.argval))
    f.glob.d[i.argval] = f.stack.pop()


@op('DELETE_GLOBAL')
def _(m, f, i):
    if m.world is not None:
        m.effect('global variable %s.%s is deleted at run time'
                 % (f.glob.name, i.argval))
    f.glob.d.pop(i.argval, None)


@op('LOAD_NAME')
def _(m, f, i):
    if f.ns is not None and i.argval in f.ns:
        f.stack.append(f.ns[i.argval])
    else:
        f.stack.append(_global(m, f, i.argval))


@op('STORE_NAME')
def _(m, f, i):
    f.ns[i.argval] = f.stack.pop()


@op('DELETE_NAME')
def _(m, f, i):
    f.ns.pop(i.argval, None)


@op('LOAD_ATTR')
def _(m, f, i):
    v = f.stack.pop()
    if i.arg & 1:
        f.stack.append(NULL)
    m.finish(m.getattr_(v, i.argval))


@op('STORE_ATTR')
def _(m, f, i):
    o = f.stack.pop()
    v = f.stack.pop()
    r = m.setattr_(o, i.argval, v)
    if isinstance(r, CallVM):
        m.start(CallVM(r.func, r.args, r.kwargs, K(_discard)))


def _discard(m, value, data):
    return _Started


@op('DELETE_ATTR')
def _(m, f, i):
    o = f.stack.pop()
    if isinstance(o, Obj):
        if o.tag == 'input':
            m.effect('attribute %r of an argument is deleted' % i.argval)
        o.f.pop(i.argval, None)
    else:
        m.effect('attribute %r of %r is deleted' % (i.argval, o))


@op('LOAD_SUPER_ATTR')
def _(m, f, i):
    self_ = f.stack.pop()
    cls = f.stack.pop()
    f.stack.pop()
    name = i.argval
    if i.arg & 1:
        f.stack.append(NULL)
    own = self_.cls if isinstance(self_, (Obj, EnumMember)) else self_
    mro = own.mro
    for c in mro[mro.index(cls) + 1:]:
        if name in c.d:
            a = c.d[name]
            if isinstance(a, Prop):
                m.finish(CallVM(a.fget, (self_,)))
            elif isinstance(self_, Cls):
                f.stack.append(Bound(a.f, self_) if isinstance(a, ClassM)
                               else (a.f if isinstance(a, StaticM) else a))
            else:
                f.stack.append(m.bind_attr(a, self_, own))
            return
    if name == '__init__':
        f.stack.append(Native('object.__init__', lambda m, a, kw: None))
        return
    if name == '__new__':
        f.stack.append(Native('object.__new__',
                              lambda m, a, kw: Obj(a[0])))
        return
    if name == '__init_subclass__':
        f.stack.append(Native('object.__init_subclass__',
                              lambda m, a, kw: None))
        return
    m.raise_('AttributeError', name)


@op('POP_JUMP_IF_FALSE')
def _(m, f, i):
    _branch(m, f, i, False)


@op('POP_JUMP_IF_TRUE')
def _(m, f, i):
    _branch(m, f, i, True)


def _branch(m, f, i, on):
    r = m.truth(f.stack.pop())
    if isinstance(r, CallVM):
        # run the conversion, then retry the jump on its result
        f.pc = f.last
        m.start(r)
        return
    if r is on:
        f.pc = f.index[i.argval]


@op('POP_JUMP_IF_NONE')
def _(m, f, i):
    if f.stack.pop() is None:
        f.pc = f.index[i.argval]


@op('POP_JUMP_IF_NOT_NONE')
def _(m, f, i):
    if f.stack.pop() is not None:
        f.pc = f.index[i.argval]


@op('JUMP_FORWARD', 'JUMP_BACKWARD', 'JUMP_BACKWARD_NO_INTERRUPT')
def _(m, f, i):
    f.pc = f.index[i.argval]


@op('UNARY_NOT')
def _(m, f, i):
    r = m.truth(f.stack.pop())
    if isinstance(r, CallVM):
        f.pc = f.last
        m.start(r)
        return
    f.stack.append(not r)


@op('UNARY_NEGATIVE', 'UNARY_INVERT')
def _(m, f, i):
    f.stack.append(_unop(m, i.op, f.stack.pop()))


def _unop(m, name, v):
    if isinstance(v, Atom):
        return v.v_unop(m, '-' if name == 'UNARY_NEGATIVE' else '~')
    v = m.enum_int(v)
    if isinstance(v, (int, float)):
        return -v if name == 'UNARY_NEGATIVE' else ~v
    raise Unsupported('unary operation on %r' % (v,))


@op('BINARY_OP')
def _(m, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    name = dis._nb_ops[i.arg][1]
    m.finish(binop(m, name, a, b))


def binop(m, name, a, b):
    inplace = name.endswith('=')
    if inplace:
        name = name[:-1]
    if isinstance(a, Atom):
        return a.v_binop(m, name, a, b)
    if isinstance(b, Atom) and not (name == '*' and isinstance(a, list)):
        return b.v_binop(m, name, a, b)
    if isinstance(a, list):
        if inplace and name == '+':
            if isinstance(a, InList):
                m.effect('argument list %s is extended in place' % a.label)
            return CallVM(m.program.prelude['_extend'], (a, b), None,
                          K(_ret_data, (a,)))
        if inplace and name == '*':
            if isinstance(a, InList):
                m.effect('argument list %s is multiplied in place' % a.label)
            a[:] = list(a) * b
            return a
        if name == '+' and isinstance(b, list):
            return list(a) + list(b)
        if name == '*' and isinstance(b, int):
            return list(a) * b
    if isinstance(a, tuple) and isinstance(b, tuple) and name == '+':
        return a + b
    if isinstance(a, tuple) and isinstance(b, int) and name == '*':
        return a * b
    if isinstance(a, int) and isinstance(b, (tuple, list)) and name == '*':
        return (tuple if isinstance(b, tuple) else list)(b) * a
    if isinstance(a, str) and name == '%':
        return '<formatted>'
    if isinstance(a, VSet) and isinstance(b, VSet):
        if name == '|':
            r = VSet(a.items)
            for x in b.items:
                r.add(m, x)
        elif name == '&':
            r = VSet([x for x in a.items if b.has(m, x)])
        elif name == '-':
            r = VSet([x for x in a.items if not b.has(m, x)])
        elif name == '^':
            r = VSet([x for x in a.items if not b.has(m, x)]
                     + [x for x in b.items if not a.has(m, x)])
        else:
            raise Unsupported('set operation ' + name)
        if inplace and not a.frozen:
            a.items = r.items
            return a
        return r
    if isinstance(a, VDict) and isinstance(b, VDict) and name == '|':
        r = a if inplace else VDict(a.items)
        for k, v in b.items:
            p = r.find(m, k)
            if p is None:
                r.items.append([k, v])
            else:
                p[1] = v
        return r
    if isinstance(a, Obj) or isinstance(b, Obj):
        return _obj_binop(m, name, a, b)
    a, b = m.enum_int(a), m.enum_int(b)
    if isinstance(a, (int, float, str)) and isinstance(b, (int, float, str)):
        try:
            return BINOPS[name](a, b)
        except ZeroDivisionError:
            m.raise_('ZeroDivisionError')
        except TypeError:
            m.raise_('TypeError', name)
    if isinstance(a, (Opaque, Cls)) or isinstance(b, (Opaque, Cls)):
        return Opaque('type expression')
    raise Unsupported('operation %s on %r and %r' % (name, a, b))


OPM = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv',
       '%': 'mod', '&': 'and', '|': 'or', '^': 'xor', '**': 'pow',
       '<<': 'lshift', '>>': 'rshift', '@': 'matmul'}


def _obj_binop(m, name, a, b):
    n = OPM[name]
    if isinstance(a, Obj):
        meth, _ = a.cls.lookup('__%s__' % n)
        if meth is not NULL:
            return CallVM(meth, (a, b))
    if isinstance(b, Obj):
        meth, _ = b.cls.lookup('__r%s__' % n)
        if meth is not NULL:
            return CallVM(meth, (b, a))
    m.raise_('TypeError', name)


@op('COMPARE_OP')
def _(m, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    m.finish(m.compare(i.argval, a, b))


@op('IS_OP')
def _(m, f, i):
    b = f.stack.pop()
    a = f.stack.pop()
    f.stack.append(identical(m, a, b) is not bool(i.arg))


def identical(m, a, b):
    if a is b:
        return True
    if isinstance(a, Atom) and hasattr(a, 'v_is'):
        return a.v_is(m, b)
    if isinstance(b, Atom) and hasattr(b, 'v_is'):
        return b.v_is(m, a)
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return False
    if isinstance(a, (int, str)) and isinstance(b, (int, str)):
        return a == b and type(a) is type(b)
    if isinstance(a, tuple) and a == () and b == ():
        return True
    return False


@op('CONTAINS_OP')
def _(m, f, i):
    c = f.stack.pop()
    x = f.stack.pop()
    neg = bool(i.arg)
    r = contains(m, c, x)
    if isinstance(r, CallVM):
        m.start(CallVM(r.func, r.args, r.kwargs, K(_neg_if, (neg,))))
    else:
        f.stack.append(r is not neg)


def _neg_if(m, value, data):
    r = m.truth(value)
    if isinstance(r, CallVM):
        return CallVM(r.func, r.args, r.kwargs, K(_neg_if, data))
    return r is not data[0]


def contains(m, c, x):
    if isinstance(c, (list, tuple)):
        return any(m.eq(y, x) for y in c)
    if isinstance(c, VSet):
        return c.has(m, x)
    if isinstance(c, VDict):
        return c.find(m, x) is not None
    if isinstance(c, range) and isinstance(x, int):
        return x in c
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, Atom):
        return c.v_contains(m, x)
    if isinstance(c, Obj):
        meth, _ = c.cls.lookup('__contains__')
        if meth is not NULL:
            return CallVM(meth, (c, x))
    if isinstance(c, Cls) and c.enum_members is not None:
        return any(y is x for y in c.enum_members.values())
    return CallVM(m.program.prelude['_contains'], (c, x))


@op('BUILD_TUPLE')
def _(m, f, i):
    n = i.arg
    if n:
        v = tuple(f.stack[-n:])
        del f.stack[-n:]
    else:
        v = ()
    f.stack.append(v)


@op('BUILD_LIST')
def _(m, f, i):
    n = i.arg
    v = f.stack[-n:] if n else []
    if n:
        del f.stack[-n:]
    f.stack.append(v)


@op('BUILD_SET')
def _(m, f, i):
    n = i.arg
    v = f.stack[-n:] if n else []
    if n:
        del f.stack[-n:]
    s = VSet()
    for x in v:
        s.add(m, x)
    f.stack.append(s)


@op('BUILD_MAP')
def _(m, f, i):
    n = 2 * i.arg
    v = f.stack[-n:] if n else []
    if n:
        del f.stack[-n:]
    d = VDict()
    for k, x in zip(v[::2], v[1::2]):
        dict_set(m, d, k, x)
    f.stack.append(d)


def dict_set(m, d, k, v):
    p = d.find(m, k)
    if p is None:
        d.items.append([k, v])
    else:
        p[1] = v


@op('BUILD_CONST_KEY_MAP')
def _(m, f, i):
    keys = f.stack.pop()
    n = i.arg
    vals = f.stack[-n:]
    del f.stack[-n:]
    f.stack.append(VDict(zip(keys, vals)))


@op('BUILD_STRING')
def _(m, f, i):
    n = i.arg
    vals = f.stack[-n:]
    del f.stack[-n:]
    f.stack.append(''.join(x if isinstance(x, str) else '<?>'
                           for x in vals))


@op('FORMAT_VALUE')
def _(m, f, i):
    if i.arg & 4:
        f.stack.pop()
    v = f.stack.pop()
    f.stack.append(str(v) if isinstance(v, (int, str)) else '<?>')


@op('BUILD_SLICE')
def _(m, f, i):
    step = f.stack.pop() if i.arg == 3 else None
    stop = f.stack.pop()
    start = f.stack.pop()
    f.stack.append(slice(start, stop, step))


@op('LIST_APPEND')
def _(m, f, i):
    v = f.stack.pop()
    f.stack[-i.arg].append(v)


@op('SET_ADD')
def _(m, f, i):
    v = f.stack.pop()
    f.stack[-i.arg].add(m, v)


@op('MAP_ADD')
def _(m, f, i):
    v = f.stack.pop()
    k = f.stack.pop()
    dict_set(m, f.stack[-i.arg], k, v)


@op('LIST_EXTEND')
def _(m, f, i):
    v = f.stack.pop()
    target = f.stack[-i.arg]
    if isinstance(v, (list, tuple, range)):
        target.extend(v)
    else:
        m.start(CallVM(m.program.prelude['_extend'], (target, v), None,
                       K(_discard)))


@op('SET_UPDATE')
def _(m, f, i):
    v = f.stack.pop()
    target = f.stack[-i.arg]
    if isinstance(v, (list, tuple, range)):
        for x in v:
            target.add(m, x)
    elif isinstance(v, VSet):
        for x in v.items:
            target.add(m, x)
    else:
        m.start(CallVM(m.program.prelude['_set_update'], (target, v), None,
                       K(_discard)))


@op('DICT_UPDATE', 'DICT_MERGE')
def _(m, f, i):
    v = f.stack.pop()
    target = f.stack[-i.arg]
    if not isinstance(v, VDict):
        raise Unsupported('dict update from %r' % (v,))
    for k, x in v.items:
        dict_set(m, target, k, x)


@op('UNPACK_SEQUENCE')
def _(m, f, i):
    v = f.stack.pop()
    if isinstance(v, (list, tuple, range)):
        if len(v) != i.arg:
            m.raise_('ValueError', 'unpacking')
        f.stack.extend(reversed(list(v)))
    else:
        # materialise, then retry
        f.pc = f.last
        m.start(CallVM(m.program.prelude['_list'], (v,)))


@op('UNPACK_EX')
def _(m, f, i):
    v = f.stack.pop()
    if isinstance(v, (list, tuple, range)):
        before, after = i.arg & 0xFF, i.arg >> 8
        v = list(v)
        if len(v) < before + after:
            m.raise_('ValueError', 'unpacking')
        head = v[:before]
        tail = v[len(v) - after:]
        mid = v[before:len(v) - after]
        for x in reversed(tail):
            f.stack.append(x)
        f.stack.append(mid)
        for x in reversed(head):
            f.stack.append(x)
    else:
        f.pc = f.last
        m.start(CallVM(m.program.prelude['_list'], (v,)))


@op('BINARY_SUBSCR')
def _(m, f, i):
    k = f.stack.pop()
    o = f.stack.pop()
    m.finish(getitem(m, o, k))


def getitem(m, o, k):
    if isinstance(o, (list, tuple, range, str)):
        k = m.enum_int(k)
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, (int, slice)):
            if isinstance(k, slice):
                if any(isinstance(x, Atom) for x in (k.start, k.stop,
                                                     k.step)):
                    raise Unsupported('unknown slice')
                r = (list(o) if isinstance(o, list) else o)[k]
                return r
            try:
                return o[k]
            except IndexError:
                m.raise_('IndexError', 'index out of range')
        if isinstance(k, Atom):
            return k.v_index(m, o) if hasattr(k, 'v_index') else _bad_index(
                    m, o, k)
        m.raise_('TypeError', 'indices must be integers')
    if isinstance(o, VDict):
        p = o.find(m, k)
        if p is None:
            if o.default is not None:
                return CallVM(o.default, (), None, K(_dict_default, (o, k)))
            m.raise_('KeyError', k)
        return p[1]
    if isinstance(o, Atom):
        return o.v_getitem(m, k)
    if isinstance(o, Opaque):
        return Opaque(o.name + '[]')
    if isinstance(o, Cls):
        if o.enum_members is not None:
            if k in o.enum_members:
                return o.enum_members[k]
            m.raise_('KeyError', k)
        meth, _ = o.lookup('__class_getitem__')
        if isinstance(meth, ClassM):
            return CallVM(meth.f, (o, k))
        return o
    if isinstance(o, Obj):
        meth, _ = o.cls.lookup('__getitem__')
        if meth is not NULL:
            return CallVM(meth, (o, k))
    raise Unsupported('subscript of %r' % (o,))


def _bad_index(m, o, k):
    raise Unsupported('index %r' % (k,))


def _dict_default(m, value, data):
    d, k = data
    d.items.append([k, value])
    return value


@op('BINARY_SLICE')
def _(m, f, i):
    stop = f.stack.pop()
    start = f.stack.pop()
    o = f.stack.pop()
    m.finish(getitem(m, o, slice(start, stop)))


@op('STORE_SUBSCR')
def _(m, f, i):
    k = f.stack.pop()
    o = f.stack.pop()
    v = f.stack.pop()
    setitem(m, o, k, v)


def setitem(m, o, k, v):
    if isinstance(o, list):
        if isinstance(o, InList):
            m.effect('item of argument list %s is assigned' % o.label)
        if isinstance(k, slice) and not isinstance(v, (list, tuple)):
            raise Unsupported('slice assignment')
        try:
            o[k] = v
        except IndexError:
            m.raise_('IndexError', 'assignment index out of range')
        return
    if isinstance(o, VDict):
        dict_set(m, o, k, v)
        if getattr(o, 'shared', False):
            m.effect('shared dictionary is written')
        return
    if isinstance(o, Obj):
        meth, _ = o.cls.lookup('__setitem__')
        if meth is not NULL:
            m.start(CallVM(meth, (o, k, v), None, K(_discard)))
            return
    if isinstance(o, Atom):
        m.effect('item of %r is assigned' % (o,))
        return
    raise Unsupported('item assignment to %r' % (o,))


@op('STORE_SLICE')
def _(m, f, i):
    stop = f.stack.pop()
    start = f.stack.pop()
    o = f.stack.pop()
    v = f.stack.pop()
    setitem(m, o, slice(start, stop), v)


@op('DELETE_SUBSCR')
def _(m, f, i):
    k = f.stack.pop()
    o = f.stack.pop()
    if isinstance(o, list):
        if isinstance(o, InList):
            m.effect('item of argument list %s is deleted' % o.label)
        try:
            del o[k]
        except IndexError:
            m.raise_('IndexError')
    elif isinstance(o, VDict):
        p = o.find(m, k)
        if p is None:
            m.raise_('KeyError', k)
        o.items.remove(p)
    else:
        m.effect('item of %r is deleted' % (o,))


@op('GET_LEN')
def _(m, f, i):
    f.stack.append(m.program.length(m, f.stack[-1]))


# -------------------------------------------------------------- iteration
@op('GET_ITER', 'GET_YIELD_FROM_ITER')
def _(m, f, i):
    m.finish(get_iter(m, f.stack.pop()))


def get_iter(m, v):
    if isinstance(v, (list, tuple, range, str)):
        return SeqIter(v)
    if isinstance(v, (Gen, SeqIter)):
        return v
    if isinstance(v, VDict):
        return SeqIter([p[0] for p in v.items])
    if isinstance(v, VSet):
        return SeqIter(list(v.items))
    if isinstance(v, Atom):
        return v.v_iter(m)
    if isinstance(v, Cls) and v.enum_members is not None:
        return SeqIter(list(v.enum_members.values()))
    if isinstance(v, Obj):
        meth, _ = v.cls.lookup('__iter__')
        if meth is not NULL:
            return CallVM(meth, (v,))
        meth, _ = v.cls.lookup('__getitem__')
        if meth is not NULL:
            return CallVM(m.program.prelude['_seq_iter'], (v,))
    m.raise_('TypeError', 'not iterable')


def iter_step(m, it):
    """One step of a host level iterator: (True, value) or (False, None);
    None when the iterator is not host level."""
    if isinstance(it, SeqIter):
        try:
            v = it.seq[it.i]
        except IndexError:
            return False, None
        it.i += 1
        return True, v
    if isinstance(it, Atom):
        return it.v_next(m)
    return None


@op('FOR_ITER')
def _(m, f, i):
    it = f.stack[-1]
    after = f.index[i.argval] + 1
    r = iter_step(m, it)
    if r is not None:
        ok, v = r
        if ok:
            f.stack.append(v)
        else:
            f.stack.pop()
            f.pc = after
        return
    if isinstance(it, Gen):
        if it.done:
            f.stack.pop()
            f.pc = after
            return
        m.gen_resume(it, ('for', after))
        return
    if isinstance(it, Obj):
        meth, _ = it.cls.lookup('__next__')
        if meth is not NULL:
            m.start(CallVM(meth, (it,), None,
                           K(_same, (), _ForExc(f, after))))
            return
    raise Unsupported('iteration with %r' % (it,))


def _same(m, value, data):
    return value


class _ForExc:
    def __init__(self, f, after):
        self.f, self.after = f, after

    def __call__(self, m, e, data):
        if e.exc.cls.issub(m.program.builtins['StopIteration']):
            self.f.stack.pop()
            self.f.pc = self.after
            return _Started
        return NULL


@op('SEND')
def _(m, f, i):
    v = f.stack.pop()
    it = f.stack[-1]
    target = f.index[i.argval]
    r = iter_step(m, it)
    if r is not None:
        ok, x = r
        if ok:
            f.stack.append(x)
        else:
            f.stack.append(None)
            f.pc = target
        return
    if isinstance(it, Gen):
        if it.done:
            f.stack.append(None)
            f.pc = target
            return
        m.gen_resume(it, ('send', target), v)
        return
    raise Unsupported('yield from %r' % (it,))


@op('YIELD_VALUE')
def _(m, f, i):
    m.gen_yield(f.stack.pop())


@op('RETURN_GENERATOR')
def _(m, f, i):
    m.frames.pop()
    g = Gen(f)
    f.gen = g
    k = f.k
    f.k = None
    if k is None:
        m.frames[-1].stack.append(g)
    else:
        m.finish(k.fn(m, g, k.data))


# -------------------------------------------------------------- exceptions
@op('PUSH_EXC_INFO')
def _(m, f, i):
    e = f.stack.pop()
    f.stack.append(m.cur_exc)
    f.stack.append(e)
    m.cur_exc = e


@op('CHECK_EXC_MATCH')
def _(m, f, i):
    t = f.stack.pop()
    e = f.stack[-1]
    ts = t if isinstance(t, tuple) else (t,)
    f.stack.append(any(isinstance(x, Cls) and e.cls.issub(x) for x in ts))


@op('POP_EXCEPT')
def _(m, f, i):
    m.cur_exc = f.stack.pop()


@op('RERAISE')
def _(m, f, i):
    e = f.stack.pop()
    if i.arg:
        f.stack[-i.arg]
    raise VMRaise(e)


@op('RAISE_VARARGS')
def _(m, f, i):
    cause = NULL
    if i.arg == 2:
        cause = f.stack.pop()
    if i.arg == 0:
        raise VMRaise(m.cur_exc)
    e = f.stack.pop()
    if isinstance(e, Cls):
        if e.lookup('__init__')[0] is NULL:
            e = Obj(e)
            e.f['args'] = ()
        else:
            e = m.call(e)
    if not isinstance(e, Obj):
        raise Unsupported('raise of %r' % (e,))
    raise VMRaise(e)


@op('LOAD_ASSERTION_ERROR')
def _(m, f, i):
    f.stack.append(m.program.builtins['AssertionError'])


@op('CLEANUP_THROW')
def _(m, f, i):
    raise VMRaise(f.stack[-1])


@op('BEFORE_WITH')
def _(m, f, i):
    cm = f.stack.pop()
    if isinstance(cm, Obj):
        ex, _ = cm.cls.lookup('__exit__')
        en, _ = cm.cls.lookup('__enter__')
        f.stack.append(Bound(ex, cm))
        m.start(CallVM(en, (cm,)))
        return
    m.world_event('external', 'with %r' % (cm,), (), {})
    f.stack.append(Native('exit', lambda m, a, kw: False))
    f.stack.append(cm)


@op('WITH_EXCEPT_START')
def _(m, f, i):
    e = f.stack[-1]
    ex = f.stack[-4]
    m.start(CallVM(ex, (e.cls, e, None)))


# ------------------------------------------------------- functions, classes
@op('MAKE_FUNCTION')
def _(m, f, i):
    code = f.stack.pop()
    closure = f.stack.pop() if i.arg & 8 else ()
    if i.arg & 4:
        f.stack.pop()
    kwd = f.stack.pop() if i.arg & 2 else None
    dfl = f.stack.pop() if i.arg & 1 else ()
    f.stack.append(Func(code, f.glob, tuple(dfl),
                        {k: v for k, v in kwd.items} if kwd else {},
                        closure))


@op('LOAD_BUILD_CLASS')
def _(m, f, i):
    f.stack.append(Native('__build_class__', build_class))


def build_class(m, args, kwargs):
    body, name, *bases = args
    ns = {}
    f = Frame(body.code, body.glob, {}, ns=ns, func=body,
              k=K(_class_done, (name, tuple(bases), body.glob, _Box(ns),
                                _Box(kwargs))))
    m.frames.append(f)
    return _Started


class _Box:
    def __init__(self, v):
        self.v = v


def _class_done(m, value, data):
    name, bases, glob, ns, kwargs = data
    ns = ns.v
    real = [b for b in bases if isinstance(b, Cls)]
    if m.program.named_tuple in real:
        from .program import make_record_class
        return make_record_class(m, name, ns, glob.name)
    cls = Cls(name, real or [m.program.builtins['object']], ns,
              module=glob.name)
    if isinstance(value, Cell):
        value.v = cls
    cell = ns.pop('__classcell__', None)
    if isinstance(cell, Cell):
        cell.v = cls
    if cls.is_enum:
        m.program.make_enum(m, cls)
    for n, v in list(ns.items()):
        if isinstance(v, (Obj, )):
            sn, _ = v.cls.lookup('__set_name__')
            if sn is not NULL:
                m.call(sn, v, cls, n)
    return cls


@op('KW_NAMES')
def _(m, f, i):
    f.kw = f.code.co_consts[i.arg]


@op('CALL')
def _(m, f, i):
    n = i.arg
    args = f.stack[-n:] if n else []
    if n:
        del f.stack[-n:]
    b = f.stack.pop()
    a = f.stack.pop()
    if a is NULL:
        func = b
    else:
        func = a
        args.insert(0, b)
    kw = f.kw
    f.kw = ()
    if kw:
        kwargs = dict(zip(kw, args[len(args) - len(kw):]))
        args = args[:len(args) - len(kw)]
    else:
        kwargs = {}
    m.start(CallVM(func, args, kwargs))


@op('CALL_FUNCTION_EX')
def _(m, f, i):
    kwargs = {}
    if i.arg & 1:
        kw = f.stack.pop()
        if not isinstance(kw, VDict):
            raise Unsupported('** of %r' % (kw,))
        kwargs = {k: v for k, v in kw.items}
    args = f.stack.pop()
    func = f.stack.pop()
    f.stack.pop()
    if isinstance(args, (list, tuple)):
        m.start(CallVM(func, tuple(args), kwargs))
    else:
        m.start(CallVM(m.program.prelude['_list'], (args,), None,
                       K(_call_ex, (func, _Box(kwargs)))))


def _call_ex(m, value, data):
    func, kwargs = data
    return CallVM(func, tuple(value), kwargs.v)


@op('CALL_INTRINSIC_1')
def _(m, f, i):
    n = i.arg
    v = f.stack.pop()
    if n == 6:
        f.stack.append(tuple(v))
    elif n == 5:
        if isinstance(v, Atom):
            f.stack.append(v.v_unop(m, '+'))
        else:
            f.stack.append(v)
    elif n == 3:
        # error inside of a generator
        raise VMRaise(v)
    elif n in (7, 8, 9, 10, 11):
        f.stack.append(Opaque('type parameter'))
    elif n == 2:
        for k, x in v.d.items():
            if not k.startswith('_'):
                f.ns[k] = x
        f.stack.append(None)
    else:
        raise Unsupported('intrinsic %d' % n)


@op('IMPORT_NAME')
def _(m, f, i):
    fromlist = f.stack.pop()
    level = f.stack.pop()
    if m.world is not None:
        m.world_event('import', i.argval)
    f.stack.append(m.program.import_(m, i.argval, fromlist, level, f.glob))


@op('IMPORT_FROM')
def _(m, f, i):
    mod = f.stack[-1]
    name = i.argval
    if isinstance(mod, Module):
        if name in mod.d:
            f.stack.append(mod.d[name])
            return
        sub = m.program.submodule(mod.name, name)
        if sub is not None:
            f.stack.append(sub)
            return
        if mod.opaque:
            f.stack.append(Opaque(mod.name + '.' + name))
            return
    m.raise_('ImportError', name)


for _n in dis.opmap:
    if _n not in OPS:
        def _unsup(m, f, i, _n=_n):
            raise Unsupported('instruction %s at %s' % (_n, f.where))
        OPS[_n] = _unsup
