"""The analysed program: sources of /repo loaded into the abstract machine.

Module level code of ``orient`` is interpreted by the machine as well, so
imports, aliases, decorators, class bodies and re-exports are resolved the
way Python resolves them.
"""
from __future__ import annotations

import builtins as host_builtins
import os

from .vm import (Atom, Bound, CachedProp, CallVM, Cell, ClassM, Cls, EnumMember, Func,
                 Gen, HOST, InList, K, Machine, Module, NULL, Native, Obj,
                 Opaque, Partial, Prop, SeqIter, StaticM, Unsupported, VDict,
                 VMRaise, VSet, _Box, _discard, _ret_data, _same, _Started,
                 contains, dict_set, get_iter, getitem, identical, iter_step,
                 setitem, binop)

OPERATORS = {'__%s__' % n.strip('_'): 'op_' + n for n in (
    'lt', 'le', 'gt', 'ge', 'eq', 'ne', 'and_', 'or_', 'xor', 'add', 'sub',
    'mul', 'truediv', 'neg', 'abs', 'getitem', 'contains')}

REPO = os.environ.get('ORIENT_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))

EXCEPTIONS = [(n, c.__base__.__name__) for n, c in sorted(
    ((n, c) for n, c in vars(host_builtins).items()
     if isinstance(c, type) and issubclass(c, BaseException)
     and n == c.__name__), key=lambda p: (len(p[1].__mro__), p[0]))]


class Program:
    host_builtins = host_builtins

    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.files = {}
        self.builtins = {}
        self.prelude = {}
        self.loader = Machine(self)
        self._make_builtins()
        self._load_prelude()

    # ------------------------------------------------------------ loading
    def module_file(self, name):
        base = os.path.join(self.repo, *name.split('.'))
        for p in (base + '.py', os.path.join(base, '__init__.py')):
            if os.path.isfile(p):
                return p
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        top = name.split('.')[0]
        if top == 'orient':
            path = self.module_file(name)
            if path is None:
                return None
            if '.' in name:
                self.load(name.rsplit('.', 1)[0])
            rel = os.path.relpath(path, self.repo)
            mod = Module(name, {'__name__': name, '__file__': rel},
                         file=rel)
            mod.d['__package__'] = (name if path.endswith('__init__.py')
                                    else name.rsplit('.', 1)[0])
            self.modules[name] = mod
            with open(path) as fh:
                source = fh.read()
            self.files[rel] = source
            code = compile(source, rel, 'exec', dont_inherit=True)
            self.loader.run_code(code, mod)
            if '.' in name:
                parent, child = name.rsplit('.', 1)
                self.modules[parent].d.setdefault(child, mod)
            return mod
        mod = self.external(name)
        self.modules[name] = mod
        return mod

    def submodule(self, pkg, name):
        full = pkg + '.' + name
        if full in self.modules:
            return self.modules[full]
        if pkg.split('.')[0] == 'orient' and self.module_file(full):
            return self.load(full)
        return None

    def import_(self, m, name, fromlist, level, glob):
        if level:
            pkg = glob.d['__package__'].split('.')
            pkg = pkg[:len(pkg) - level + 1]
            full = '.'.join(pkg + ([name] if name else []))
        else:
            full = name
        mod = self.load(full)
        if mod is None:
            m.raise_('ImportError', full)
        if fromlist:
            return mod
        if level == 0 and '.' in full:
            top = self.load(full.split('.')[0])
            return top
        return mod

    def all_modules(self):
        """Loads every module of the package."""
        root = os.path.join(self.repo, 'orient')
        for dirpath, dirs, files in os.walk(root):
            dirs[:] = [d for d in dirs if d != '__pycache__']
            for fn in sorted(files):
                if fn.endswith('.py'):
                    rel = os.path.relpath(os.path.join(dirpath, fn),
                                          self.repo)[:-3]
                    name = rel.replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    self.load(name)
        return [n for n in self.modules if n.split('.')[0] == 'orient']

    def get(self, module, name):
        mod = self.load(module)
        if mod is None or name not in mod.d:
            raise MissingAnchor('%s.%s' % (module, name))
        return mod.d[name]

    # ----------------------------------------------------------- prelude
    def _load_prelude(self):
        path = os.path.join(HERE, 'prelude.py.txt')
        with open(path) as fh:
            source = fh.read()
        mod = Module('<prelude>', {'__name__': '<prelude>',
                                   '_append': Native('_append', _append),
                                   '_with_default': Native('_with_default',
                                                           _with_default),
                                   '__package__': ''})
        self.prelude = mod.d
        code = compile(source, '<prelude>', 'exec', dont_inherit=True)
        self.loader.run_code(code, mod)
        for n in ('min', 'max', 'sum', 'all', 'any', 'sorted', 'enumerate',
                  'zip', 'map', 'filter', 'reversed'):
            self.builtins[n] = mod.d[n]

    # ---------------------------------------------------------- builtins
    def _make_builtins(self):
        b = self.builtins
        obj = Cls('object', (), {})
        self.named_tuple = Cls('NamedTuple', (obj,), {})
        b['object'] = obj
        for n, base in EXCEPTIONS:
            b[n] = Cls(n, (b[base],), {})

        def typ(n, ctor, base=obj):
            b[n] = Cls(n, (base,), {}, native=ctor)

        typ('type', _type)
        typ('int', _int)
        typ('bool', _bool, b['int'])
        typ('float', _float)
        typ('complex', _float)
        typ('str', lambda m, c, a, k: (a[0] if a and isinstance(a[0], str)
                                       else '<str>'))
        typ('bytes', lambda m, c, a, k: b'')
        typ('list', _listc)
        typ('tuple', _tuplec)
        typ('dict', _dictc)
        typ('set', _setc)
        typ('frozenset', lambda m, c, a, k: _setc(m, c, a, k, True))
        typ('range', lambda m, c, a, k: range(*[m.enum_int(x) for x in a]))
        typ('slice', lambda m, c, a, k: slice(*a))
        typ('property', lambda m, c, a, k: Prop(*a[:2]))
        typ('staticmethod', lambda m, c, a, k: StaticM(a[0]))
        typ('classmethod', lambda m, c, a, k: ClassM(a[0]))
        typ('function', None)
        typ('generator', None)
        typ('NoneType', None)
        b['super'] = Native('super', _super)
        b['NotImplemented'] = NotImplemented
        b['Ellipsis'] = ...
        b['__debug__'] = True
        b['__name__'] = 'builtins'

        def nat(n):
            def deco(fn):
                b[n] = Native(n, fn)
                return fn
            return deco

        @nat('len')
        def _(m, a, k):
            return self.length(m, a[0])

        @nat('isinstance')
        def _(m, a, k):
            return self.isinstance_(m, a[0], a[1])

        @nat('issubclass')
        def _(m, a, k):
            ts = a[1] if isinstance(a[1], tuple) else (a[1],)
            return any(a[0].issub(t) for t in ts)

        @nat('iter')
        def _(m, a, k):
            if len(a) == 2:
                return CallVM(m.program.prelude['_iter_until'], a)
            return get_iter(m, a[0])

        @nat('next')
        def _(m, a, k):
            return next_(m, a[0], a[1] if len(a) > 1 else NULL)

        @nat('getattr')
        def _(m, a, k):
            if len(a) > 2:
                try:
                    r = m.getattr_(a[0], a[1])
                except VMRaise as e:
                    if e.exc.cls.name == 'AttributeError':
                        return a[2]
                    raise
                return r
            return m.getattr_(a[0], a[1])

        @nat('hasattr')
        def _(m, a, k):
            try:
                m.getattr_(a[0], a[1])
            except VMRaise as e:
                if e.exc.cls.name == 'AttributeError':
                    return False
                raise
            return True

        @nat('setattr')
        def _(m, a, k):
            r = m.setattr_(*a)
            return r

        @nat('delattr')
        def _(m, a, k):
            if isinstance(a[0], Obj):
                a[0].f.pop(a[1], None)
            else:
                m.effect('attribute %r of %r is deleted' % (a[1], a[0]))

        @nat('callable')
        def _(m, a, k):
            return isinstance(a[0], (Func, Native, Cls, Bound, Partial))

        @nat('id')
        def _(m, a, k):
            m.world_event('identity', 'id()', a, {})
            return IdentityAtom()

        @nat('hash')
        def _(m, a, k):
            m.world_event('identity', 'hash()', a, {})
            return IdentityAtom()

        @nat('repr')
        def _(m, a, k):
            m.world_event('identity', 'repr()', a, {})
            return '<repr>'

        @nat('print')
        def _(m, a, k):
            m.world_event('external', 'print', a, k)

        @nat('abs')
        def _(m, a, k):
            if isinstance(a[0], Atom):
                return a[0].v_unop(m, 'abs')
            return abs(m.enum_int(a[0]))

        @nat('round')
        def _(m, a, k):
            if isinstance(a[0], Atom):
                return a[0].v_unop(m, 'round')
            return round(*map(m.enum_int, a))

        @nat('divmod')
        def _(m, a, k):
            x, y = map(m.enum_int, a)
            return divmod(x, y)

        @nat('pow')
        def _(m, a, k):
            return binop(m, '**', a[0], a[1])

        @nat('vars')
        def vars_(m, a, k):
            raise Unsupported('vars()')

        @nat('globals')
        def _(m, a, k):
            m.effect('globals() is used')
            return VDict()

        @nat('__import__')
        def _(m, a, k):
            return self.load(a[0])

    def length(self, m, v):
        if isinstance(v, (list, tuple, str, range)):
            return len(v)
        if isinstance(v, (VDict, VSet)):
            return len(v.items)
        if isinstance(v, Atom):
            return v.v_len(m)
        if isinstance(v, Obj):
            f, _ = v.cls.lookup('__len__')
            if f is not NULL:
                return CallVM(f, (v,))
        if isinstance(v, Cls) and v.enum_members is not None:
            return len(v.enum_members)
        m.raise_('TypeError', 'no len()')

    def class_of(self, m, v):
        b = self.builtins
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, EnumMember):
            return v.cls
        if isinstance(v, Atom):
            return v.v_type(m)
        for t, n in ((bool, 'bool'), (int, 'int'), (float, 'float'),
                     (str, 'str'), (tuple, 'tuple'), (list, 'list'),
                     (VDict, 'dict'), (range, 'range'), (Cls, 'type'),
                     (Func, 'function'), (Gen, 'generator'),
                     (slice, 'slice'), (bytes, 'bytes')):
            if isinstance(v, t):
                return b[n]
        if isinstance(v, VSet):
            return b['frozenset' if v.frozen else 'set']
        if v is None:
            return b['NoneType']
        if isinstance(v, (SeqIter, Bound, Partial, Native)):
            return b['function']
        raise Unsupported('type of %r' % (v,))

    def isinstance_(self, m, v, t):
        if isinstance(t, tuple):
            return any(self.isinstance_(m, v, x) for x in t)
        if isinstance(v, Atom):
            return v.v_isinstance(m, t)
        if isinstance(t, Cls):
            return self.class_of(m, v).issub(t)
        if isinstance(t, Opaque):
            n = t.name.rsplit('.', 1)[-1]
            if n in ('Sequence', 'Sized', 'Iterable', 'Collection'):
                return isinstance(v, (list, tuple, str, range))
            if n in ('Mapping', 'Dict'):
                return isinstance(v, VDict)
            if n == 'Callable':
                return isinstance(v, (Func, Native, Cls, Bound, Partial))
            if n in ('Iterator', 'Generator'):
                return isinstance(v, (Gen, SeqIter))
            if n in ('Number', 'Rational', 'Real', 'Integral', 'Fraction',
                     'Decimal'):
                return isinstance(v, (int, float)) and n != 'Fraction'
        raise Unsupported('isinstance with %r' % (t,))

    def make_enum(self, m, cls):
        members = {}
        auto = 0
        ignore = (Func, Native, StaticM, ClassM, Prop, Cls)
        for n, v in list(cls.d.items()):
            if (n.startswith('_') or isinstance(v, ignore)):
                continue
            if isinstance(v, Opaque) and v.name.endswith('auto()'):
                auto += 1
                v = auto
            elif isinstance(v, int):
                auto = v
            dup = None
            for mem in members.values():
                if isinstance(v, HOST) and mem.value == v:
                    dup = mem
            if dup is None:
                dup = EnumMember(cls, n, v)
            members[n] = dup
            cls.d[n] = dup
        if members:
            cls.enum_members = members

    # -------------------------------------------------- attribute tables
    def native_attr(self, m, v, name):
        if v.name == 'chain' and name == 'from_iterable':
            return self.prelude['_chain_from_iterable']
        return NULL

    def type_attr(self, m, cls, name):
        n = cls.name
        if n == 'dict' and name == 'fromkeys':
            return Native('fromkeys', lambda m, a, k: CallVM(
                    self.prelude['_list'], (a[0],), None,
                    K(_fromkeys, (a[1] if len(a) > 1 else None,))))
        if n in ('list', 'tuple', 'dict', 'set', 'str', 'int', 'object',
                 'frozenset', 'range'):
            def call(m, a, k):
                if isinstance(a[0], Obj) and n == 'object':
                    if name == '__setattr__':
                        a[0].f[a[1]] = a[2]
                        return None
                    if name == '__init__':
                        return None
                    if name == '__new__':
                        return Obj(a[0])
                    if name == '__getattribute__':
                        return m.getattr_(a[0], a[1])
                if n == 'object' and name == '__new__':
                    return Obj(a[0])
                r = self.host_attr(m, a[0], name)
                return CallVM(r, a[1:], k)
            return Native(n + '.' + name, call)
        return NULL

    def host_attr(self, m, v, name):
        if isinstance(v, list):
            t = LIST
        elif isinstance(v, tuple):
            t = TUPLE
        elif isinstance(v, VDict):
            t = DICT
        elif isinstance(v, VSet):
            t = SET
        elif isinstance(v, range):
            t = TUPLE
            if name in ('start', 'stop', 'step'):
                return getattr(v, name)
        elif isinstance(v, slice) and name in ('start', 'stop', 'step'):
            return getattr(v, name)
        elif isinstance(v, str):
            if name in ('startswith', 'endswith', 'format', 'join', 'split',
                        'rsplit', 'strip', 'lower', 'upper', 'replace'):
                def strm(m, a, k):
                    if all(isinstance(x, (str, int, tuple)) for x in a):
                        return getattr(v, name)(*a)
                    return '<str>'
                return Native(name, strm)
            t = {}
        elif isinstance(v, Gen):
            t = GEN
        elif isinstance(v, (SeqIter,)):
            t = ITER
        elif isinstance(v, (int, float)):
            t = INT
        elif v is None:
            t = {}
        else:
            t = {}
        fn = t.get(name)
        if fn is not None:
            if fn is True:
                return v
            return Native(name, lambda m, a, k: fn(m, v, a, k))
        if name == '__class__':
            return self.class_of(m, v)
        if name in ('__doc__', '__annotations__', '__slots__'):
            return None
        r = self.dunder(v, name)
        real = {VDict: dict, VSet: set}.get(type(v), type(v))
        if hasattr(real, name) or isinstance(v, Gen):
            if r is not NULL:
                return r
            raise Unsupported('%s of %s' % (name, real.__name__))
        m.raise_('AttributeError', '%s of %r' % (name, type(v).__name__))

    def dunder(self, v, name):
        """A method that stands for an operator."""
        op = OPERATORS.get(name)
        f = op and self.prelude.get(op)
        return Bound(f, v) if f else NULL

    # ---------------------------------------------------------- externals
    def external(self, name):
        p = self.prelude
        b = self.builtins
        d = {}
        if name == 'itertools':
            for n in ('groupby', 'combinations', 'permutations', 'product',
                      'islice', 'tee', 'zip_longest', 'repeat', 'cycle',
                      'count', 'accumulate', 'starmap', 'takewhile',
                      'dropwhile', 'filterfalse', 'compress', 'pairwise'):
                d[n] = p[n]
            ch = p['chain']
            d['chain'] = Native('chain', lambda m, a, k: CallVM(ch, a, k))
        elif name == 'functools':
            d['partial'] = Native('partial', lambda m, a, k: Partial(
                    a[0], tuple(a[1:]), dict(k)))
            d['reduce'] = p['reduce']
            d['cmp_to_key'] = p['cmp_to_key']
            d['wraps'] = Native('wraps', lambda m, a, k: Native(
                    'wraps', lambda m, aa, kk: _wraps(aa[0], a[0])))
            d['lru_cache'] = Native('lru_cache', _lru_cache)
            d['cache'] = Native('cache', _lru_cache)
            d['cached_property'] = Native(
                    'cached_property', lambda m, a, k: CachedProp(a[0]))
            d['total_ordering'] = Native('total_ordering', _total_ordering)
            d['singledispatch'] = Opaque('functools.singledispatch')
        elif name == 'operator':
            for n in ('attrgetter', 'itemgetter', 'methodcaller'):
                d[n] = p[n]
            for n, v in p.items():
                if n.startswith('op_'):
                    d[n[3:]] = v
        elif name == 'collections':
            for n in ('deque', 'defaultdict', 'Counter'):
                d[n] = p[n]
            d['OrderedDict'] = b['dict']
            d['namedtuple'] = Native('namedtuple', _namedtuple)
        elif name == 'heapq':
            for n in ('heappush', 'heappop', 'heapify', 'heappushpop',
                      'heapreplace', 'nsmallest', 'nlargest', 'merge'):
                d[n] = p[n]
        elif name == 'bisect':
            for n in ('bisect_left', 'bisect_right', 'insort_left',
                      'insort_right'):
                d[n] = p[n]
            d['bisect'], d['insort'] = p['bisect_right'], p['insort_right']
        elif name == 'contextlib':
            d['suppress'] = p['suppress']
            d['contextmanager'] = p['contextmanager']
        elif name == 'copy':
            d['copy'] = Native('copy', _copy)
        elif name == 'abc':
            d['ABC'] = Cls('ABC', (b['object'],), {})
            d['ABCMeta'] = b['type']
            d['abstractmethod'] = Native('abstractmethod',
                                         lambda m, a, k: a[0])
            d['abstractproperty'] = b['property']
        elif name == 'enum':
            e = Cls('Enum', (b['object'],), {})
            e.is_enum = True
            ie = Cls('IntEnum', (b['int'], e), {})
            ie.is_enum = True
            ie.mro = [ie, b['int'], e, b['object']]
            d['Enum'], d['IntEnum'] = e, ie
            for n in ('Flag', 'IntFlag'):
                c = Cls(n, (ie,), {})
                c.is_enum = True
                d[n] = c
            d['unique'] = Native('unique', _unique)
            d['auto'] = Opaque('enum.auto')
        elif name == 'reprlib':
            d['recursive_repr'] = Native(
                    'recursive_repr', lambda m, a, k: Native(
                            'recursive_repr', lambda m, a, k: a[0]))
        elif name in ('reprit.base', 'reprit'):
            d['generate_repr'] = Native(
                    'generate_repr',
                    lambda m, a, k: Native('__repr__',
                                           lambda m, a, k: '<repr>'))
        elif name == 'typing':
            d['TYPE_CHECKING'] = False
            d['Generic'] = Cls('Generic', (b['object'],), {})
            d['Protocol'] = Cls('Protocol', (b['object'],), {})
            d['NamedTuple'] = self.named_tuple
            d['cast'] = Native('cast', lambda m, a, k: a[1])
            for n in ('overload', 'final', 'no_type_check'):
                d[n] = Native(n, lambda m, a, k: a[0])
        elif name == 'dataclasses':
            d['dataclass'] = Native('dataclass', _dataclass)
            d['field'] = Native('field', _field)
        elif name in ('ground.base', 'ground.core.enums', 'ground.enums'):
            for n in ('Kind', 'Location', 'Orientation', 'Relation'):
                d[n] = p[n]
            d['get_context'] = Native('get_context', _get_context)
            d['set_context'] = Native('set_context', _set_context)
            d['Context'] = Opaque(name + '.Context')
        elif name in ('prioq.base', 'prioq'):
            d['PriorityQueue'] = p['PriorityQueue']
        elif name == 'dendroid.red_black':
            d['set_'] = p['set_']
        elif name == 'dendroid':
            rb = self.load('dendroid.red_black')
            for n in ('red_black', 'avl', 'splay', 'binary'):
                d[n] = rb
        elif name in ('dendroid.avl', 'dendroid.splay', 'dendroid.binary'):
            d['set_'] = p['set_']
        return Module(name, d, opaque=True)


class MissingAnchor(Exception):
    """A construct the analysis is anchored at is gone."""


class IdentityAtom(Atom):
    """Value derived from object identity or hashing."""

    def v_eq(self, m, other):
        raise Unsupported('identity dependent value compared')


def _wraps(f, orig):
    if isinstance(f, Func):
        f.d['__wrapped__'] = orig
    return f


def _lru_cache(m, a, k):
    if a and isinstance(a[0], (Func, StaticM, ClassM, Native)):
        return _cached(m, a[0])
    return Native('lru_cache', lambda m, a, k: _cached(m, a[0]))


def _cached(m, f):
    name = f.qualname if isinstance(f, Func) else repr(f)

    def call(m, a, k):
        m.effect('cached function %s keeps state between calls' % name)
        m.world_event('cache', name, a, k)
        return CallVM(f, a, k)
    n = Native('cached ' + name, call)
    n.cached = f
    return n


def _total_ordering(m, a, k):
    cls = a[0]
    lt, _ = cls.lookup('__lt__')
    if lt is NULL:
        raise Unsupported('total_ordering without __lt__')

    def gt(m, a, k):
        return CallVM(lt, (a[1], a[0]))

    def le(m, a, k):
        return CallVM(lt, (a[1], a[0]), None, K(_not))

    def ge(m, a, k):
        return CallVM(lt, (a[0], a[1]), None, K(_not))
    cls.d.setdefault('__gt__', Native('__gt__', gt))
    cls.d.setdefault('__le__', Native('__le__', le))
    cls.d.setdefault('__ge__', Native('__ge__', ge))
    return cls


def _not(m, value, data):
    return not m.truth_sync(value)


def _namedtuple(m, a, k):
    name, fields = a[0], a[1]
    if isinstance(fields, str):
        fields = fields.replace(',', ' ').split()
    fields = list(fields)
    values = list(k.get('defaults') or ())
    defaults = dict(zip(fields[len(fields) - len(values):], values))
    return _record(m, name, fields, defaults)


def _record_source(name, fields, defaults, compared, frozen_tuple, order):
    """Source of a class that keeps the fields."""
    def default(n):
        if n not in defaults:
            return n
        return '%s=_missing' % n

    def value(n):
        if n not in defaults:
            return n
        return ('(_make_%s() if %s is _missing else %s)' % (n, n, n)
                if defaults[n][0] else
                '(_default_%s if %s is _missing else %s)' % (n, n, n))
    every = ', '.join('self.%s' % n for n in fields)
    every = '(%s)' % (every + ',' if every else '')
    keys = ', '.join('{0}.%s' % n for n in compared)
    keys = '(%s)' % (keys + ',' if keys else '')
    lines = ['class %s:' % name]
    lines += ['    def __init__(self%s):' % ''.join(
        ', ' + default(n) for n in fields)]
    lines += ['        self.%s = %s' % (n, value(n)) for n in fields]
    lines += ['        _after(self)']
    if frozen_tuple:
        lines += ['    def __iter__(self):',
                  '        return iter(%s)' % every,
                  '    def __getitem__(self, i):',
                  '        return %s[i]' % every,
                  '    def __len__(self):',
                  '        return %d' % len(fields),
                  '    def __contains__(self, v):',
                  '        return v in %s' % every,
                  '    def index(self, v):',
                  '        return %s.index(v)' % every,
                  '    def _asdict(self):',
                  '        return {%s}' % ', '.join(
                      '%r: self.%s' % (n, n) for n in fields),
                  '    def _replace(self, **changes):',
                  '        values = self._asdict()',
                  '        values.update(changes)',
                  '        return type(self)(**values)',
                  '    def __eq__(self, other):',
                  '        return %s == tuple(other)' % every,
                  '    def __lt__(self, other):',
                  '        return %s < tuple(other)' % every,
                  '    def __hash__(self):',
                  '        return hash(%s)' % every]
    elif compared is not None:
        mine, other = keys.format(*['self'] * 1), keys
        mine = keys.replace('{0}', 'self')
        other = keys.replace('{0}', 'other')
        lines += ['    def __eq__(self, other):',
                  '        if type(other) is not type(self):',
                  '            return NotImplemented',
                  '        return %s == %s' % (mine, other),
                  '    def __hash__(self):',
                  '        return hash(%s)' % mine]
        if order:
            for n, o in (('lt', '<'), ('le', '<='), ('gt', '>'),
                         ('ge', '>=')):
                lines += ['    def __%s__(self, other):' % n,
                          '        return %s %s %s' % (mine, o, other)]
    return '\n'.join(lines) + '\n'


def _record(m, name, fields, defaults=(), body=None, tuple_like=True,
            bases=None, module=None, compared=(), order=False):
    """Class of a record; ``defaults`` by name: value or (factory,)."""
    defaults = dict(defaults)
    plain = {n: ((True, v.factory) if isinstance(v, FieldSpec)
                 and v.factory is not NULL else
                 (False, v.default if isinstance(v, FieldSpec) else v))
             for n, v in defaults.items()}
    plain = {n: v for n, v in plain.items() if v[1] is not NULL}
    source = _record_source(name, fields, plain, compared, tuple_like, order)
    glob = Module('<record>', {'__name__': '<record>', '__package__': '',
                               '_missing': m.program.prelude['_missing'],
                               '_after': Native('_after', _after)})
    for n, (made, v) in plain.items():
        glob.d[('_make_' if made else '_default_') + n] = v
    m.run_code(compile(source, '<record>', 'exec', dont_inherit=True), glob)
    cls = glob.d[name]
    d = dict(cls.d)
    d['_fields'] = tuple(fields)
    d.update(body or {})
    for n, (made, v) in plain.items():
        if not made:
            d.setdefault(n, v)
    if tuple_like:
        for n in fields:
            d.pop(n, None)
    return Cls(name, bases or [m.program.builtins['object']], d,
               module=module or '<record>')


class FieldSpec:
    def __init__(self, default, factory, compare=True):
        self.default, self.factory, self.compare = default, factory, compare


def _field(m, a, k):
    return FieldSpec(k.get('default', NULL), k.get('default_factory', NULL),
                     k.get('compare', True) is not False)


def _after(m, a, k):
    f, _ = a[0].cls.lookup('__post_init__')
    if f is not NULL:
        return CallVM(f, (a[0],))
    return None


def _annotated(cls_d):
    notes = cls_d.get('__annotations__')
    if notes is None:
        return []
    items = notes.items if isinstance(notes, VDict) else list(notes.items())
    return [p[0] for p in items]


def _dataclass(m, a, k):
    if not a:
        return Native('dataclass', lambda m, aa, kk: _dataclass(m, aa, k))
    cls = a[0]
    fields, defaults = [], {}
    for c in reversed(cls.mro):
        for n in c.d.get('_dataclass_fields', ()):
            if n not in fields:
                fields.append(n)
            if n in c.d['_dataclass_defaults']:
                defaults[n] = c.d['_dataclass_defaults'][n]
    own = _annotated(cls.d)
    for n in own:
        if n not in fields:
            fields.append(n)
        if n in cls.d and not isinstance(cls.d[n], SlotTypes):
            defaults[n] = cls.d[n]
    compared = [n for n in fields
                if not (isinstance(defaults.get(n), FieldSpec)
                        and not defaults[n].compare)]
    made = _record(m, cls.name, fields, defaults, tuple_like=False,
                   compared=(None if k.get('eq') is False else compared),
                   order=k.get('order') is True)
    for n, v in made.d.items():
        if (n not in cls.d or n in own) and n not in (
                '__module__', '__qualname__', '__doc__', '_fields'):
            cls.d[n] = v
    for n in own:
        if isinstance(cls.d.get(n), FieldSpec):
            del cls.d[n]
    cls.d['_dataclass_fields'] = tuple(fields)
    cls.d['_dataclass_defaults'] = defaults
    return cls


SlotTypes = ()


def make_record_class(m, name, ns, module):
    """Class statement with the base ``typing.NamedTuple``."""
    fields = _annotated(ns)
    defaults = {n: ns[n] for n in fields if n in ns}
    body = {n: v for n, v in ns.items() if n not in fields}
    return _record(m, name, fields, defaults, body, module=module)


def _unique(m, a, k):
    cls = a[0]
    if cls.enum_members:
        for n, mem in cls.enum_members.items():
            if mem.name != n:
                m.raise_('ValueError', 'duplicate values in enum')
    return cls


def _get_context(m, a, k):
    if m.world is None:
        from .world import Ctx
        return Ctx('default context fixed at import')
    return m.world.default_context(m)


def _set_context(m, a, k):
    m.effect('default context is replaced')


def _append(m, a, k):
    if isinstance(a[0], InList):
        m.effect('argument list %s is extended' % a[0].label)
    if isinstance(a[0], list):
        a[0].append(a[1])
        return None
    return CallVM(m.getattr_(a[0], 'append'), (a[1],))


def _with_default(m, a, k):
    a[0].default = a[1]
    return a[0]


def _copy(m, a, k):
    v = a[0]
    if isinstance(v, list):
        return list(v)
    if isinstance(v, VDict):
        return VDict(v.items)
    if isinstance(v, VSet):
        return VSet(v.items)
    if isinstance(v, Obj):
        return Obj(v.cls, dict(v.f))
    return v


def _super(m, a, k):
    raise Unsupported('explicit super()')


def _type(m, c, a, k):
    if len(a) == 1:
        return m.program.class_of(m, a[0])
    raise Unsupported('dynamic class creation')


def _int(m, c, a, k):
    if not a:
        return 0
    v = a[0]
    if isinstance(v, Atom):
        return v.v_unop(m, 'int')
    return int(m.enum_int(v))


def _float(m, c, a, k):
    v = a[0] if a else 0.
    if isinstance(v, Atom):
        return v.v_unop(m, c.name)
    return float(m.enum_int(v))


def _bool(m, c, a, k):
    if not a:
        return False
    r = m.truth(a[0])
    if isinstance(r, CallVM):
        return CallVM(r.func, r.args, r.kwargs, K(_boolk))
    return r


def _boolk(m, v, data):
    r = m.truth(v)
    if isinstance(r, CallVM):
        return CallVM(r.func, r.args, r.kwargs, K(_boolk))
    return r


def _listc(m, c, a, k):
    if not a:
        return []
    if isinstance(a[0], (list, tuple, range)):
        return list(a[0])
    return CallVM(m.program.prelude['_list'], (a[0],))


def _tuplec(m, c, a, k):
    if not a:
        return ()
    if isinstance(a[0], (list, tuple, range)):
        return tuple(a[0])
    return CallVM(m.program.prelude['_list'], (a[0],), None, K(_to_tuple))


def _to_tuple(m, v, data):
    return tuple(v)


def _dictc(m, c, a, k):
    d = VDict()
    if a:
        if isinstance(a[0], VDict):
            d = VDict(a[0].items)
        else:
            return CallVM(m.program.prelude['_list'], (a[0],), None,
                          K(_to_dict, (_Box(k),)))
    for n, v in k.items():
        dict_set(m, d, n, v)
    return d


def _to_dict(m, v, data):
    d = VDict()
    for p in v:
        if not isinstance(p, (tuple, list)):
            raise Unsupported('dict from iterables')
        dict_set(m, d, p[0], p[1])
    for n, x in data[0].v.items():
        dict_set(m, d, n, x)
    return d


def _fromkeys(m, v, data):
    d = VDict()
    for x in v:
        dict_set(m, d, x, data[0])
    return d


def _setc(m, c, a, k, frozen=False):
    if not a:
        return VSet(frozen=frozen)
    if isinstance(a[0], (list, tuple, range)):
        s = VSet(frozen=frozen)
        for x in a[0]:
            s.add(m, x)
        return s
    return CallVM(m.program.prelude['_list'], (a[0],), None,
                  K(_to_set, (frozen,)))


def _to_set(m, v, data):
    s = VSet(frozen=data[0])
    for x in v:
        s.add(m, x)
    return s


def _send(m, gen, value):
    if gen.done:
        m.raise_('StopIteration')
    m.gen_resume(gen, ('k', K(_same)), value)
    return _Started


def next_(m, it, default=NULL):
    r = iter_step(m, it)
    if r is not None:
        ok, v = r
        if ok:
            return v
        if default is not NULL:
            return default
        m.raise_('StopIteration')
    if isinstance(it, Gen):
        if it.done:
            if default is not NULL:
                return default
            m.raise_('StopIteration')
        k = (K(_same) if default is NULL
             else K(_same, (default,), _next_exc))
        m.gen_resume(it, ('k', k))
        return _Started
    if isinstance(it, Obj):
        f, _ = it.cls.lookup('__next__')
        if f is not NULL:
            return CallVM(f, (it,), None,
                          None if default is NULL
                          else K(_same, (default,), _next_exc))
    raise Unsupported('next of %r' % (it,))


def _next_exc(m, e, data):
    if e.exc.cls.issub(m.program.builtins['StopIteration']):
        return data[0]
    return NULL


# --------------------------------------------------------- host methods
def _mut(m, v, what):
    if isinstance(v, InList):
        m.effect('%s on argument list %s' % (what, v.label))


def _l_append(m, v, a, k):
    _mut(m, v, 'append')
    v.append(a[0])


def _l_extend(m, v, a, k):
    _mut(m, v, 'extend')
    return CallVM(m.program.prelude['_extend'], (v, a[0]))


def _l_insert(m, v, a, k):
    _mut(m, v, 'insert')
    v.insert(a[0], a[1])


def _l_pop(m, v, a, k):
    _mut(m, v, 'pop')
    try:
        return v.pop(*a)
    except IndexError:
        m.raise_('IndexError', 'pop')


def _l_remove(m, v, a, k):
    _mut(m, v, 'remove')
    for i, x in enumerate(v):
        if m.eq(x, a[0]):
            del v[i]
            return None
    m.raise_('ValueError', 'not in list')


def _l_index(m, v, a, k):
    stop = len(v)
    start = 0
    if len(a) > 1:
        start = a[1]
    if len(a) > 2:
        stop = a[2]
    for i in range(len(v))[start:stop]:
        if m.eq(v[i], a[0]):
            return i
    m.raise_('ValueError', 'not in list')


def _l_count(m, v, a, k):
    return sum(1 for x in v if m.eq(x, a[0]))


def _l_reverse(m, v, a, k):
    _mut(m, v, 'reverse')
    v.reverse()


def _l_sort(m, v, a, k):
    _mut(m, v, 'sort')
    return CallVM(m.program.prelude['sorted'], (list(v),), k,
                  K(_sorted_into, (v,)))


def _sorted_into(m, r, data):
    data[0][:] = r
    return None


def _l_clear(m, v, a, k):
    _mut(m, v, 'clear')
    v.clear()


def _getitem(m, v, a, k):
    return getitem(m, v, a[0])


def _len(m, v, a, k):
    return m.program.length(m, v)


def _iter(m, v, a, k):
    return get_iter(m, v)


def _cont(m, v, a, k):
    return contains(m, v, a[0])


COMMON = {'__getitem__': _getitem, '__len__': _len, '__iter__': _iter,
          '__contains__': _cont,
          '__eq__': lambda m, v, a, k: m.compare('==', v, a[0]),
          '__ne__': lambda m, v, a, k: m.compare('!=', v, a[0]),
          '__bool__': lambda m, v, a, k: bool(m.truth(v))}
LIST = dict(COMMON, append=_l_append, extend=_l_extend, insert=_l_insert,
            pop=_l_pop, remove=_l_remove, index=_l_index, count=_l_count,
            reverse=_l_reverse, sort=_l_sort, clear=_l_clear,
            copy=lambda m, v, a, k: list(v),
            __setitem__=lambda m, v, a, k: setitem(m, v, a[0], a[1]),
            __add__=lambda m, v, a, k: binop(m, '+', v, a[0]))
TUPLE = dict(COMMON, index=_l_index, count=_l_count,
             __lt__=lambda m, v, a, k: m.compare('<', v, a[0]))


def _d_get(m, v, a, k):
    p = v.find(m, a[0])
    return p[1] if p is not None else (a[1] if len(a) > 1 else None)


def _d_setdefault(m, v, a, k):
    p = v.find(m, a[0])
    if p is None:
        p = [a[0], a[1] if len(a) > 1 else None]
        v.items.append(p)
    return p[1]


def _d_pop(m, v, a, k):
    p = v.find(m, a[0])
    if p is None:
        if len(a) > 1:
            return a[1]
        m.raise_('KeyError', a[0])
    v.items.remove(p)
    return p[1]


def _d_update(m, v, a, k):
    for x in a:
        if not isinstance(x, VDict):
            raise Unsupported('dict.update')
        for kk, vv in x.items:
            dict_set(m, v, kk, vv)
    for kk, vv in k.items():
        dict_set(m, v, kk, vv)


DICT = dict(COMMON, get=_d_get, setdefault=_d_setdefault, pop=_d_pop,
            update=_d_update,
            keys=lambda m, v, a, k: [p[0] for p in v.items],
            values=lambda m, v, a, k: [p[1] for p in v.items],
            items=lambda m, v, a, k: [(p[0], p[1]) for p in v.items],
            copy=lambda m, v, a, k: VDict(v.items),
            clear=lambda m, v, a, k: v.items.clear())


def _s_discard(m, v, a, k):
    for i, x in enumerate(v.items):
        if m.eq(x, a[0]):
            del v.items[i]
            return None


def _s_remove(m, v, a, k):
    for i, x in enumerate(v.items):
        if m.eq(x, a[0]):
            del v.items[i]
            return None
    m.raise_('KeyError', a[0])


def _s_op(name):
    def fn(m, v, a, k):
        return CallVM(m.program.prelude['_list'], (a[0],), None,
                      K(_s_after, (v, name)))
    return fn


def _s_after(m, r, data):
    v, name = data
    o = VSet()
    for x in r:
        o.add(m, x)
    if name == '<=':
        return all(o.has(m, x) for x in v.items)
    if name == '>=':
        return all(v.has(m, x) for x in o.items)
    if name == 'disjoint':
        return not any(v.has(m, x) for x in o.items)
    if name == 'update':
        for x in o.items:
            v.add(m, x)
        return None
    return binop(m, name, v, o)


SET = dict(COMMON, add=lambda m, v, a, k: v.add(m, a[0]),
           discard=_s_discard, remove=_s_remove,
           copy=lambda m, v, a, k: VSet(v.items),
           clear=lambda m, v, a, k: v.items.clear(),
           union=_s_op('|'), intersection=_s_op('&'),
           difference=_s_op('-'), symmetric_difference=_s_op('^'),
           issubset=_s_op('<='), issuperset=_s_op('>='),
           isdisjoint=_s_op('disjoint'), update=_s_op('update'))
GEN = {'__next__': lambda m, v, a, k: next_(m, v),
       '__iter__': lambda m, v, a, k: v,
       'send': lambda m, v, a, k: _send(m, v, a[0]),
       'close': lambda m, v, a, k: setattr(v, 'done', True)}
ITER = {'__next__': lambda m, v, a, k: next_(m, v),
        '__iter__': lambda m, v, a, k: v}
INT = {'real': True, 'numerator': True,
       '__bool__': lambda m, v, a, k: bool(v),
       '__eq__': lambda m, v, a, k: m.compare('==', v, a[0]),
       '__lt__': lambda m, v, a, k: m.compare('<', v, a[0]),
       '__gt__': lambda m, v, a, k: m.compare('>', v, a[0]),
       '__hash__': lambda m, v, a, k: hash(v)}
