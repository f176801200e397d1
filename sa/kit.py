"""Runs checks, gathers findings, writes evidence."""
from __future__ import annotations

import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback

from .program import MissingAnchor, Program
from .vm import (CallVM, EnumMember, Frame, Machine, Prune, StepLimit,
                 Unsupported, VMRaise)
from .world import Stats, explore

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Report:
    """Findings and coverage of (a part of) one check."""

    def __init__(self):
        self.violations = {}
        self.obligations = {}
        self.skipped = {}
        self.stats = Stats()
        self.samples = []
        self.notes = []
        self.sites = set()

    def ob(self, rule, n=1):
        self.obligations[rule] = self.obligations.get(rule, 0) + n

    def violation(self, rule, construct, where='', detail=''):
        key = rule, construct
        v = self.violations.get(key)
        if v is None:
            self.violations[key] = {'rule': rule, 'construct': construct,
                                    'where': where, 'detail': detail,
                                    'count': 1}
        else:
            v['count'] += 1

    def sample(self, text, limit=6):
        if len(self.samples) < limit:
            self.samples.append(text)

    def skip(self, what, why):
        self.skipped[what] = why

    def merge(self, o):
        for k, v in o.violations.items():
            if k in self.violations:
                self.violations[k]['count'] += v['count']
            else:
                self.violations[k] = v
        for k, n in o.obligations.items():
            self.ob(k, n)
        self.skipped.update(o.skipped)
        self.stats.add(o.stats)
        for s in o.samples:
            self.sample(s, 12)
        for n in o.notes:
            if n not in self.notes:
                self.notes.append(n)
        self.sites |= o.sites


PROGRAM = None


def program():
    global PROGRAM
    if PROGRAM is None:
        PROGRAM = Program()
        PROGRAM.all_modules()
    return PROGRAM


def _run_task(task):
    fn, args = task
    rep = Report()
    try:
        t0 = time.time()
        fn(rep, *args)
        if os.environ.get('SA_TIMES'):
            sys.stderr.write('%.2f %s%r\n' % (time.time() - t0, fn.__name__,
                                              args[:3]))
        return 'ok', rep
    except MissingAnchor as e:
        return 'missing', str(e)
    except Unsupported as e:
        return 'unsupported', '%s [%s%r]\n%s' % (e, fn.__name__, args,
                                                 traceback.format_exc())
    except BaseException as e:
        return 'error', '%s%r: %s' % (fn.__name__, args,
                                      traceback.format_exc())


def run_tasks(tasks, procs=None):
    """Runs ``(function, args)`` pairs, returns merged report and problems."""
    rep = Report()
    problems = []
    program()
    procs = procs or min(8, os.cpu_count() or 1)
    if len(tasks) > 1 and procs > 1:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(procs, len(tasks))) as pool:
            results = pool.imap_unordered(_run_task, tasks, 1)
            for kind, r in results:
                if kind == 'ok':
                    rep.merge(r)
                else:
                    problems.append((kind, r))
    else:
        for t in tasks:
            kind, r = _run_task(t)
            if kind == 'ok':
                rep.merge(r)
            else:
                problems.append((kind, r))
    return rep, problems


# -------------------------------------------------------------- conveniences
class Interface(Unsupported):
    """An internal part is not used the way the harness uses it."""


def _interface(e, what):
    # raised by the access itself, not by the code behind it
    if e.where is None and exc_name(e.exc) in ('AttributeError',
                                               'TypeError'):
        raise Interface('%s: %r' % (what, e.exc.f.get('args')))
    raise e


def attr(m, o, name):
    try:
        r = m.getattr_(o, name)
        if isinstance(r, CallVM):
            return m.call(r.func, *r.args, **(r.kwargs or {}))
    except VMRaise as e:
        _interface(e, 'attribute %s of %r' % (name, o))
    return r


def method(m, o, name, *args, **kwargs):
    f = attr(m, o, name) if isinstance(name, str) else name
    if not isinstance(name, str):
        args = (o,) + args
    try:
        return m.call(f, *args, **kwargs)
    except VMRaise as e:
        _interface(e, 'call of %s of %r' % (name, o))


def bi(name):
    return program().builtins[name]


def iterate(m, it):
    """Steps an iterator of the analysed program one element at a time."""
    it = m.call(bi('iter'), it)
    nxt = bi('next')
    while True:
        try:
            v = m.call(nxt, it)
        except VMRaise as e:
            if exc_name(e.exc) == 'StopIteration':
                return
            raise
        yield v


def exc_name(exc):
    return getattr(getattr(exc, 'cls', None), 'name', repr(exc))


def name_of(v):
    return v.name if isinstance(v, EnumMember) else repr(v)


def enum(module, cls):
    c = program().get(module, cls)
    return c.enum_members


def ret_site(m):
    f = m.ret_site
    if f is None:
        return '?'
    return '%s in %s' % (f.where, f.code.co_qualname)


def func_site(f):
    code = getattr(f, 'code', None)
    if code is None:
        return repr(f)
    return '%s:%d in %s' % (f.glob.file, code.co_firstlineno,
                            code.co_qualname)


def interface_changed(rep, o, what):
    """An internal operation is not called the way this harness calls it;
    the property is decided by the layers that go through public queries."""
    if o.exc is not None and exc_name(o.exc) in ('TypeError',
                                                 'AttributeError'):
        rep.skip(what, 'its interface is different: %r'
                 % (o.exc.f.get('args'),))
        return True
    return False


# ------------------------------------------------------------------- driver
def known_findings():
    path = os.path.join(ROOT, 'known-findings.txt')
    found = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith('known: '):
                    found.append(line[len('known: '):])
    return found


def main(argv):
    pid = argv[0]
    t0 = time.time()
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('sa.checks.' + pid.lower())
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    evidence = os.path.join(ROOT, 'evidence', pid + '.json')
    if os.path.exists(evidence):
        os.remove(evidence)
    try:
        program()
        broken = None
    except Unsupported as e:
        print('ANALYSIS-BROKEN property=%s cannot load the package: %s'
              % (pid, e))
        return 2
    except VMRaise as e:
        print('ANALYSIS-BROKEN property=%s the package does not import: %r'
              % (pid, e.exc))
        return 2
    rep, problems = run_tasks(mod.tasks(THOROUGH))
    fallback = False
    if problems and not rep.violations and getattr(mod, 'MODULAR', True):
        # some parts cannot be analysed on their own: they are analysed as
        # a part of the queries that use them
        from .qtasks import WHOLE, whole_tasks
        for kind, p in problems:
            rep.skip(p.splitlines()[0][:200], kind)
        more, failed = run_tasks(whole_tasks())
        rep.merge(more)
        if rep.obligations.get(WHOLE, 0) >= 100 and len(failed) < 5:
            problems, fallback = [], True
    known = known_findings()
    fresh = []
    for v in rep.violations.values():
        text = '%s | %s' % (v['rule'], v['construct'])
        if any(k.startswith('property=%s ' % pid)
               and k.split(' ', 1)[1].strip() == text for k in known):
            print('KNOWN-FINDING: property=%s %s' % (pid, text))
        else:
            fresh.append(v)
    wall = time.time() - t0
    floor = getattr(mod, 'FLOOR', {})
    for rule, n in floor.items():
        if (rep.obligations.get(rule, 0) < n and not fresh
                and not problems and not fallback and not rep.skipped):
            problems.append(('missing', 'rule %r matched %d instances, '
                             'at least %d expected'
                             % (rule, rep.obligations.get(rule, 0), n)))
    st = rep.stats
    total = sum(rep.obligations.values())
    coverage = {
        'explanation': mod.EXPLANATION,
        'rules': rep.obligations,
        'obligations_evaluated': total,
        'abstract_paths': st.paths,
        'abstract_steps': st.steps,
        'paths_merged': st.pruned,
        'situations_covered': st.situations,
        'functions_analysed': sorted('%s.%s' % k if isinstance(k, tuple)
                                     else str(k) for k in st.functions
                                     if k[0].startswith('orient')),
        'modules_analysed': sorted(n for n in program().modules
                                   if n.split('.')[0] == 'orient'),
        'call_sites': sorted(rep.sites),
        'samples': rep.samples or ['none'],
    }
    if rep.skipped:
        coverage['not_analysed'] = rep.skipped
    if rep.notes:
        coverage['notes'] = rep.notes
    with open(evidence, 'w') as fh:
        json.dump({'property': pid, 'tier': TIER, 'seed': SEED,
                   'level': getattr(mod, 'LEVEL', 'other'),
                   'coverage': coverage,
                   'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                   'wall_s': round(wall, 3),
                   'violations': len(fresh)}, fh, indent=1, sort_keys=True)
        fh.write('\n')
    if fresh:
        replay = os.path.join(ROOT, 'evidence', 'replay', pid + '.json')
        with open(replay, 'w') as fh:
            json.dump({'property': pid, 'command':
                       'cd /verif && VERIF_TIER=%s python3 -m sa.check %s'
                       % (TIER, pid), 'violations': fresh},
                      fh, indent=1)
        for v in fresh[:20]:
            print('VIOLATION property=%s replay=%s rule=%r construct=%s '
                  'where=%s count=%d :: %s'
                  % (pid, replay, v['rule'], v['construct'], v['where'],
                     v['count'], v['detail']))
        if len(fresh) > 20:
            print('... and %d more violations in %s' % (len(fresh) - 20,
                                                        replay))
        for kind, p in problems[:3]:
            print('note: %s: %s' % (kind, p))
        return 1
    if problems:
        for kind, p in problems[:5]:
            print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, kind, p))
        return 2
    print('property=%s holds: %d obligations of %d rules, %d paths, '
          '%d functions, %.1f s%s'
          % (pid, total, len(rep.obligations), st.paths,
             len(coverage['functions_analysed']), wall,
             ', %d parts not analysed' % len(rep.skipped) if rep.skipped
             else ''))
    return 0
