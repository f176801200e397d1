"""Tasks and obligations of the checks deciding C01 - C04."""
from __future__ import annotations

import os
import sys

from . import flow
from .kit import MissingAnchor, program
from .queries import QUERIES
from .vm import Func, Module

TECHNIQUE = ('interprocedural points-to, taint and effect analysis of the '
             'bytecode')
HERE = os.path.dirname(os.path.abspath(__file__))
CONTROL = None
FAMILY = {'context': 'context', 'mutation': 'mutation', 'state': 'state',
          'number': 'number'}


def control():
    """The violating functions, loaded next to the package."""
    global CONTROL
    if CONTROL is None:
        p = program()
        with open(os.path.join(HERE, 'control.py.txt')) as fh:
            source = fh.read()
        mod = Module('control', {'__name__': 'control',
                                 '__package__': 'control'},
                     file='control.py')
        p.loader.run_code(compile(source, 'control.py', 'exec',
                                  dont_inherit=True), mod)
        CONTROL = mod
    return CONTROL


def control_task(rep, kind, rule):
    """The analysis sees what it claims to see."""
    p = program()
    for name, func in control().d.items():
        prefix = name.split('__')[0]
        if (not isinstance(func, Func)
                or prefix not in ('context', 'mutation', 'state', 'number',
                                  'interface', 'depth', 'clean')):
            continue
        f = flow.Flow(p, 'explicit')
        f.run(func, [flow.arg_value('segment'), flow.arg_value('contour')],
              {'context': frozenset((('ctx', 'explicit'),))})
        for names, where in flow.cycles(f):
            f.flags.setdefault(('depth', names, 'recursion'), where)
        flagged = any(k[0] == kind for k in f.flags)
        if prefix == kind and not flagged:
            raise RuntimeError('control function %s is not flagged' % name)
        if prefix == 'clean' and f.flags:
            raise RuntimeError('control function %s is flagged: %r'
                               % (name, f.flags))
        if prefix in (kind, 'clean'):
            rep.ob(rule)


def selected(kind, key):
    k, func, text = key
    if k == kind:
        return True
    # geometry computed by hand is geometry not computed by the context
    return (kind == 'context' and k == 'number'
            and (text.startswith('operator ')
                 or text.startswith(('math.', 'cmath.', 'numpy.'))))


def query_task(rep, name, mode, kind, rule):
    p = program()
    f, inst = flow.analyse(p, name, QUERIES[name], mode)
    rep.ob(rule, len(f.sites[kind]))
    for k in f.instances.values():
        rep.stats.functions.add((k.glob.name, k.code.co_qualname))
    rep.stats.paths += f.runs
    if kind == 'depth':
        rep.ob(rule, sum(map(len, f.edges.values())))
        for names, where in flow.cycles(f):
            rep.violation(rule, names, where, 'reached from %s' % name)
    for key, where in f.flags.items():
        if selected(kind, key):
            rep.violation(rule, '%s: %s' % (key[1], key[2]), where,
                        'reached from %s' % name)
    if kind == 'context':
        if mode == 'default' and not f.default_seen:
            rep.violation(rule, 'orient.planar.%s' % name,
                        'orient/planar.py in %s' % name,
                        'the default context is never consulted although '
                        'no context was passed')
    if not inst.ret:
        rep.skip('orient.planar.%s' % name, 'no answer reaches the caller')
    rep.sample('%s with %s context: %d functions in %d calling contexts, '
               '%d constructs examined'
               % (name, 'an explicit' if mode == 'explicit' else 'no',
                  len({i.code for i in f.instances.values()}),
                  len(f.instances), len(f.sites[kind])), 12)


def tasks_for(kind, rule, control_rule):
    result = [(control_task, (kind, control_rule))]
    for name in QUERIES:
        for mode in ('explicit', 'default'):
            result.append((query_task, (name, mode, kind, rule)))
    return result
