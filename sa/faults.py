"""What becomes of errors of the context and of coordinates.

Every operation of the context and every comparison of coordinates that a
query performs is a place where an error can arise.  Each such place, told
apart by the chain of calls leading to it, is made to fail once with each
kind of error, and the exceptional paths from there are followed.
"""
from __future__ import annotations

from . import gen, oracle
from .kit import exc_name, explore, func_site, program, ret_site
from .queries import QUERIES, by_shape, got_name, query_func, run_query, text
from .vm import StepLimit, VMRaise
from .world import World

KINDS = ('Exception', 'ZeroDivisionError', 'OverflowError', 'TypeError',
         'RuntimeError', 'MemoryError', 'KeyboardInterrupt')


class Failing(World):
    """Observations fail at one place."""

    machine = None
    at = kind = None
    places = None
    failed = None

    def event(self, m, kind, *data):
        if kind == 'context':
            self.place()
        return super().event(m, kind, *data)

    def ask(self, fn):
        self.place()
        return super().ask(fn)

    def place(self):
        if self.failed is None:
            self.count = getattr(self, 'count', 0) + 1
            if self.places is not None:
                self.places.append(tuple(self.machine.stack_trace()))
            elif self.count == self.at:
                self.failed = self.machine.exc(self.kind, 'failure')
                self.trace = tuple(self.machine.stack_trace())
                raise VMRaise(self.failed)


def fault_task(rep, name, family, seed, count, rule, most=60):
    xk, yk = QUERIES[name]
    func = query_func(name)
    rep.sites.add(func_site(func))
    seen, lines = set(), set()
    for scene in gen.scenes(family, name, seed, count):
        if (len(oracle.geo_points(xk, scene[0]))
                + len(oracle.geo_points(yk, scene[1]))) > 18:
            continue
        ((xs, ys), universe), = by_shape(xk, yk, [scene]).items()
        query = run_query(name, xs, ys)

        def paths(**how):
            def run(m, w):
                w.machine = m
                return query(m, w)

            def make(*args):
                w = Failing(*args)
                for k, v in how.items():
                    setattr(w, k, v)
                return w
            return explore(program(), run, universe, make_world=make,
                           stats=rep.stats, limit=3000000)
        places = []
        for o in paths(places=places):
            pass
        fresh = {}
        for i, p in enumerate(places):
            if p not in seen and (len(seen) < most or p[:1] not in lines):
                seen.add(p)
                lines.add(p[:1])
                fresh[i + 1] = p
        for i, p in fresh.items():
            for kind in KINDS:
                for o in paths(at=i, kind=kind):
                    w = o.world
                    if w.failed is None:
                        continue
                    rep.ob(rule)
                    if o.exc is None:
                        rep.violation(
                            rule, '%s hides an error' % p[0].split(' in ')[1],
                            p[0], '%s arising at %s becomes the answer %s '
                            'of %s' % (kind, ' <- '.join(p[:6]), got_name(o),
                                       text(name, universe[0])[:300]))
        if fresh:
            rep.sample('%s: %d places, %d kinds of error each' % (
                text(name, universe[0])[:160], len(fresh), len(KINDS)), 3)
