"""Queries about the same point sets, and the same query about their images.

The operands of a situation are given in other presentations (as another
kind with the same points, or mapped by an affine map); every presentation
is interpreted and the answers of one situation are compared.
"""
from __future__ import annotations

import random
from fractions import Fraction

from . import gen, oracle
from .kit import func_site
from .queries import (QUERIES, answer_of, by_shape, got_name, outcomes,
                      query_func, query_task, right_answer, site, sparse, text)

# ------------------------------------------------------------- affine images
MAPS = [('mirrored left to right', (-1, 0, 0, 1, 0, 0)),
        ('mirrored upside down', (1, 0, 0, -1, 0, 0)),
        ('with the axes exchanged', (0, 1, 1, 0, 0, 0)),
        ('turned by a quarter', (0, -1, 1, 0, 0, 0)),
        ('turned by a half', (-1, 0, 0, -1, 0, 0)),
        ('turned by three quarters', (0, 1, -1, 0, 0, 0)),
        ('moved', (1, 0, 0, 1, -101, 57)),
        ('moved below zero', (1, 0, 0, 1, -1, -1000)),
        ('scaled up', (10 ** 9, 0, 0, 10 ** 9, 0, 0)),
        ('scaled down', (Fraction(1, 997), 0, 0, Fraction(1, 997), 0, 0)),
        ('stretched', (7, 0, 0, 1, 3, 0)),
        ('sheared right', (1, 1, 0, 1, 0, 0)),
        ('sheared up', (1, 0, -1, 1, 0, 0)),
        ('turned by an eighth', (1, -1, 1, 1, 0, 0)),
        ('mirrored and sheared', (-1, 2, 0, 1, 5, 0))]


def image(kind, g, m):
    a, b, c, d, e, f = m
    mv = lambda p: (a * p[0] + b * p[1] + e, c * p[0] + d * p[1] + f)
    if kind == 'point':
        return mv(g)
    if kind == 'segment':
        return mv(g[0]), mv(g[1])
    if kind == 'multisegment':
        return [image('segment', s, m) for s in g]
    if kind in ('contour', 'region'):
        return [mv(p) for p in g]
    if kind == 'multiregion':
        return [image('region', r, m) for r in g]
    if kind == 'polygon':
        return image('region', g[0], m), image('multiregion', g[1], m)
    return [image('polygon', p, m) for p in g]


def images_task(rep, name, family, seed, count, rule, each=4, hooked=True):
    """The same maps applied to both operands leave the answer alone."""
    xk, yk = QUERIES[name]
    rng = random.Random('images %s %d' % (name, seed))
    scenes = []
    found = gen.scenes(family, name, seed, count)
    if hooked:
        found = sparse(name, found)
    for i, (x, y) in enumerate(found):
        if not hooked and (len(oracle.geo_points(xk, x))
                           + len(oracle.geo_points(yk, y))) > 16:
            continue
        scenes.append((x, y, {'id': i, 'how': 'as it is'}))
        for how, m in rng.sample(MAPS, each):
            scenes.append((image(xk, x, m), image(yk, y, m),
                           {'id': i, 'how': how}))
    compare(rep, [(name, scenes)], rule, hooked)


def compare(rep, queries, rule, hooked=True):
    """Situations of equal identity have to get equal answers."""
    answers = {}
    for name, scenes in queries:
        xk, yk = QUERIES[name]
        rep.sites.add(func_site(query_func(name)))
        for (xs, ys), universe in by_shape(xk, yk, scenes).items():
            for o in outcomes(rep, name, xs, ys, universe, hooked):
                for t in o.world.S:
                    answers.setdefault(t['id'], []).append(
                            (got_name(o), site(o, name), t, name))
    for i, found in answers.items():
        if len(found) < 2:
            continue
        rep.ob(rule, len(found) - 1)
        if len({f[0] for f in found}) == 1:
            rep.sample('%s and %d other presentations -> %s' % (
                text(found[0][3], found[0][2])[:200], len(found) - 1,
                found[0][0]), 3)
            continue
        want = answer_of(found[0][3], found[0][2])
        bad = next((f for f in found if f[0] != want), found[0])
        good = next(f for f in found if f[0] != bad[0])
        construct = ('%s: %s or %s' % (bad[3], bad[0], good[0])
                     if bad[3] == good[3] else '%s: %s but %s: %s'
                     % (bad[3], bad[0], good[3], good[0]))
        rep.violation(rule, construct, bad[1], '%s%s is %s, but %s%s is %s' % (
            text(bad[3], bad[2]), how(bad[2]), bad[0],
            text(good[3], good[2]), how(good[2]), good[0]))


def how(t):
    return ' (%s)' % t['how'] if 'how' in t else ''


# ------------------------------------------------------- other presentations
def halves(s):
    a, b = s
    m = Fraction(a[0] + b[0], 2), Fraction(a[1] + b[1], 2)
    return [(a, m), (m, b)]


def presentations(kind, g):
    """The same points as other kinds (or other geometries of its kind)."""
    if kind == 'segment':
        yield 'multisegment', halves(g)
    elif kind == 'multisegment':
        yield 'multisegment', halves(g[0]) + list(g[1:])
        yield 'multisegment', list(g[:-1]) + halves(g[-1])
    elif kind == 'contour':
        edges = [(g[i - 1], g[i]) for i in range(len(g))]
        yield 'multisegment', edges
        yield 'multisegment', edges[1:] + halves(edges[0])
    elif kind == 'region':
        yield 'polygon', (g, [])
    elif kind == 'multiregion':
        yield 'multipolygon', [(r, []) for r in g]
        yield 'multiregion', list(g)[::-1]
    elif kind == 'polygon':
        if not g[1]:
            yield 'region', g[0]
        elif len(g[1]) > 1:
            yield 'polygon', (g[0], list(g[1])[::-1])
    elif kind == 'multipolygon':
        if not any(hs for _, hs in g):
            yield 'multiregion', [b for b, _ in g]
        yield 'multipolygon', list(g)[::-1]


def agree_task(rep, name, family, seed, count, rule):
    xk, yk = QUERIES[name]
    queries = {name: []}
    for i, (x, y) in enumerate(sparse(name, gen.scenes(family, name, seed,
                                                       count))):
        queries[name].append((x, y, {'id': i}))
        xs, ys = list(presentations(xk, x)), list(presentations(yk, y))
        pairs = ([(k, g, yk, y) for k, g in xs] + [(xk, x, k, g)
                                                   for k, g in ys]
                 + [a + b for a, b in zip(xs, ys[::-1])])
        for k, g, l, h in pairs:
            other = '%s_in_%s' % (k, l)
            if other in QUERIES:
                queries.setdefault(other, []).append((g, h, {'id': i}))
    compare(rep, list(queries.items()), rule)


# --------------------------------------------------- locations of vertices
def allowed(xk, yk, relation):
    """Where vertices of x can lie in y when x relates to y like this."""
    E, B, I = 'EXTERIOR', 'BOUNDARY', 'INTERIOR'
    if relation in ('DISJOINT', 'COVER'):
        return {E}
    if relation in ('TOUCH', 'ENCLOSES', 'COMPOSITE'):
        return {E, B}
    if relation == 'WITHIN':
        return {I}
    if relation in ('ENCLOSED', 'COMPONENT') and yk not in oracle.LINEAR:
        return ({B} if relation == 'COMPONENT' and xk in oracle.LINEAR
                else {B, I})
    if relation in ('EQUAL', 'COMPONENT'):
        return {B}
    return {E, B, I}


def vertices_task(rep, name, family, seed, count, rule):
    """Relations agree with the locations of the vertices."""
    xk, yk = QUERIES[name]
    locating = 'point_in_' + yk
    scenes, points = [], []
    for i, (x, y) in enumerate(sparse(name, gen.scenes(family, name, seed,
                                                       count))):
        scenes.append((x, y, {'id': i}))
        for p in oracle.geo_points(xk, x)[:8]:
            points.append((p, y, {'id': i}))
    related, located = {}, {}
    for q, s, to in ((name, scenes, related), (locating, points, located)):
        a, b = QUERIES[q]
        rep.sites.add(func_site(query_func(q)))
        for (xs, ys), universe in by_shape(a, b, s).items():
            for o in outcomes(rep, q, xs, ys, universe):
                for t in o.world.S:
                    to.setdefault(t['id'], []).append(
                            (got_name(o), site(o, q), t))
    for i, found in located.items():
        for relation, where, t in related.get(i, ()):
            fits = allowed(xk, yk, relation)
            for location, _, u in found:
                rep.ob(rule)
                if location not in fits:
                    rep.violation(
                        rule, '%s: %s with a vertex in the %s' % (
                            name, relation, location), where,
                        '%s is %s although %s is %s' % (
                            text(name, t), relation, text(locating, u),
                            location))
            rep.sample('%s -> %s, vertices in %s' % (
                text(name, t)[:200], relation,
                ', '.join(sorted({f[0] for f in found}))), 3)


# ------------------------------------------------ answers including the sweep
def whole_answers_task(rep, name, family, seed, count, rule, judged=True):
    """Small situations and an image of each, the sweep interpreted too."""
    xk, yk = QUERIES[name]
    rng = random.Random('whole %s %d' % (name, seed))
    scenes = []
    for x, y in gen.scenes(family, name, seed, count):
        if (len(oracle.geo_points(xk, x)) + len(oracle.geo_points(yk, y))
                > 18):
            continue
        m = rng.choice(MAPS)[1]
        scenes += [(x, y), (image(xk, x, m), image(yk, y, m))]
    query_task(rep, name, scenes, rule,
               right_answer if judged else lambda name, o, t: (), False)
