"""Situations: families of operand pairs with many coincidences.

Every family is a deterministic function of its seed.  Operands are drawn
from small lattices and from each other's vertices, edge middles and edges,
so that contacts of all kinds are frequent.
"""
from __future__ import annotations

import itertools
import math
import random
from functools import lru_cache

from . import oracle
from .oracle import (apart, area2, compound_in_compound, edges_of, simple,
                     valid_multipolygon, valid_multiregion, valid_polygon)


# ----------------------------------------------------------------- building
def mid(a, b):
    return ((a[0] + b[0]) // 2, (a[1] + b[1]) // 2)


def listed(rng, vs):
    """The same contour, listed from another vertex or backwards."""
    k = rng.randrange(len(vs))
    vs = vs[k:] + vs[:k]
    return vs[::-1] if rng.random() < .5 else vs


def lattice(g, step=2):
    return [(step * i, step * j) for i in range(g + 1) for j in range(g + 1)]


def some_contour(rng, points, sizes=(3, 4, 5)):
    n = rng.choice(sizes)
    for _ in range(200):
        vs = rng.sample(points, min(n, len(points)))
        if n > 4 or rng.random() < .5:
            cx = sum(p[0] for p in vs) / n + .013
            cy = sum(p[1] for p in vs) / n + .007
            vs.sort(key=lambda p: math.atan2(p[1] - cy, p[0] - cx))
            if n > 4 and rng.random() < .6:
                i = rng.randrange(n)
                j = (i + 1) % n
                vs[i], vs[j] = vs[j], vs[i]
        if simple(vs):
            return listed(rng, vs)
    return None


def hot_points(kind, g):
    """Vertices and middles of edges."""
    ps = set(oracle.geo_points(kind, g))
    if kind != 'point':
        for a, b in oracle.geo_edges(kind, g):
            if (a[0] + b[0]) % 2 == 0 and (a[1] + b[1]) % 2 == 0:
                ps.add(mid(a, b))
    return sorted(ps)


@lru_cache(None)
def between(a, b):
    return compound_in_compound(edges_of(a), edges_of(b))


@lru_cache(None)
def separate(a, b):
    return apart(a, b)


def canon(vs):
    vs = tuple(vs)
    k = vs.index(min(vs))
    vs = vs[k:] + vs[:k]
    return vs if area2(vs) > 0 else (vs[0],) + vs[:0:-1]


def fits(border, holes, h):
    return (separate(h, border) and between(h, border) in ('WITHIN',
                                                          'ENCLOSED')
            and all(separate(h, o) and between(h, o) in ('DISJOINT', 'TOUCH')
                    for o in holes)
            and oracle.connected([border] + list(holes) + [h]))


# --------------------------------------------------------------------- pool
def rect(a, b, c, d):
    return ((a, b), (c, b), (c, d), (a, d))


def diamond(x, y, r):
    return ((x, y - r), (x + r, y), (x, y + r), (x - r, y))


@lru_cache(None)
def pool():
    """Contours that nest, touch, share edges and coincide."""
    cs = [rect(0, 0, 24, 24), rect(2, 2, 22, 22), rect(4, 4, 20, 20),
          rect(0, 0, 12, 24), rect(12, 0, 24, 24), rect(0, 0, 24, 12),
          rect(4, 4, 12, 20), rect(12, 4, 20, 20), rect(4, 4, 12, 12),
          rect(12, 12, 20, 20), rect(4, 12, 12, 20), rect(12, 4, 20, 12),
          rect(6, 6, 10, 10), rect(14, 14, 18, 18), rect(6, 14, 10, 18),
          rect(14, 6, 18, 10), rect(6, 6, 18, 18), rect(8, 8, 16, 16),
          rect(7, 7, 9, 9), rect(15, 15, 17, 17), rect(7, 15, 9, 17),
          rect(4, 6, 8, 10), rect(20, 6, 24, 10), rect(22, 22, 26, 26),
          rect(24, 0, 36, 24), rect(24, 24, 36, 36), rect(30, 2, 34, 6),
          rect(-6, -6, 30, 30), rect(10, 6, 14, 10), rect(26, 2, 30, 22)]
    cs += [diamond(12, 12, 8), diamond(12, 12, 4), diamond(12, 12, 12),
           diamond(8, 8, 2), diamond(16, 16, 2), diamond(8, 16, 2),
           diamond(8, 12, 4), diamond(16, 12, 4), diamond(20, 12, 4),
           diamond(28, 12, 4), diamond(12, 8, 4)]
    cs += [((0, 0), (24, 0), (0, 24)), ((4, 4), (20, 4), (4, 20)),
           ((4, 4), (12, 4), (4, 12)), ((20, 20), (12, 20), (20, 12)),
           ((6, 6), (10, 6), (6, 10)), ((8, 6), (10, 10), (6, 10)),
           ((12, 4), (20, 20), (4, 20)), ((24, 12), (36, 6), (36, 18)),
           ((4, 8), (12, 6), (12, 10))]
    # reflex and comb-like ones
    cs += [((0, 0), (24, 0), (24, 24), (12, 12), (0, 24)),
           ((4, 4), (20, 4), (20, 20), (12, 8), (4, 20)),
           ((0, 0), (24, 0), (24, 24), (16, 24), (16, 8), (8, 8), (8, 24),
            (0, 24)),
           ((4, 4), (20, 4), (20, 12), (12, 12), (12, 20), (4, 20)),
           ((6, 6), (18, 6), (18, 18), (12, 10), (6, 18))]
    for c in cs:
        assert simple(c), c
    return tuple(map(canon, cs))


def pool_polygon(rng, holes, border=None, extra=()):
    cs = pool()
    for _ in range(60):
        b = border or rng.choice(cs)
        hs = []
        for _ in range(40):
            if len(hs) >= holes:
                break
            h = (rng.choice(extra) if extra and rng.random() < .6
                 else rng.choice(cs))
            if fits(b, hs, h):
                hs.append(h)
        if len(hs) == holes or border is not None:
            return b, hs
    return b, hs


def pool_regions(rng, n, extra=(), first=None):
    cs = pool()
    rs = [first] if first is not None else []
    for _ in range(60):
        if len(rs) >= n:
            break
        c = (rng.choice(extra) if extra and rng.random() < .6
             else rng.choice(cs))
        if all(separate(c, r) and between(c, r) in ('DISJOINT', 'TOUCH')
               for r in rs):
            rs.append(c)
    return rs


def relist(rng, kind, g):
    if kind in ('contour', 'region'):
        return listed(rng, list(g))
    if kind == 'multiregion':
        return [listed(rng, list(r)) for r in g]
    if kind == 'polygon':
        return (listed(rng, list(g[0])), [listed(rng, list(h))
                                          for h in g[1]])
    if kind == 'multipolygon':
        return [relist(rng, 'polygon', p) for p in g]
    if kind == 'segment':
        return g if rng.random() < .5 else (g[1], g[0])
    if kind == 'multisegment':
        return [relist(rng, 'segment', s) for s in g]
    return g


def contours_in(kind, g):
    if kind in ('contour', 'region'):
        return [canon(g)]
    if kind == 'multiregion':
        return [canon(r) for r in g]
    if kind == 'polygon':
        return [canon(g[0])] + [canon(h) for h in g[1]]
    if kind == 'multipolygon':
        return [c for p in g for c in contours_in('polygon', p)]
    return []


def pool_geo(rng, kind, other=()):
    """A compound geometry from the pool, sharing contours with another."""
    cs = pool()
    pick = lambda: (rng.choice(other) if other and rng.random() < .45
                    else rng.choice(cs))
    if kind in ('contour', 'region'):
        return pick()
    if kind == 'multiregion':
        return pool_regions(rng, rng.choice((1, 2, 2, 3)), other)
    if kind == 'polygon':
        return pool_polygon(rng, rng.choice((0, 1, 1, 2, 2, 3)),
                            pick() if rng.random() < .5 else None, other)
    ps = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        for _ in range(12):
            p = pool_polygon(rng, rng.choice((0, 0, 1, 1, 2)),
                             pick() if rng.random() < .5 else None, other)
            if valid_multipolygon(ps + [p]):
                ps.append(p)
                break
    return ps


# ------------------------------------------------------------------- linear
def some_segment(rng, points, hot=()):
    for _ in range(50):
        a = rng.choice(hot) if hot and rng.random() < .6 else rng.choice(
                points)
        b = rng.choice(hot) if hot and rng.random() < .6 else rng.choice(
                points)
        if a != b:
            return a, b


def two_or_more(rng, ss):
    if len(ss) < 2:
        top = max(p[1] for s in ss for p in s)
        ss = ss + [((0, top + 2), (4, top + 2))]
    return ss


def some_multisegment(rng, points, n, hot=(), edges=()):
    from .world import seg_relation
    ss = []
    for _ in range(60):
        if len(ss) >= n:
            break
        if edges and rng.random() < .4:
            s = rng.choice(edges)
            if rng.random() < .3:
                s = (s[0], mid(*s))
                if s[0] == s[1]:
                    continue
        else:
            s = some_segment(rng, points, hot)
        if all(seg_relation(s, o) in ('DISJOINT', 'TOUCH') for o in ss):
            ss.append(s)
    return ss


def grid_geo(rng, kind, g, hot=(), edges=(), cs=()):
    pts = lattice(g)
    if kind == 'point':
        return rng.choice(hot) if hot and rng.random() < .5 else (
            rng.randint(-1, 2 * g + 1), rng.randint(-1, 2 * g + 1))
    if kind == 'segment':
        return some_segment(rng, pts, hot)
    if kind == 'multisegment':
        return two_or_more(rng, some_multisegment(
                rng, pts, rng.choice((2, 3, 4)), hot, edges))
    mixed = pts + list(hot) * 2
    mixed = sorted(set(mixed)) if rng.random() < .5 else sorted(set(
            hot)) if len(set(hot)) > 5 else pts
    if kind in ('contour', 'region'):
        if cs and rng.random() < .12:
            return list(rng.choice(cs))
        return some_contour(rng, mixed, (3, 3, 4, 4, 5, 6)) or [
            (0, 0), (2, 0), (0, 2)]
    if kind == 'multiregion':
        rs = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            for _ in range(15):
                c = (list(rng.choice(cs)) if cs and rng.random() < .2
                     else some_contour(rng, mixed, (3, 3, 4)))
                if c and valid_multiregion(rs + [c]):
                    rs.append(c)
                    break
        return rs or [[(0, 0), (2, 0), (0, 2)]]
    if kind == 'polygon':
        border = (list(rng.choice(cs)) if cs and rng.random() < .2
                  else some_contour(rng, mixed, (3, 4, 5, 6)))
        border = border or [(0, 0), (2 * g, 0), (0, 2 * g)]
        holes = []
        for _ in range(rng.choice((0, 1, 1, 2, 3))):
            inner = [p for p in (pts + list(hot)) if oracle.locate(
                    edges_of(border), p)]
            if len(inner) < 3:
                break
            for _ in range(10):
                h = some_contour(rng, inner, (3, 3, 4))
                if h and valid_polygon((border, holes + [h])):
                    holes.append(h)
                    break
        return border, holes
    ps = []
    for _ in range(rng.choice((1, 2, 2))):
        for _ in range(10):
            p = grid_geo(rng, 'polygon', g, hot, edges, cs)
            if valid_multipolygon(ps + [p]):
                ps.append(p)
                break
    return ps or [grid_geo(rng, 'polygon', g)]


# ----------------------------------------------------------------- families
def grid_scenes(xk, yk, seed, count, g=3):
    """Small lattices; the operands share vertices, middles and edges."""
    rng = random.Random('%s %s grid %d' % (xk, yk, seed))
    out = []
    for _ in range(count):
        y = grid_geo(rng, yk, g)
        hot = hot_points(yk, y)
        edges = list(oracle.geo_edges(yk, y))
        x = grid_geo(rng, xk, g, hot, edges, contours_in(yk, y))
        if xk == 'multisegment' and len(edges) <= 8 and rng.random() < .15:
            # the whole boundary, a part of it, or it and more
            k = rng.randint(max(1, len(edges) - 2), len(edges))
            x = two_or_more(rng, some_multisegment(rng, lattice(g), k, hot,
                                                   edges))
            if rng.random() < .4:
                x = list(edges)
        out.append((relist(rng, xk, x), relist(rng, yk, y)))
    return out


def pool_scenes(xk, yk, seed, count):
    """Nested, touching and coinciding contours."""
    rng = random.Random('%s %s pool %d' % (xk, yk, seed))
    out = []
    for _ in range(count):
        y = pool_geo(rng, yk)
        cs = contours_in(yk, y)
        if xk in ('point', 'segment', 'multisegment'):
            hot = hot_points(yk, y)
            pts = sorted({p for c in rng.sample(pool(), 6) for p in c}
                         | set(hot))
            pts += [mid(a, b) for a, b in zip(pts, pts[5:])]
            edges = list(oracle.geo_edges(yk, y))
            x = (rng.choice(pts) if xk == 'point' else
                 some_segment(rng, pts, hot) if xk == 'segment' else
                 two_or_more(rng, some_multisegment(
                     rng, pts, rng.choice((2, 2, 3)), hot, edges)))
        else:
            x = pool_geo(rng, xk, cs)
        out.append((relist(rng, xk, x), relist(rng, yk, y)))
    return out


def shifted(kind, g, dx, dy):
    mv = lambda p: (p[0] + dx, p[1] + dy)
    if kind == 'point':
        return mv(g)
    if kind == 'segment':
        return mv(g[0]), mv(g[1])
    if kind == 'multisegment':
        return [shifted('segment', s, dx, dy) for s in g]
    if kind in ('contour', 'region'):
        return [mv(p) for p in g]
    if kind == 'multiregion':
        return [shifted('region', r, dx, dy) for r in g]
    if kind == 'polygon':
        return (shifted('region', g[0], dx, dy),
                shifted('multiregion', g[1], dx, dy))
    return [shifted('polygon', p, dx, dy) for p in g]


def extent(kind, g):
    ps = oracle.geo_points(kind, g)
    xs, ys = [p[0] for p in ps], [p[1] for p in ps]
    return min(xs), min(ys), max(xs), max(ys)


def box_scenes(xk, yk, seed, count):
    """Operands whose boxes touch in an edge or corner, nest or are apart;
    further parts far away."""
    rng = random.Random('%s %s box %d' % (xk, yk, seed))
    out = []
    base = {'segment': lambda: rng.choice([((0, 0), (4, 4)), ((0, 4), (4, 0)),
                                           ((0, 0), (4, 0)), ((0, 0), (0, 4)),
                                           ((0, 2), (4, 0))])}

    def contour():
        return rng.choice([rect(0, 0, 4, 4), ((0, 0), (4, 0), (0, 4)),
                           diamond(2, 2, 2), ((4, 0), (4, 4), (0, 4)),
                           ((0, 0), (4, 2), (0, 4)),
                           ((4, 0), (4, 4), (0, 2)),
                           ((0, 0), (4, 0), (2, 4)), ((0, 4), (2, 0), (4, 4)),
                           rect(1, 1, 3, 3)])

    def part(kind):
        if kind == 'segment':
            return base['segment']()
        if kind == 'multisegment':
            s = base['segment']()
            return rng.choice([[((0, 0), (4, 0)), ((0, 4), (4, 4))],
                               [((0, 0), (0, 4)), ((4, 0), (4, 4))],
                               [((0, 2), (2, 2)), ((2, 0), (2, 4))]])
        if kind in ('contour', 'region'):
            return contour()
        if kind == 'multiregion':
            return [contour()]
        c = contour()
        if kind == 'polygon':
            b = rng.choice([c, rect(0, 0, 4, 4)])
            return (b, [h for h in [rng.choice(
                [rect(1, 1, 3, 3), diamond(2, 2, 1), diamond(2, 2, 2)])]
                if rng.random() < .5 and fits(canon(b), [], canon(h))])
        return [part('polygon')]

    def far(kind, g, i):
        dx, dy = rng.choice([(40, 0), (0, 40), (40, 40), (-40, 0), (0, -40),
                             (-40, -40), (8, 0), (0, 8), (-8, 0), (40, -40)])
        return shifted(kind, g, dx * (i + 1), dy * (i + 1))

    offsets = [0, 0, 4, -4, 4, -4, 2, -2, 5, -5, 1, 3]
    for _ in range(count):
        x, y = part(xk), part(yk)
        scale = rng.choice((1, 1, 1, 2))
        if scale == 2 and xk not in ('multipolygon',):
            x = scaled(xk, x, 2)
        dx, dy = rng.choice(offsets), rng.choice(offsets)
        x = shifted(xk, x, dx, dy)
        if xk in ('multiregion', 'multisegment', 'multipolygon'):
            for i in range(rng.choice((0, 0, 1))):
                q = far(xk, part(xk), i)
                if ok(xk, x + q):
                    x = x + q
                    rng.shuffle(x)
        if yk in ('multiregion', 'multisegment', 'multipolygon'):
            for i in range(rng.choice((0, 1, 1, 2))):
                q = (far(yk, part(yk), i) if rng.random() < .7 else
                     shifted(yk, part(yk), rng.choice((-4, 4, 0)),
                             rng.choice((-4, 4))))
                if ok(yk, y + q):
                    y = y + q
                    rng.shuffle(y)
        if rng.random() < .12 and xk == yk:
            x = y
        if rng.random() < .15 and yk in ('multiregion', 'multipolygon'):
            # one part of the other operand itself
            p = rng.choice(y)
            if xk in ('region', 'contour'):
                x = p if yk == 'multiregion' else p[0]
            elif xk == 'polygon':
                x = p if yk == 'multipolygon' else (p, [])
            elif xk == yk:
                x = [p]
        out.append((relist(rng, xk, x), relist(rng, yk, y)))
    return out


def scaled(kind, g, k):
    if kind == 'segment':
        return tuple((p[0] * k, p[1] * k) for p in g)
    if kind == 'multisegment':
        return [scaled('segment', s, k) for s in g]
    if kind in ('contour', 'region'):
        return [(p[0] * k, p[1] * k) for p in g]
    if kind == 'multiregion':
        return [scaled('region', r, k) for r in g]
    return (scaled('region', g[0], k), scaled('multiregion', g[1], k))


def ok(kind, g):
    if kind == 'multisegment':
        from .world import seg_relation
        return all(seg_relation(a, b) in ('DISJOINT', 'TOUCH')
                   for a, b in itertools.combinations(g, 2))
    if kind == 'multiregion':
        return valid_multiregion(g)
    return valid_multipolygon(g)


def chain_scenes(xk, yk, seed, count):
    """Collinear pieces one after the other, in any order and direction."""
    rng = random.Random('%s %s chain %d' % (xk, yk, seed))
    out = []
    for _ in range(count):
        d = rng.choice([(2, 0), (0, 2), (2, 2), (2, -2), (4, 2), (-2, 4)])
        at = lambda k: (d[0] * k, d[1] * k)
        side = lambda k, s: (d[0] * k - d[1] * s, d[1] * k + d[0] * s)
        cuts = sorted(rng.sample(range(7), rng.choice((2, 3, 4, 5))))
        ss = [(at(a), at(b)) for a, b in zip(cuts, cuts[1:])
              if rng.random() < .8]
        for _ in range(rng.choice((0, 0, 1, 2))):
            k, s = rng.randrange(7), rng.choice((1, -1))
            u = rng.choice([(at(k), side(rng.randrange(7), s)),
                            (side(k, s), side(rng.randrange(7), 2 * s)),
                            (side(k, 1), side(k, -1))])
            if u[0] != u[1] and ok('multisegment', ss + [u]):
                ss.append(u)
        if len(ss) < 2:
            ss = two_or_more(rng, ss or [(at(0), at(1))])
        rng.shuffle(ss)
        a, b = sorted(rng.sample(range(7), 2))
        if rng.random() < .4:
            a, b = cuts[0], cuts[-1]
        x = (at(a), at(b))
        if xk == 'multisegment':
            cuts = sorted(rng.sample(range(7), rng.choice((3, 4))))
            x = [(at(p), at(q)) for p, q in zip(cuts, cuts[1:])]
        if yk == 'contour':
            break
        if not ok('multisegment', ss):
            continue
        out.append((relist(rng, xk, x), relist(rng, yk, ss)))
    return out


def star_scenes(xk, yk, seed, count):
    """Everything passes through or ends in one point."""
    rng = random.Random('%s %s star %d' % (xk, yk, seed))
    ring = [(4, 0), (4, 2), (4, 4), (2, 4), (0, 4), (-2, 4), (-4, 4), (-4, 2),
            (-4, 0), (-4, -2), (-4, -4), (-2, -4), (0, -4), (2, -4), (4, -4),
            (4, -2)]
    o = (0, 0)
    out = []

    def wedges(kind):
        """Contours that meet in one point, a vertex or inside an edge."""
        cs = []
        for _ in range(rng.choice((3, 4, 5))):
            p, q = rng.sample(ring, 2)
            c = [o, p, q]
            if rng.random() < .4:
                c = [p, (-p[0], -p[1]), q]
            if len(set(c)) > 2 and simple(c) and valid_multiregion(cs + [c]):
                cs.append(c)
        if kind == 'multiregion':
            return cs[:3] if len(cs) > 1 else None
        outer = rect(-8, -8, 8, 8)
        hs = []
        for c in cs[1:3]:
            if fits(canon(outer), [canon(h) for h in hs], canon(c)):
                hs.append(c)
        if kind == 'polygon':
            return (cs[0], []) if rng.random() < .3 else (outer, hs)
        ps = [(c, []) for c in cs[:3]]
        return ps if ok('multipolygon', ps) and len(ps) > 1 else None

    while len(out) < count:
        def operand(kind):
            if kind == 'segment':
                p = rng.choice(ring)
                return rng.choice([(p, (-p[0], -p[1])), (p, o),
                                   (p, (-p[0] // 2, -p[1] // 2))])
            if kind == 'multisegment':
                ps = rng.sample(ring, rng.choice((2, 3, 4)))
                ss = [(o, p) for p in ps]
                if rng.random() < .3:
                    p = rng.choice(ring)
                    ss = [s for s in ss if oracle.cross(o, p, s[1])]
                    ss.append((p, (-p[0], -p[1])))
                return two_or_more(rng, ss)
            if kind not in ('contour', 'region'):
                return wedges(kind)
            pts = rng.sample(ring, rng.choice((2, 3, 4)))
            vs = [o] + pts
            if rng.random() < .6:
                k = rng.randrange(len(pts))
                pts.sort(key=lambda p: math.atan2(p[1], p[0]))
                vs = [o] + pts[k:] + pts[:k]
            return vs if simple(vs) else None
        x, y = operand(xk), operand(yk)
        if x is None or y is None:
            continue
        out.append((relist(rng, xk, x), relist(rng, yk, y)))
    return out


def point_scenes(xk, yk, seed, count):
    """All points about a few geometries."""
    rng = random.Random('%s %s points %d' % (xk, yk, seed))
    out = []
    while len(out) < count:
        y = (pool_geo(rng, yk) if yk not in oracle.LINEAR
             and rng.random() < .4 else grid_geo(rng, yk, 3))
        y = relist(rng, yk, y)
        a, b, c, d = extent(yk, y)
        pts = [(i, j) for i in range(a - 1, c + 2)
               for j in range(b - 1, d + 2)]
        hot = hot_points(yk, y)
        if len(pts) > 110:
            pts = rng.sample(pts, 90) + hot
        out += [(p, y) for p in pts]
    return out


def same_scenes(xk, yk, seed, count):
    """Contours with the same vertices, in the same or another cyclic order,
    or differing in one vertex."""
    rng = random.Random('%s %s same %d' % (xk, yk, seed))
    pts = lattice(3)

    def wrap(kind, c, extra):
        if kind in ('contour', 'region'):
            return c
        if kind == 'multisegment':
            return list(edges_of(c)) + [e for f in extra for e in edges_of(f)]
        if kind == 'multiregion':
            return [c] + extra
        if kind == 'polygon':
            return c, []
        return [(c, [])] + [(e, []) for e in extra]
    out = []
    while len(out) < count:
        c = some_contour(rng, pts, (3, 4, 5, 6))
        if c is None:
            continue
        d = list(c)
        way = rng.random()
        if way < .3:
            pass
        elif way < .55:
            for _ in range(20):
                d = list(c)
                rng.shuffle(d)
                if simple(d):
                    break
        elif way < .8:
            d[rng.randrange(len(d))] = rng.choice(pts)
        elif way < .9:
            d.insert(rng.randrange(len(d)), rng.choice(pts))
        else:
            del d[rng.randrange(len(d))]
        if len(d) < 3 or len(set(d)) < len(d) or not simple(d):
            continue
        far = [[(20, 0), (24, 0), (20, 4)]] if rng.random() < .5 else []
        x, y = wrap(xk, c, far), wrap(yk, d, far)
        if 'polygon' in xk and 'polygon' in yk and rng.random() < .5:
            # coinciding or similar holes
            b = [(-2, -2), (10, -2), (10, 10), (-2, 10)]
            x, y = (b, [c]), (list(b), [d])
            x, y = ([g] if 'multi' in kind else g
                    for g, kind in ((x, xk), (y, yk)))
        out.append((relist(rng, xk, x), relist(rng, yk, y)))
    return out


# ---------------------------------------------------------------- catalogue
def pieces_scenes(xk, yk, seed, count):
    """Collinear pieces of a line in every order, with and without gaps,
    and edges through or at the points of the line; the segment spans or
    ends at any two of the points."""
    rng = random.Random('%s %s pieces %d' % (xk, yk, seed))
    out = []
    orders = [q for k in (2, 3, 4, 5) for q in itertools.permutations(
        range(5), k)]
    rng.shuffle(orders)
    for q in itertools.cycle(orders):
        if len(out) >= count:
            break
        d = rng.choice([(2, 0), (0, 2), (2, 2), (2, -2), (4, 2), (-2, 4)])
        at = lambda k: (d[0] * k, d[1] * k)
        side = lambda k, s: (d[0] * k - d[1] * s, d[1] * k + d[0] * s)
        ss = [(at(k), at(k + 1)) for k in q]
        for _ in range(rng.choice((0, 0, 0, 1, 2))):
            k, s = rng.randrange(6), rng.choice((1, -1))
            u = rng.choice([(at(k), side(rng.randrange(6), s)),
                            (side(k, s), side(rng.randrange(6), 2 * s)),
                            (side(k, 1), side(k, -1))])
            if u[0] != u[1] and ok('multisegment', ss + [u]):
                ss.insert(rng.randrange(len(ss) + 1), u)
        a, b = sorted(rng.sample(range(6), 2))
        if rng.random() < .6:
            a, b = min(q), max(q) + 1
        x = (at(a), at(b))
        if xk == 'multisegment':
            cuts = sorted(set(rng.sample(range(6), rng.choice((3, 4, 5)))
                              + [a, b]))
            x = [(at(i), at(j)) for i, j in zip(cuts, cuts[1:])
                 if rng.random() < .85]
            x = two_or_more(rng, x or [(at(a), at(b))])
            rng.shuffle(x)
        out.append((relist(rng, xk, x), relist(rng, yk, ss)))
    return out


def small(x, y, rng):
    return rng.choice([rect(x, y, x + 2, y + 2),
                       ((x, y), (x + 2, y), (x, y + 2)),
                       ((x, y), (x + 2, y + 1), (x, y + 2)),
                       diamond(x + 1, y + 1, 1)])


def comb(rng, x, y, teeth, flip=False):
    """A contour with many vertices."""
    vs = [(x, y), (x + 4 * teeth, y)]
    for k in range(teeth, 0, -1):
        h = rng.choice((6, 8, 8, 10))
        vs += [(x + 4 * k, y + h) if k == teeth else
               (x + 4 * k - 1, y + h), (x + 4 * k - 2, y + 2)]
    vs.append((x, y + 8))
    if flip:
        vs = [(b, a) for a, b in vs]
    return vs


def many_scenes(xk, yk, seed, count):
    """Many holes, many parts, many vertices."""
    rng = random.Random('%s %s many %d' % (xk, yk, seed))
    out = []

    def cells(n, dx=0, dy=0):
        at = [(4 * i + 2, 4 * j + 2) for i in range(4) for j in range(4)
              if i + j < 4]
        return [(a + dx, b + dy) for a, b in rng.sample(at, n)]

    def build(kind, other):
        shared = contours_in(*other) if other else []
        if kind == 'point':
            pts = hot_points(*other)
            return rng.choice(pts + [(rng.randrange(24), rng.randrange(24))
                                     for _ in range(len(pts))])
        if kind == 'segment':
            pts = hot_points(*other) if other else lattice(6, 4)
            return some_segment(rng, lattice(6, 4), pts)
        if kind == 'multisegment':
            edges = list(oracle.geo_edges(*other)) if other else ()
            hot = hot_points(*other) if other else ()
            if rng.random() < .5:
                edges = ()
            elif rng.random() < .4 and 1 < len(edges) < 12:
                return rng.sample(edges, rng.randint(2, len(edges)))
            return two_or_more(rng, some_multisegment(
                rng, lattice(6, 4), rng.choice((5, 6, 7)), hot, edges))
        if kind in ('contour', 'region'):
            if shared and rng.random() < .35:
                return list(rng.choice(shared))
            c = rng.random()
            if c < .5:
                r = comb(rng, rng.choice((0, 0, 4, -4)),
                         rng.choice((0, 0, 2, -8)), rng.choice((3, 4, 5)),
                         rng.random() < .3)
                if simple(r):
                    return r
            n = rng.choice((9, 11, 14))
            r = [(16 + int(14 * math.cos(6.28318 * k / n)),
                  10 + int((13 if k % 2 else 9)
                           * math.sin(6.28318 * k / n)))
                 for k in range(n)]
            return r if simple(r) else comb(rng, 0, 0, 3)
        if kind == 'multiregion':
            if shared and rng.random() < .5:
                rs = [list(c) for c in shared]
                if valid_multiregion(rs):
                    if rng.random() < .5:
                        del rs[rng.randrange(len(rs))]
                    rng.shuffle(rs)
                    if rs:
                        return rs
            rs = [small(a, b, rng) for a, b in cells(rng.choice((4, 5, 6)))]
            if rng.random() < .3 and shared:
                c = rng.choice(shared)
                if valid_multiregion(rs + [c]):
                    rs.append(c)
            return rs
        if kind == 'polygon':
            border = rng.choice([((-4, -4), (32, -4), (-4, 32)),
                                 rect(0, 0, 20, 20),
                                 ((-1, -1), (40, -1), (18, 18), (-1, 40)),
                                 ((-30, -2), (40, -2), (3, 40))])
            if rng.random() < .25 and shared:
                border = rng.choice(shared)
            hs = []
            for a, b in cells(rng.choice((4, 5, 6, 7))):
                h = small(a, b, rng)
                if shared and rng.random() < .4:
                    h = rng.choice(shared)
                if fits(canon(border), [canon(o) for o in hs], canon(h)):
                    hs.append(h)
            return list(border), hs
        ps = []
        if shared and rng.random() < .25:
            ps = [(list(c), []) for c in shared]
            if not ok('multipolygon', ps):
                ps = []
        for a, b in cells(rng.choice((4, 5, 6))):
            p = (small(a, b, rng), [])
            if rng.random() < .3:
                a, b = 2 * a + 1, 2 * b + 1
                p = (rect(a - 1, b - 1, a + 5, b + 5),
                     [small(a, b, rng), small(a + 2, b + 2, rng)][
                         :rng.choice((1, 1, 2))])
                if not valid_polygon(p):
                    continue
            if ok('multipolygon', ps + [p]):
                ps.append(p)
        return ps
    for _ in range(count):
        y = build(yk, None)
        x = build(xk, (yk, y))
        out.append((relist(rng, xk, x), relist(rng, yk, y)))
    return out


def representatives(rng, items, signature, each=2):
    """At most so many items of each signature, in random order."""
    items = list(items)
    rng.shuffle(items)
    found = {}
    for c in items:
        k = signature(c)
        if k is None:
            continue
        r = found.setdefault(k, [])
        if len(r) < each:
            r.append(c)
    out = [c for r in found.values() for c in r]
    rng.shuffle(out)
    return out


FIXED = [((rect(0, 0, 24, 24)), [rect(4, 4, 20, 20)]),
         ((rect(0, 0, 24, 24)), [rect(6, 6, 10, 10), rect(14, 14, 18, 18)]),
         ((rect(0, 0, 24, 24)), [diamond(12, 8, 8)]),
         ((rect(4, 4, 20, 20)), [diamond(8, 12, 4), rect(14, 6, 18, 10)]),
         ((rect(0, 0, 24, 24)), []),
         ((rect(0, 0, 24, 24)), [rect(4, 4, 12, 12), rect(12, 12, 20, 20)]),
         ((rect(2, 2, 22, 22)), [((4, 8), (12, 6), (12, 10)),
                                 diamond(16, 16, 2), rect(6, 14, 10, 18)]),
         (diamond(12, 12, 12), [diamond(12, 12, 4), diamond(12, 12, 8)][:1])]


def catalogue_scenes(xk, yk, seed, count):
    """One or two contours (segments) for every combination of relations to
    the contours of the other operand, and combinations of these."""
    rng = random.Random('%s %s catalogue %d' % (xk, yk, seed))
    out = []
    while len(out) < count:
        y = None
        if yk == 'polygon':
            y = (rng.choice(FIXED) if rng.random() < .5 else
                 pool_polygon(rng, rng.choice((1, 1, 2, 2, 3))))
            y = canon(y[0]), [canon(h) for h in y[1]]
        elif yk == 'multipolygon':
            ps = []
            for p in rng.sample(FIXED, 4) + [pool_polygon(rng, 1)]:
                p = canon(p[0]), [canon(h) for h in p[1]]
                dx, dy = rng.choice(((0, 0), (0, 0), (24, 0), (0, 24),
                                     (24, 24), (20, 20)))
                p = shifted('polygon', p, dx, dy)
                p = canon(p[0]), [canon(h) for h in p[1]]
                if len(ps) < 2 and ok('multipolygon', ps + [p]):
                    ps.append(p)
            y = ps
        else:
            y = pool_geo(rng, yk)
        cs = contours_in(yk, y)
        out += combined(rng, xk, yk, y, cs, max(8, count // 12))
    return out[:count]


def combined(rng, xk, yk, y, cs, n):
    """Operands made of representatives."""
    out = []
    give = lambda x: out.append((relist(rng, xk, x), relist(rng, yk, y)))
    if xk in ('segment', 'multisegment'):
        hot = hot_points(yk, y)
        pts = sorted(set(hot) | {(a, b) for a in range(0, 25, 4)
                                 for b in range(0, 25, 4)})
        es = [edges_of(c) for c in cs]
        segs = [some_segment(rng, pts, hot) for _ in range(150)]
        segs += [(mid(a, b), b) for e in es for a, b in e]
        segs += [e for c in es for e in c]
        reps = representatives(
            rng, [s for s in segs if s and s[0] != s[1]],
            lambda s: tuple(oracle.linear_in_compound((s,), e) for e in es),
            3 if xk == 'segment' else 2)
        if xk != 'segment' and rng.random() < .7:
            # those that decide at once left out
            reps = [s for s in reps if 'CROSS' not in [
                oracle.linear_in_compound((s,), e) for e in es]]
        if xk == 'segment':
            for s in reps[:n]:
                give(s)
            return out
        for k in range(n):
            ss, most = [], 2 if k % 3 else 3
            if k % 4 == 1:
                # whole boundaries and something more
                ss = [e for c in es if k % 8 == 1 or rng.random() < .6
                      for e in c]
                if not ok('multisegment', ss):
                    ss = list(rng.choice(es))
                most += len(ss)
            for s in rng.sample(reps if len(ss) < 3 else segs,
                                min(6 if len(ss) < 3 else 40, len(reps))):
                if len(ss) < most and s and s[0] != s[1] and ok(
                        'multisegment', ss + [s]):
                    ss.append(s)
            rng.shuffle(ss)
            if len(ss) > 1:
                give(ss)
        return out
    sign = lambda c: tuple(between(c, d) for d in cs)
    items = set(pool()) | set(cs)
    for c in cs:
        a, b, e, d = extent('region', c)
        for f in (canon(shifted('region', c, e - a, 0)),
                  canon(shifted('region', c, 0, d - b)),
                  canon(shifted('region', c, e - a, d - b))):
            items.add(tuple(f))
    reps = representatives(rng, sorted(items), sign,
                           3 if xk in ('contour', 'region') else 2)
    if xk in ('contour', 'region'):
        for c in reps[:n]:
            give(c)
        return out
    if rng.random() < .7:
        # those that decide at once left out
        reps = [c for c in reps if 'OVERLAP' not in sign(c)]

    def holes_for(b, k):
        hs = []
        inner = [h for h in reps if h != b and separate(h, b)
                 and between(h, b) in ('WITHIN', 'ENCLOSED')]
        rng.shuffle(inner)
        for h in inner:
            if len(hs) < k and fits(b, hs, h):
                hs.append(h)
        return hs
    if xk == 'multiregion':
        pairs = [(a, b) for a, b in itertools.combinations(reps, 2)
                 if separate(a, b) and between(a, b) in ('DISJOINT',
                                                         'TOUCH')]
        pairs = representatives(
            rng, pairs, lambda p: tuple(sorted((sign(p[0]), sign(p[1])))), 1)
        for a, b in pairs[:n]:
            rs = [a, b]
            if rng.random() < .3:
                for c in rng.sample(reps, min(8, len(reps))):
                    if len(rs) < 3 and valid_multiregion(rs + [c]):
                        rs.append(c)
            rng.shuffle(rs)
            give(rs)
        return out
    if xk == 'polygon':
        for k in range(n):
            b = reps[k % len(reps)]
            give((b, holes_for(b, rng.choice((0, 1, 1, 2, 2, 3)))))
        return out
    for k in range(n):
        ps = []
        for b in rng.sample(reps, min(10, len(reps))):
            p = (b, holes_for(b, rng.choice((0, 0, 1, 2))))
            if len(ps) < 2 + k % 2 and ok('multipolygon', ps + [p]):
                ps.append(p)
        give(ps)
    return out


COMPOUND = 'region', 'multiregion', 'polygon', 'multipolygon'
FAMILIES = {'same': same_scenes, 'chain': chain_scenes, 'star': star_scenes,
            'points': point_scenes, 'pieces': pieces_scenes,
            'many': many_scenes, 'catalogue': catalogue_scenes,
            'grid': grid_scenes, 'pool': pool_scenes, 'box': box_scenes}


def scenes(family, name, seed, count):
    from .queries import QUERIES
    xk, yk = QUERIES[name]
    if family == 'box' and xk == 'point':
        family = 'grid'
    if family in ('pool', 'catalogue') and yk in oracle.LINEAR:
        family = 'grid'
    if family == 'catalogue' and xk == 'point':
        family = 'points'
    if family == 'catalogue' and xk in COMPOUND and yk in COMPOUND:
        # relative to either operand
        back = [(x, y) for y, x in catalogue_scenes(yk, xk, seed, count // 2)]
        out = catalogue_scenes(xk, yk, seed, count - len(back))
        return [s for p in itertools.zip_longest(out, back)
                for s in p if s is not None]
    return FAMILIES[family](xk, yk, seed, count)
