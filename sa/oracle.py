"""Meaning of the relations for concrete point sets given by edges.

Independent of the analysed code: everything is computed from the definition
(positions of boundary pieces), with exact rational numbers.
"""
from __future__ import annotations

from fractions import Fraction
from functools import lru_cache

EPS = Fraction(1, 10 ** 7)


def cross(a, b, p):
    return (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])


def on_segment(a, b, p):
    return (min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
            and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
            and cross(a, b, p) == 0)


def meetings(a, b, c, d):
    """Points that contacts with segment ``cd`` put on segment ``ab``."""
    if (max(a[0], b[0]) < min(c[0], d[0]) or max(c[0], d[0]) < min(a[0], b[0])
            or max(a[1], b[1]) < min(c[1], d[1])
            or max(c[1], d[1]) < min(a[1], b[1])):
        return []
    d1, d2 = cross(a, b, c), cross(a, b, d)
    if d1 > 0 < d2 or d1 < 0 > d2:
        return []
    out = []
    if d1 == 0 and on_segment(a, b, c):
        out.append(c)
    if d2 == 0 and on_segment(a, b, d):
        out.append(d)
    d3, d4 = cross(c, d, a), cross(c, d, b)
    if d3 == 0 and on_segment(c, d, a):
        out.append(a)
    if d4 == 0 and on_segment(c, d, b):
        out.append(b)
    if not out and d1 * d2 < 0 and d3 * d4 < 0:
        k = Fraction(d1, d1 - d2)
        out.append((c[0] + (d[0] - c[0]) * k, c[1] + (d[1] - c[1]) * k))
    return out


def edges_of(vertices):
    return tuple((vertices[i - 1], vertices[i])
                 for i in range(len(vertices)))


def norm(edges):
    return tuple(sorted(tuple(sorted(e)) for e in edges))


@lru_cache(None)
def pieces(edges, others):
    """Pieces of ``edges`` after cutting at contacts with ``others``."""
    result = []
    for a, b in edges:
        ps = {a, b}
        for c, d in others:
            ps.update(meetings(a, b, c, d))
        ps = sorted(ps)
        result.extend(zip(ps, ps[1:]))
    return tuple(result)


def locate(edges, p):
    """Even-odd position: 0 outside, 1 on an edge, 2 inside."""
    inside = False
    x, y = p
    for a, b in edges:
        if on_segment(a, b, p):
            return 1
        if (a[1] > y) != (b[1] > y):
            c = cross(a, b, p)
            if (c > 0) == (b[1] > a[1]):
                inside = not inside
    return 2 if inside else 0


def on_edges(edges, p):
    return any(on_segment(a, b, p) for a, b in edges)


def middle(p, q):
    return (Fraction(p[0] + q[0]) / 2, Fraction(p[1] + q[1]) / 2)


def left_of(p, q):
    m = middle(p, q)
    dx, dy = q[0] - p[0], q[1] - p[1]
    return (m[0] - dy * EPS, m[1] + dx * EPS)


@lru_cache(None)
def linear_in_linear(test, goal):
    test, goal = norm(test), norm(goal)
    tp = set(pieces(test, goal + test))
    gp = set(pieces(goal, test + goal))
    common = tp & gp
    if common:
        if common == tp and common == gp:
            return 'EQUAL'
        if common == tp:
            return 'COMPONENT'
        if common == gp:
            return 'COMPOSITE'
        return 'OVERLAP'
    vertices = ({p for s in tp for p in s} & {p for s in gp for p in s})
    if not vertices:
        return 'DISJOINT'
    for v in vertices:
        if _interleaved(v, tp, gp):
            return 'CROSS'
    return 'TOUCH'


def _rays(v, ps):
    return [(q[0] - v[0], q[1] - v[1]) for p in ps for q in p
            if v in p and q != v]


def _interleaved(v, tp, gp):
    from .scenes import interleave
    a, b = _rays(v, tp), _rays(v, gp)
    return len(a) > 1 and len(b) > 1 and interleave(a, b)


@lru_cache(None)
def linear_in_compound(test, goal):
    test = norm(test)
    inside = outside = contact = False
    for p, q in pieces(test, goal):
        at = locate(goal, middle(p, q))
        if at == 0:
            outside = True
        elif at == 2:
            inside = True
        else:
            contact = True
        if not contact and (on_edges(goal, p) or on_edges(goal, q)):
            contact = True
    if inside and outside:
        return 'CROSS'
    if outside:
        return 'TOUCH' if contact else 'DISJOINT'
    if inside:
        return 'ENCLOSED' if contact else 'WITHIN'
    return 'COMPONENT'


def _positions(edges, others):
    """Whether there are pieces inside, outside, with the interior on the
    same and on the opposite side as the other's, and contacts."""
    inside = outside = same = opposite = contact = False
    for p, q in pieces(edges, others + edges):
        at = locate(others, middle(p, q))
        if at == 0:
            outside = True
        elif at == 2:
            inside = True
        else:
            contact = True
            n = left_of(p, q)
            if (locate(edges, n) == 2) == (locate(others, n) == 2):
                same = True
            else:
                opposite = True
        if not contact and (on_edges(others, p) or on_edges(others, q)):
            contact = True
    return inside, outside, same, opposite, contact


@lru_cache(None)
def compound_in_compound(test, goal):
    test, goal = norm(test), norm(goal)
    ti, to, s, d, contact = _positions(test, goal)
    gi, go, _, _, other = _positions(goal, test)
    contact = contact or other
    t = not to and not d and not gi
    g = not go and not d and not ti
    if t and g:
        return 'EQUAL'
    if t:
        return ('WITHIN' if not contact else
                'ENCLOSED' if ti else 'COMPONENT')
    if g:
        return ('COVER' if not contact else
                'ENCLOSES' if gi else 'COMPOSITE')
    if s or ti or gi:
        return 'OVERLAP'
    return 'TOUCH' if contact else 'DISJOINT'


COMPLEMENT = {'COVER': 'WITHIN', 'WITHIN': 'COVER', 'ENCLOSES': 'ENCLOSED',
              'ENCLOSED': 'ENCLOSES', 'COMPOSITE': 'COMPONENT',
              'COMPONENT': 'COMPOSITE'}


def complement(name):
    return COMPLEMENT.get(name, name)


# ---------------------------------------------------------------- geometries
LINEAR = ('segment', 'multisegment', 'contour')


def geo_edges(kind, g):
    if kind == 'segment':
        return (tuple(g),)
    if kind == 'multisegment':
        return tuple(map(tuple, g))
    if kind in ('contour', 'region'):
        return edges_of(g)
    if kind == 'multiregion':
        return tuple(e for r in g for e in edges_of(r))
    if kind == 'polygon':
        return edges_of(g[0]) + geo_edges('multiregion', g[1])
    return tuple(e for p in g for e in geo_edges('polygon', p))


def geo_points(kind, g):
    if kind == 'point':
        return [g]
    if kind == 'segment':
        return list(g)
    if kind in ('contour', 'region'):
        return list(g)
    if kind == 'multisegment':
        return [p for s in g for p in s]
    if kind == 'multiregion':
        return [p for r in g for p in r]
    if kind == 'polygon':
        return list(g[0]) + geo_points('multiregion', g[1])
    return [p for q in g for p in geo_points('polygon', q)]


def answer(x_kind, x, y_kind, y):
    """What ``x_in_y`` has to answer."""
    ye = geo_edges(y_kind, y)
    if x_kind == 'point':
        if y_kind in LINEAR:
            return 'BOUNDARY' if on_edges(ye, x) else 'EXTERIOR'
        return ('EXTERIOR', 'BOUNDARY', 'INTERIOR')[locate(ye, x)]
    xe = geo_edges(x_kind, x)
    if x_kind in LINEAR:
        if y_kind in LINEAR:
            return linear_in_linear(xe, ye)
        return linear_in_compound(xe, ye)
    return compound_in_compound(xe, ye)


# ------------------------------------------------------------------ validity
def area2(vs):
    return sum(vs[i - 1][0] * vs[i][1] - vs[i - 1][1] * vs[i][0]
               for i in range(len(vs)))


def simple(vs):
    n = len(vs)
    if n < 3 or len(set(vs)) != n:
        return False
    for i in range(n):
        if cross(vs[i - 1], vs[i], vs[(i + 1) % n]) == 0:
            return False
    es = edges_of(vs)
    for i in range(n):
        for j in range(i + 1, n):
            ps = set(meetings(*es[i], *es[j]))
            if j == i + 1 or (i == 0 and j == n - 1):
                if len(ps) != 1:
                    return False
            elif ps:
                return False
    return True


def apart(a, b):
    """Contours with finitely many common points and no crossing edges."""
    for e in edges_of(a):
        for f in edges_of(b):
            if len(set(meetings(*e, *f))) > 1:
                return False
            if (cross(*e, f[0]) * cross(*e, f[1]) < 0
                    and cross(*f, e[0]) * cross(*f, e[1]) < 0):
                return False
    return True


def valid_multiregion(rs):
    for i, a in enumerate(rs):
        for b in rs[:i]:
            if not apart(a, b) or compound_in_compound(
                    edges_of(a), edges_of(b)) not in ('DISJOINT', 'TOUCH'):
                return False
    return True


def valid_polygon(g):
    border, holes = g
    if not valid_multiregion(holes):
        return False
    for h in holes:
        if not apart(h, border) or compound_in_compound(
                edges_of(h), edges_of(border)) not in ('WITHIN',
                                                       'ENCLOSED'):
            return False
    return connected([border] + list(holes))


def contacts(a, b):
    return {p for e in edges_of(a) for f in edges_of(b)
            for p in meetings(*e, *f)}


def connected(contours):
    """The interior is not cut into pieces by contours that touch."""
    if len(contours) < 2:
        return True
    # bipartite graph of contours and contact points has no cycle
    links = set()
    for i, a in enumerate(contours):
        for j in range(i):
            for p in contacts(a, contours[j]):
                links.add((i, p))
                links.add((j, p))
    parent = {}

    def find(v):
        while parent.setdefault(v, v) != v:
            v = parent[v]
        return v
    for i, p in links:
        u, v = find(i), find(('p', p))
        if u == v:
            return False
        parent[u] = v
    return True


def valid_multipolygon(ps):
    for i, a in enumerate(ps):
        for b in ps[:i]:
            ea, eb = geo_edges('polygon', a), geo_edges('polygon', b)
            for e in ea:
                for f in eb:
                    if len(set(meetings(*e, *f))) > 1:
                        return False
            if compound_in_compound(ea, eb) not in ('DISJOINT', 'TOUCH'):
                return False
    return True


def valid_multisegment(ss):
    from .world import seg_relation
    for i, a in enumerate(ss):
        for b in ss[:i]:
            if seg_relation(a, b) not in ('DISJOINT', 'TOUCH', 'CROSS'):
                return False
    return True
