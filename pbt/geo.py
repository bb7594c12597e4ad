# -*- coding: utf-8 -*-
"""Exact reference geometry (rationals), independent of the code under test. Points are (x, y) pairs."""
from fractions import Fraction as F


def fr(p):
    return F(p[0]), F(p[1])


def sub(a, b):
    return a[0] - b[0], a[1] - b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def orient(a, b, c):
    """> 0 if c is to the left of a -> b"""
    return cross(sub(b, a), sub(c, a))


def sgn(x):
    return (x > 0) - (x < 0)


def on_segment(p, a, b):
    return orient(a, b, p) == 0 and dot(sub(p, a), sub(p, b)) <= 0


def line_intersection(a, b, c, d):
    """the common point of the lines a-b and c-d, None if they are parallel"""
    r, s = sub(b, a), sub(d, c)
    den = cross(r, s)
    if den == 0:
        return None
    t = F(cross(sub(c, a), s)) / den
    return a[0] + t * r[0], a[1] + t * r[1]


def common_part(a, b, c, d):
    """the common part of the segments a-b and c-d: None, a point or a pair of different points, sorted"""
    ip = line_intersection(a, b, c, d)
    if ip is not None:
        return ip if in_box(ip, a, b) and in_box(ip, c, d) else None
    if orient(a, b, c) != 0:
        return None
    s1, s2 = sorted([a, b]), sorted([c, d])
    lo, hi = max(s1[0], s2[0]), min(s1[1], s2[1])
    if lo > hi:
        return None
    return lo if lo == hi else (lo, hi)


def in_box(p, a, b):
    return min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def area2(nodes):
    """twice the signed area"""
    return sum(cross(a, b) for a, b in zip(nodes, nodes[1:] + nodes[:1]))


def edges(nodes):
    return list(zip(nodes, nodes[1:] + nodes[:1]))


def locate(p, nodes):
    """1 inside, 0 on the boundary, -1 outside of the closed polygon"""
    inside = False
    for a, b in edges(nodes):
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            o = orient(a, b, p)
            if (o > 0) == (b[1] > a[1]):
                inside = not inside
    return 1 if inside else -1


def is_simple(nodes):
    """a closed polygon whose edges have only the common nodes of neighbours in common"""
    n = len(nodes)
    if n < 3 or len(set(nodes)) != n:
        return False
    es = edges(nodes)
    for i in range(n):
        for j in range(i + 1, n):
            cp = common_part(*(es[i] + es[j]))
            if cp is None:
                continue
            if j == i + 1 or (i == 0 and j == n - 1):
                if isinstance(cp[0], tuple):
                    return False
                if n > 3 or True:
                    shared = set(es[i]) & set(es[j])
                    if cp not in shared:
                        return False
            else:
                return False
    return True


def untangle(pts):
    """a simple closed polygon through the points (no three collinear problems solved: check is_simple)"""
    pts = list(pts)
    n = len(pts)
    for _ in range(4 * n * n):
        for i in range(n - 1):
            done = False
            for j in range(i + 1, n):
                a, b, c, d = pts[i], pts[i + 1], pts[j], pts[(j + 1) % n]
                if len({a, b, c, d}) < 4:
                    continue
                if common_part(a, b, c, d) is not None:
                    pts[i + 1:j + 1] = pts[i + 1:j + 1][::-1]
                    done = True
                    break
            if done:
                break
        else:
            return pts
    return pts


def hull(points):
    """corners of the convex hull, ccw"""
    pts = sorted(set(points))
    if len(pts) < 3:
        return pts
    chains = []
    for seq in (pts, pts[::-1]):
        ch = []
        for p in seq:
            while len(ch) > 1 and orient(ch[-2], ch[-1], p) <= 0:
                ch.pop()
            ch.append(p)
        chains.append(ch[:-1])
    return chains[0] + chains[1]


def star(points, center):
    """the points sorted by angle around center (exact); one point per direction, the farthest"""
    import functools

    def half(v):
        return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1

    def cmp(a, b):
        a, b = sub(a, center), sub(b, center)
        if half(a) != half(b):
            return half(a) - half(b)
        c = cross(a, b)
        return -1 if c > 0 else (1 if c < 0 else 0)

    best = {}
    pts = sorted((p for p in set(points) if p != center), key=functools.cmp_to_key(cmp))
    out = []
    for p in pts:
        if out and cmp(out[-1], p) == 0:
            if dot(sub(p, center), sub(p, center)) > dot(sub(out[-1], center), sub(out[-1], center)):
                out[-1] = p
        else:
            out.append(p)
    return out


def bridge_free_loops(edge_list):
    """all simple cycles of a graph, as frozensets of edges (frozensets of two nodes)"""
    adj = {}
    for a, b in edge_list:
        adj.setdefault(a, set()).add(b)
        adj.setdefault(b, set()).add(a)
    loops = set()
    nodes = sorted(adj)
    index = {v: i for i, v in enumerate(nodes)}

    def walk(start, path, seen):
        for w in adj[path[-1]]:
            if w == start and len(path) > 2:
                loops.add(frozenset(frozenset(e) for e in zip(path, path[1:] + [start])))
            elif w not in seen and index[w] > index[start]:
                walk(start, path + [w], seen | {w})

    for v in nodes:
        walk(v, [v], {v})
    return loops


def components(edge_list):
    """the connected components, as lists of edges"""
    rest, ret = list(edge_list), []
    while rest:
        comp, nodes = [rest.pop()], None
        nodes = set(comp[0])
        more = True
        while more:
            more = False
            for e in list(rest):
                if e[0] in nodes or e[1] in nodes:
                    comp.append(e)
                    nodes |= set(e)
                    rest.remove(e)
                    more = True
        ret.append(comp)
    return ret


def faces(edge_list):
    """the bounded faces of one connected plane graph, as lists of nodes (ccw); None if it has a cut vertex or a tail"""
    import functools
    adj = {}
    for a, b in edge_list:
        adj.setdefault(a, []).append(b)
        adj.setdefault(b, []).append(a)
    if any(len(x) < 2 for x in adj.values()):
        return None

    def half(v):
        return 0 if (v[1] > 0 or (v[1] == 0 and v[0] > 0)) else 1

    for p in adj:
        def cmp(x, y):
            x, y = sub(x, p), sub(y, p)
            return half(x) - half(y) or -sgn(cross(x, y))
        adj[p].sort(key=functools.cmp_to_key(cmp))
    left = {(a, b) for e in edge_list for a, b in (e, e[::-1])}
    ret = []
    while left:
        start = min(left)
        a, b = start
        face = []
        while True:
            left.discard((a, b))
            face.append(a)
            ns = adj[b]
            a, b = b, ns[ns.index(a) - 1]     # the next one clockwise: the face is to the left
            if (a, b) == start:
                break
        if len(set(face)) != len(face):
            return None
        ret.append(face)
    ret = [f for f in ret if area2(f) > 0]
    if len(ret) != len(edge_list) - len(adj) + 1:
        return None
    return ret
