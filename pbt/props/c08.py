# -*- coding: utf-8 -*-
"""Histories of edits of a polygon line against a model: a plain list of directed segments"""
RULE = ('a line of 1..6 grid points, or unconnected segments, then up to 20 edits (append at either end, close, purge, '
        'order, move, mirror, reverse a segment, take a closed copy), every query compared with a list model after each; '
        'non-trivial: three or more edits with a coincident point appended after purging or a close')
CASES = {'quick': 2400, 'thorough': 60000}


def strategy():
    from hypothesis import strategies as st
    pt = st.tuples(st.integers(-4, 4), st.integers(-4, 4))
    op = st.one_of(
        st.tuples(st.just('end'), pt), st.tuples(st.just('begin'), pt),
        st.tuples(st.just('end_old'), st.integers(0, 20)), st.tuples(st.just('begin_old'), st.integers(0, 20)),
        st.tuples(st.just('close'), st.none()), st.tuples(st.just('purge'), st.none()),
        st.tuples(st.just('move'), pt), st.tuples(st.just('mirror'), st.integers(-6, 6)),
        st.tuples(st.just('closed_copy'), st.none()), st.tuples(st.just('order'), st.none()))

    @st.composite
    def cases(draw):
        s = draw(st.sampled_from([1., .5, .25, 2. ** -6]))
        if draw(st.integers(0, 4)) == 0:
            segs = draw(st.lists(st.tuples(pt, pt).filter(lambda e: e[0] != e[1]), min_size=1, max_size=4))
            start = {'segs': segs}
        else:
            nodes = draw(st.lists(pt, min_size=2, max_size=6))
            nodes = [n for i, n in enumerate(nodes) if i == 0 or n != nodes[i - 1]]
            if len(nodes) < 2:
                nodes.append((nodes[0][0] + 1, nodes[0][1]))
            start = {'nodes': nodes}
        return {'start': start, 's': s, 'ops': draw(st.lists(op, min_size=1, max_size=draw(st.sampled_from([4, 8, 8, 8, 8, 20])))),
                'q': draw(st.lists(pt, min_size=1, max_size=2))}
    return cases()


def history(case):
    """[(op, argument, segments afterwards)]: the model. Edits without a meaning are left out."""
    s = case['s']

    def pt(p):
        return (p[0] * s, p[1] * s)

    if 'segs' in case['start']:
        segs = [(pt(a), pt(b)) for a, b in case['start']['segs']]
    else:
        n = [pt(p) for p in case['start']['nodes']]
        segs = list(zip(n, n[1:]))
    ret = [('start', None, segs)]
    for op, arg in case['ops']:
        segs = list(segs)
        points = sorted({p for e in segs for p in e})
        if op in ('end', 'end_old'):
            p = pt(arg) if op == 'end' else points[arg % len(points)]
            if p == segs[-1][1]:
                continue
            segs.append((segs[-1][1], p))
            op, arg = 'end', p
        elif op in ('begin', 'begin_old'):
            p = pt(arg) if op == 'begin' else points[arg % len(points)]
            if p == segs[0][0]:
                continue
            segs.insert(0, (p, segs[0][0]))
            op, arg = 'begin', p
        elif op in ('close', 'closed_copy'):
            if not is_closed(segs):
                if segs[-1][1] == segs[0][0]:
                    continue
                segs.append((segs[-1][1], segs[0][0]))
        elif op == 'move':
            v = pt(arg)
            segs = [tuple((p[0] + v[0], p[1] + v[1]) for p in e) for e in segs]
            arg = v
        elif op == 'mirror':
            x0 = arg * s
            segs = [tuple((2 * x0 - p[0], p[1]) for p in e) for e in segs]
            arg = x0
        elif op == 'order':
            ring = ring_of(segs)
            if ring is None:
                continue
            segs = ring
        ret.append((op, arg, segs))
    return ret


def is_continuous(segs):
    return all(x[1] == y[0] or x[0] == y[1] for x, y in zip(segs, segs[1:]))


def is_closed(segs):
    return is_continuous(segs) and segs[0][0] == segs[-1][1]


def ring_of(segs):
    """the ordered form, if the segments are a simple ring, else None"""
    deg = {}
    for a, b in segs:
        deg.setdefault(a, []).append(b)
        deg.setdefault(b, []).append(a)
    if len(segs) < 3 or any(len(v) != 2 or v[0] == v[1] for v in deg.values()):
        return None
    ring = [segs[0][0], segs[0][1]]
    while ring[-1] != ring[0]:
        ring.append([x for x in deg[ring[-1]] if x != ring[-2]][0])
    ring.pop()
    if len(ring) != len(segs):
        return None
    k = ring.index(min(ring, key=lambda p: ((p[0] ** 2 + p[1] ** 2), p)))
    ring = ring[k:] + ring[:k]
    return list(zip(ring, ring[1:] + ring[:1]))


def run(case):
    import copy
    from pbt.api import P, S, segs, xy, seg
    from geometry.SR_polygon import PolygonLine, polygon_from_nodes
    hist = history(case)
    if 'segs' in case['start']:
        pl = PolygonLine([S(e) for e in hist[0][2]])
    else:
        n = [e[0] for e in hist[0][2]] + [hist[0][2][-1][1]]
        pl = polygon_from_nodes(n)
    s = case['s']
    out = []
    for op, arg, model in hist:
        extra = None
        if op == 'end':
            pl.append_point_at_end(P(arg))
        elif op == 'begin':
            pl.append_point_at_beginning(P(arg))
        elif op == 'close':
            pl.close()
        elif op == 'purge':
            pl.purge()
        elif op == 'move':
            pl.move(x0=arg[0], y0=arg[1])
        elif op == 'mirror':
            pl.mirror_vertical(x0=arg)
        elif op == 'closed_copy':
            before = segs(pl)
            c = pl.closed_copy()
            extra = [segs(pl) == before, c is not pl, len({id(x) for x in c.segments} & {id(x) for x in pl.segments})]
            pl = c
        elif op == 'order':
            extra = pl.order()
        pts = list(pl.all_points)
        o = {'segs': segs(pl), 'extra': extra, 'first': xy(pl.first_point), 'last': xy(pl.last_point),
             'fs': seg(pl.first_segment), 'ls': seg(pl.last_segment),
             'closed': pl.isclosed, 'open': pl.isopen, 'cont': pl.iscontinuous,
             'disc': [seg(x) for x in pl.discontinuity], 'all': [xy(p) for p in pts], 'set': [xy(p) for p in pl.point_set],
             'bb': pl.bounding_box(), 'mid': xy(pl.midpoint), 'purged': bool(pl.purged),
             'objects': len({id(p) for p in pts})}
        q = []
        for p in [P((a * s, b * s)) for a, b in case['q']] + [P(xy(pl.first_point)), P(xy(pl.point_set[-1]))]:
            q.append([xy(p), sorted(xy(x) for x in pl.neighbour(p=p))] +
                     [[seg(x) for x in pl.find_segment_by_point(point=p, whichend=w)] for w in ('start', 'end', 'both')])
        o['q'] = q
        if o['closed']:
            o['next'] = [seg(pl.next_segment(x)) for x in pl.segments] if directed_ring(o['segs']) else None
        out.append(o)
    return out


def directed_ring(segs):
    starts = [tuple(e[0]) for e in segs]
    return len(set(starts)) == len(starts) and all(
        tuple(x[1]) == tuple(y[0]) for x, y in zip(segs, segs[1:] + segs[:1]))


def check(case, out):
    hist = history(case)
    purged = False
    for k, ((op, arg, m), o) in enumerate(zip(hist, out)):
        where = ' after step %d (%s)' % (k, op)
        got = [tuple(tuple(p) for p in e) for e in o['segs']]
        if got != [tuple(e) for e in m]:
            return 'segments %r instead of %r' % (got, m) + where
        if op == 'closed_copy' and o['extra'] != [True, True, 0]:
            return 'the closed copy is not independent of the original' + where
        if op == 'order' and o['extra'] is not True:
            return 'a ring was not ordered' + where
        if [tuple(o['first']), tuple(o['last'])] != [m[0][0], m[-1][1]]:
            return 'first, last point %r' % ([o['first'], o['last']],) + where
        if [tuple(map(tuple, o['fs'])), tuple(map(tuple, o['ls']))] != [m[0], m[-1]]:
            return 'first, last segment' + where
        c = is_closed(m)
        if o['cont'] is not is_continuous(m) or o['closed'] is not c or o['open'] is c:
            return 'continuous %r, closed %r, open %r' % (o['cont'], o['closed'], o['open']) + where
        disc = [list(map(list, y)) for x, y in zip(m, m[1:]) if not is_continuous([x, y])]
        if o['disc'] != disc:
            return 'discontinuity %r instead of %r' % (o['disc'], disc) + where
        pts = sorted(p for e in m for p in e)
        if [tuple(p) for p in o['all']] != pts:
            return 'all points %r' % (o['all'],) + where
        ps = sorted(set(pts))
        if [tuple(p) for p in o['set']] != ps:
            return 'point set %r' % (o['set'],) + where
        if o['bb'] != [[min(p[i] for p in ps), max(p[i] for p in ps)] for i in (0, 1)]:
            return 'bounding box %r' % (o['bb'],) + where
        if any(abs(o['mid'][i] - sum(p[i] for p in ps) / len(ps)) > 1e-7 for i in (0, 1)):
            return 'midpoint %r' % (o['mid'],) + where
        if op in ('purge', 'move', 'mirror'):
            purged = True
        # once purged it stays so: no two different objects for one point
        if purged and op != 'closed_copy' and op != 'order' and o['objects'] != len(ps):
            return '%d objects for %d points of a purged line' % (o['objects'], len(ps)) + where
        for p, nb, s, e, b in o['q']:
            t = tuple(p)
            ws = [x for x in m if x[0] == t]
            we = [x for x in m if x[1] == t]
            wb = [x for x in m if t in x]
            if [[tuple(map(tuple, y)) for y in x] for x in (s, e, b)] != [ws, we, wb]:
                return 'segments at %r: %r' % (p, [s, e, b]) + where
            # both ends, as often as there are segments
            wn = sorted([x[0] for x in wb if x[0] != t] + [x[1] for x in wb if x[1] != t])
            if [tuple(x) for x in nb] != wn:
                return 'neighbours of %r: %r instead of %r' % (p, nb, wn) + where
        if o.get('next') and [tuple(map(tuple, x)) for x in o['next']] != m[1:] + m[:1]:
            return 'next segments %r' % (o['next'],) + where
    return None


def labels(case, out):
    hist = history(case)
    ret = ['op ' + h[0] for h in hist[1:]]
    purged, co = False, False
    for (op, arg, m), (_, _, prev) in zip(hist[1:], hist):
        if op in ('purge', 'move', 'mirror'):
            purged = True
        if op in ('end', 'begin') and arg in {p for e in prev for p in e}:
            ret.append('coincident point appended')
            if purged:
                co = True
                ret.append('... to a purged line')
    if len(hist) > 3 and (co or 'op close' in ret):
        ret.append('nontrivial')
    return set(ret)
