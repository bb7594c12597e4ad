# -*- coding: utf-8 -*-
"""Cutting parts horizontally keeps their outline"""
RULE = ('shells, skirts, heads and flat ends cut one to three times: at a level in them, at their ends, beside them, '
        'by a RaumEnde that is wider, narrower or beside them, kept or made a ring; non-trivial: something is cut')
CASES = {'quick': 640, 'thorough': 12000}


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        c = draw(st.sampled_from(['Mantel', 'Mantel', 'Mantel', 'StandZarge', 'Klopperboden', 'Korbbogenboden',
                                  'Flachboden', 'RaumEnde']))
        s = draw(st.sampled_from([1., 1.03571, 1000.]))
        q = st.one_of(st.integers(20, 100), st.integers(20, 100), st.integers(2, 20), st.integers(100, 1000))\
            .map(lambda x: round(x * s / 20., 6))
        pos = st.integers(-160, 160).map(lambda x: round(x * s / 20., 6))
        k = {'name': 'p', 'pos_v': draw(pos), 'pos_h': draw(pos), 'd': draw(q)}
        if c in ('Mantel', 'StandZarge'):
            k['d'] = [k['d'], k['d'] if draw(st.booleans()) else draw(q)]
            k['h'] = draw(q)
        elif 'boden' in c and c != 'Flachboden':
            k['h1'] = round(.1 * s, 6)
            k['orient'] = draw(st.sampled_from([1, -1]))
        ops = []
        for _ in range(draw(st.integers(1, 3))):
            ops.append([draw(st.sampled_from(['v', 'v', 'ht keep', 'ht ring'])),
                        draw(st.sampled_from([.5, .25, .125, .75, .9, .5, .3, .6, 0, 1, -.5, 1.5])),
                        draw(st.sampled_from(["wider", "wider", "wider", "narrower", "beside"]))])
        return {'class': c, 'args': k, 'ops': ops}
    return cases()


def run(case):
    import SR_Vessel.SR_hauptteile as H
    from pbt.api import seg
    k = dict(case['args'])
    if isinstance(k['d'], list):
        k['d'] = tuple(k['d'])
    p = getattr(H, case['class'])(**k)

    def form(x):
        return [[s.__class__.__name__] + seg(s) for s in x.segments]

    o = {'before': form(p), 'steps': []}
    for how, f, width in case['ops']:
        level = k['pos_v'] + f * k.get('h', 1.)
        dmax = max(k['d']) if isinstance(k['d'], tuple) else k['d']
        dmin = min(k['d']) if isinstance(k['d'], tuple) else k['d']
        if how == 'v':
            ret = p.split(v=level)
            ring = None
        else:
            ph = k['pos_h'] + (3 * dmax if width == 'beside' else 0)
            re = H.RaumEnde(name='re', pos_v=level, pos_h=ph, d=dmin * .5 if width == 'narrower' else dmax * 1.25)
            rb = form(re)
            ret = p.split(ht=re, keep=how == 'ht keep')
            ring = [rb, form(re), [seg(s) for s in re.graph.segments]]
        o['steps'].append({'ret': ret, 'form': form(p), 'ring': ring, 'graph': [seg(s) for s in p.graph.segments],
                           'points': [len([x for x in p.graph.internal + p.graph.external if x.segment == s])
                                      for s in p.graph.segments]})
    return o


def pieces(segments):
    return sorted([s[0]] + sorted([s[1], s[2]]) for s in segments)


def check(case, o):
    c, k = case['class'], case['args']
    d = k['d']
    big = max(d) if isinstance(d, list) else d
    tol = 1e-6 * max(1, big)
    want, last = pieces(o['before']), o['before']
    for (how, f, width), st in zip(case['ops'], o['steps']):
        cut = False
        if c in ('Mantel', 'StandZarge') and 0 < f < 1 and (how == 'v' or width == 'wider'):
            level = k['pos_v'] + f * k['h']
            new = []
            half = (d[0] + (d[1] - d[0]) * f) / 2.
            for s in want:
                lo, hi = sorted([s[1][1], s[2][1]])
                if s[0] == 'Wall' and lo + tol < level < hi - tol:
                    x = k['pos_h'] + (half if s[1][0] > k['pos_h'] else -half)
                    new += [['Wall'] + sorted([s[1], [x, level]]), ['Wall'] + sorted([[x, level], s[2]])]
                    cut = True
                else:
                    new.append(s)
            want = sorted(new)
        if bool(st['ret']) is not cut:
            return '%r returned %r, cut: %r' % ([how, f, width], st['ret'], cut)
        got = pieces(st['form'])
        if len(got) != len(want):
            return 'after %r: %r instead of %r' % ([how, f, width], got, want)
        left = list(want)
        for s in got:
            m = [z for z in left if z[0] == s[0] and all(abs(a - b) <= tol for p, q in zip(s[1:], z[1:])
                                                       for a, b in zip(p, q))]
            if not m:
                # a vertical wall may come in the other order because of rounding
                m = [z for z in left if z[0] == s[0] and all(abs(a - b) <= tol for p, q in zip(s[1:], z[:0:-1])
                                                           for a, b in zip(p, q))]
            if not m:
                return 'after %r: %r is not a part of the outline' % ([how, f, width], s)
            left.remove(m[0])
        if not cut and st['form'] != last:
            return 'nothing was cut, but the part has changed'
        if 'boden' not in c or c == 'Flachboden':
            walls = sorted(sorted(s[1:]) for s in st['form'] if s[0] == 'Wall')
            if sorted(sorted(s) for s in st['graph']) != walls:
                return 'the graph %r does not follow the walls' % st['graph']
        if c in ('Mantel', 'StandZarge') and not all(st['points']):
            return 'segments without marker points'
        last = st['form']
        if st['ring'] is not None:
            before, after, graph = st['ring']
            if not cut or how == 'ht keep':
                if before != after or graph != [before[0][1:]]:
                    return 'the RaumEnde has changed: %r' % after
            else:
                a, b = before[0][1], before[0][2]
                xs = [a[0], k['pos_h'] - half, k['pos_h'] + half, b[0]]
                if [s[0] for s in after] != ['Wall', 'NonWall', 'Wall']:
                    return 'the RaumEnde: %r' % after
                for i, s in enumerate(after):
                    e = sorted([s[1], s[2]])
                    if abs(e[0][0] - xs[i]) > tol or abs(e[1][0] - xs[i + 1]) > tol or \
                            any(abs(p[1] - a[1]) > tol for p in e):
                        return 'the RaumEnde: %r' % after
                if sorted(graph) != sorted([s[1:] for s in after if s[0] == 'Wall']):
                    return 'the graph of the RaumEnde: %r' % graph
    return None


def labels(case, o):
    ret = [case['class']]
    if any(s['ret'] for s in o['steps']):
        ret.append('nontrivial')
        if len([s for s in o['steps'] if s['ret']]) > 1:
            ret.append('cut repeatedly')
    return ret
