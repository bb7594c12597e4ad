# -*- coding: utf-8 -*-
"""What two segments have in common, compared with the exact set intersection"""
from pbt.props.c04 import pair_strategy, place

RULE = ('two segments between grid points (scaled, moved), as for C04, plus pieces of a segment at ratios that are not '
        'representable exactly; non-trivial: they have something in common that is not an endpoint of both')
CASES = {'quick': 6000, 'thorough': 200000}
EXAMPLES = []


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        case = draw(pair_strategy())
        if draw(st.integers(0, 4)) == 0:      # pieces of a segment
            ks = draw(st.lists(st.integers(0, 7), min_size=4, max_size=4))
            if ks[0] == ks[1]:
                ks[1] = (ks[0] + 3) % 8
            if ks[2] == ks[3]:
                ks[3] = (ks[2] + 2) % 8
            case['ks'] = ks
        return case
    return cases()


def pieces(case):
    """the segments"""
    if 'ks' not in case:
        return place(case['a'], case), place(case['b'], case)
    (x0, y0), (x1, y1) = place(case['a'], case)
    p = [[round(x0 + (x1 - x0) * k / 7., 8), round(y0 + (y1 - y0) * k / 7., 8)] for k in case['ks']]
    return p[:2], p[2:]


def model(case):
    """None, point or (point, point)"""
    from pbt import geo
    if 'ks' in case:
        k = case['ks']
        lo, hi = max(min(k[:2]), min(k[2:])), min(max(k[:2]), max(k[2:]))
        if lo > hi:
            return None
        (x0, y0), (x1, y1) = place(case['a'], case)
        p = [(x0 + (x1 - x0) * t / 7., y0 + (y1 - y0) * t / 7.) for t in (lo, hi)]
        return p[0] if lo == hi else tuple(p)
    a, b = [tuple(p) for p in case['a']], [tuple(p) for p in case['b']]
    cp = geo.common_part(a[0], a[1], b[0], b[1])

    def out(p):
        return tuple(float(p[k] + case['off'][k]) * case['s'] for k in (0, 1))

    if cp is None:
        return None
    return tuple(out(p) for p in cp) if isinstance(cp[0], tuple) else out(cp)


def run(case):
    from pbt.api import S, seg, xy
    sa, sb = pieces(case)
    a, b = S(sa), S(sb)

    def plain(x):
        if x is None:
            return None
        return {'p': xy(x)} if hasattr(x, 'xy') else {'s': seg(x)}

    o = []
    for x, y in ((a, b), (b, a), (a.line_reversed, b), (a, b.line_reversed)):
        ol = x.overlap(y)
        o.append({'cp': plain(x.common_part(y)), 'type': x.common_part_type(y), 'ol': [ol[0], plain(ol[1])],
                  'par': x.is_parallel(y)})
    return {'o': o, 'same': [seg(a), seg(b)]}


def check(case, o):
    m = model(case)
    tol = 1e-6 * case['s'] + 5e-8

    def near(p, q):
        return max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= tol + 1e-7

    def matches(got):
        if m is None:
            return got is None
        if isinstance(m[0], tuple):
            if got is None or 's' not in got:
                return False
            i, j = got['s']
            return (near(i, m[0]) and near(j, m[1])) or (near(i, m[1]) and near(j, m[0]))
        return got is not None and 'p' in got and near(got['p'], m)

    kind = None if m is None else 'LineSegment' if isinstance(m[0], tuple) else 'Point'
    for i, x in enumerate(o['o']):
        if not matches(x['cp']):
            return 'common part %r instead of %r (variant %d)' % (x['cp'], m, i)
        if x['type'] != kind:
            return 'type of the common part %r instead of %r' % (x['type'], kind)
        if not x['par']:
            if x['ol'] != [False, None]:
                return 'overlap of segments that are not parallel: %r' % (x['ol'],)
        elif not matches(x['ol'][1]) or (kind == 'LineSegment') > x['ol'][0] or (kind is None) is x['ol'][0]:
            return 'overlap %r instead of %r (variant %d)' % (x['ol'], m, i)
    want = [[[round(c, 8) for c in p] for p in s] for s in pieces(case)]
    if o['same'] != want:
        return 'the segments were changed'
    return None


def labels(case, o):
    m = model(case)
    if m is None:
        return ['nothing in common', 'parallel' if o['o'][0]['par'] else 'not parallel']
    ret = ['segment' if isinstance(m[0], tuple) else 'point', 'parallel' if o['o'][0]['par'] else 'not parallel']
    if 'ks' in case:
        ret.append('not representable')
    a, b = [[tuple(p) for p in s] for s in o['same']]
    if not set(a) & set(b):
        ret.append('nontrivial')
    elif isinstance(m[0], tuple) and set(a) != set(b):
        ret.append('nontrivial')
    return ret
