# -*- coding: utf-8 -*-
"""The knuckle between a cone and a shell"""
import math

RULE = ('converging cones of any slope under a shell, radius zero or up to what fits, reinforcement lengths below and '
        'above those of the radius, with a skirt, a shell or nothing outside (either one given first), anywhere; non-trivial: a radius, or a '
        'skirt or shell')
CASES = {'quick': 160, 'thorough': 4000}
CPU = 200
ASSUMPTIONS = ['the reinforcement lengths differ from the lengths of the arc by more than 0.002 units']
# rounding errors once put the end of the arc outside of the shell
EXAMPLES = [{'d0': 1.76, 'd1': 4.4, 'h': .95, 'hm': 1.4, 'pv': 0., 'ph': 0., 'r': .792, 'ho': .14, 'hu': .095,
             'under': None, 'dep': 1.}]


def strategy():
    import hypothesis
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        s = draw(st.sampled_from([1., 1.03571, 1000.]))

        def q(a, b):
            return round(draw(st.integers(int(a * 20), int(b * 20))) * s / 20., 6)

        d1 = q(2, 5)
        d0 = round(d1 * draw(st.sampled_from([.2, .3, .4, .5, .6, .7, .8])), 6)
        h, hm = q(.6, 1.5), q(1, 3)
        slope = math.atan2((d1 - d0) / 2., h)
        r = 0.
        if draw(st.booleans()):
            t = draw(st.sampled_from([.1, .2, .3, .4, .6])) * min(math.hypot(h, (d1 - d0) / 2.), hm)
            r = min(round(t / math.tan(slope / 2.), 4), round(d0 / 2., 4) * .9)
        hu = round(h * draw(st.sampled_from([.05, .1, .3, .5, .7, .95])), 6)
        ho = round(hm * draw(st.sampled_from([.05, .1, .3, .5, .9])), 6)
        t = r * math.tan(slope / 2.)
        hypothesis.assume(r == 0 or abs(t * math.cos(slope) - hu) > .002 * s and abs(t - ho) > .002 * s)
        pv, ph = q(-8, 8), q(-8, 8)
        if draw(st.booleans()):       # walls and the junction at 0
            ph = round(draw(st.sampled_from([0., .5, -.5])) * draw(st.sampled_from([d0, d1])), 6)
            pv = draw(st.sampled_from([pv, 0., -h]))
        return {'d0': d0, 'd1': d1, 'h': h, 'hm': hm, 'pv': pv, 'ph': ph, 'r': r, 'ho': ho, 'hu': hu,
                'lower first': draw(st.booleans()), 'under': draw(st.sampled_from([None, None, 'StandZarge', 'Mantel'])), 'dep': q(.5, 2),
                'dict': draw(st.sampled_from([None, None, 'complete', 'name', 'h_oben', 'h_unten', 'r', 'hts', 'kegel', 'extra'])),
                'wrong': draw(st.lists(st.sampled_from(WRONG), min_size=2, max_size=5, unique=True))}
    return cases()


def run(case):
    import SR_Vessel.SR_hauptteile as H
    from pbt.api import seg, xy
    k = case
    jv = round(k['pv'] + k['h'], 6)
    ma = H.Mantel(name='ma', pos_v=jv, pos_h=k['ph'], d=(k['d1'], k['d1']), h=k['hm'])
    ke = H.Mantel(name='kegel', pos_v=k['pv'], pos_h=k['ph'], d=(k['d0'], k['d1']), h=k['h'])
    hts = [ma]
    if k['under']:
        hts.append(getattr(H, k['under'])(name='u', pos_v=round(k['pv'] - k['dep'], 6), pos_h=k['ph'],
                                          d=(k['d1'], k['d1']), h=round(k['h'] + k['dep'], 6)))
    o = {}
    hs = tuple(hts[::-1] if k.get('lower first') else hts)
    if k.get('dict'):
        d = {'name': 'kkr', 'h_oben': k['ho'], 'h_unten': k['hu'], 'r': k['r'], 'hts': hs, 'kegel': ke}
        if k['dict'] in d:       # too short
            try:
                H.KegelKrempe.from_dict({a: b for a, b in d.items() if a != k['dict']})
                o['short'] = None
            except Exception as e:
                o['short'] = str(e)
        kk = H.KegelKrempe.from_dict(dict(d))
        if k['dict'] == 'extra':
            d = wrong(k, jv, None)
            d = {'name': 'x', 'h_oben': k['ho'], 'h_unten': k['hu'], 'r': k['r'], 'hts': d['hts'], 'kegel': d['kegel'],
                 'height': 1}
            try:
                H.KegelKrempe.from_dict(d)
                o['long'] = None
            except Exception as e:
                o['long'] = str(e)
    else:
        kk = H.KegelKrempe(name='kkr', h_non_kegelside=k['ho'], h_kegelside=k['hu'], r=k['r'], hts=hs, kegel=ke)
    o['kind'] = [kk.__class__.__name__, kk.name, kk.r == k['r'], kk.kegel is ke]

    def form(p):
        return [[s.__class__.__name__] + seg(s) for s in p.segments]

    o.update({n: form(p) for n, p in [('ma', ma), ('kegel', ke), ('kkr', kk)] + ([('u', hts[1])] if k['under'] else [])})
    g = kk.graph
    o['graphs'] = {n: [seg(s) for s in p.graph.segments] for n, p in
                   [('ma', ma), ('kegel', ke), ('kkr', kk)] + ([('u', hts[1])] if k['under'] else [])}
    o['int'] = [[xy(x), seg(x.segment)] for x in g.internal]
    o['ext'] = [[xy(x), seg(x.segment)] for x in g.external]
    o['oben'] = kk.ht_oben is ma
    o['unten'] = (kk.ht_unten is hts[1]) if k['under'] else kk.ht_unten is None
    # wrong use
    o['rejected'] = []
    for bad in k.get('wrong', []):
        try:
            H.KegelKrempe(**wrong(k, jv, bad))
        except Exception:
            o['rejected'].append(bad)
    return o


WRONG = ['no shell', 'three parts', 'length above 0', 'length below 0', 'length above negative', 'length below negative',
         'radius negative', 'diverging', 'cylinder', 'head as cone', 'head as shell', 'head under', 'longer than shell',
         'longer than cone', 'radius too large']


def wrong(k, jv, bad):
    import SR_Vessel.SR_hauptteile as H

    def shell(v, h, d0, d1):
        return H.Mantel(name='w', pos_v=v, pos_h=k['ph'], d=(d0, d1), h=h)

    def head():
        return H.Klopperboden(name='b', pos_v=jv, pos_h=k['ph'], d=k['d1'], h1=.02 * k['d1'], orient=1)

    top = shell(jv, k['hm'], k['d1'], k['d1'])
    low = shell(round(k['pv'] - k['dep'], 6), round(k['h'] + k['dep'], 6), k['d1'], k['d1'])
    a = {'name': 'x', 'r': k['r'], 'h_non_kegelside': k['ho'], 'h_kegelside': k['hu'], 'hts': (top,),
         'kegel': shell(k['pv'], k['h'], k['d0'], k['d1'])}
    slope = math.atan2((k['d1'] - k['d0']) / 2., k['h'])
    a.update({
        'no shell': {'hts': ()}, 'three parts': {'hts': (top, low, low)},
        'length above 0': {'h_non_kegelside': 0}, 'length below 0': {'h_kegelside': 0},
        'length above negative': {'h_non_kegelside': -k['ho']}, 'length below negative': {'h_kegelside': -k['hu']},
        'radius negative': {'r': -max(k['r'], .01)},
        'diverging': {'kegel': shell(k['pv'], k['h'], k['d1'], k['d0'])},
        'cylinder': {'kegel': shell(k['pv'], k['h'], k['d1'], k['d1'])},
        'head as cone': {'kegel': head()}, 'head as shell': {'hts': (head(),)}, 'head under': {'hts': (top, head())},
        'longer than shell': {'h_non_kegelside': 1.05 * k['hm']}, 'longer than cone': {'h_kegelside': 1.05 * k['h']},
        'radius too large': {'r': 1.2 * max(k['hm'], k['h'] / math.cos(slope)) / math.tan(slope / 2.)}}.get(bad, {}))
    return a


def check(case, o):
    k = case
    jv, ph, tol = k['pv'] + k['h'], k['ph'], 2e-6 * max(1, k['d1'])
    if not (o['oben'] and o['unten']):
        return 'the upper or the lower shell is another one'
    if o['rejected'] != k.get('wrong', []):
        return 'accepted: %r' % sorted(set(k['wrong']) - set(o['rejected']))
    if o['kind'] != ['KegelKrempe', 'kkr', True, True]:
        return 'class, name, radius, cone: %r' % o['kind']
    if 'short' in o and (o['short'] is None or k['dict'] not in o['short']):
        return 'a dict without %s: %r' % (k['dict'], o['short'])
    if o.get('long', '') is None:
        return 'a dict with an unknown key was accepted'
    # right half, from below to above
    slope = math.atan2((k['d1'] - k['d0']) / 2., k['h'])      # angle between cone and axis
    t = k['r'] * math.tan(slope / 2.)                         # length of the tangents
    low, up = -t * math.cos(slope), t                         # levels of the ends of the arc
    lo, hi = min(-k['hu'], low), max(k['ho'], up)             # levels of the ends of the knuckle

    def cone_x(z):
        return k['d1'] / 2. + z * math.tan(slope)

    def right(name, kinds=('Wall',)):
        ret = []
        for s in o[name]:
            if s[0] in kinds and s[1][0] > ph and s[2][0] > ph:
                ret.append(sorted([[s[1][0] - ph, s[1][1] - jv], [s[2][0] - ph, s[2][1] - jv]], key=lambda p: p[1]))
        return sorted(ret, key=lambda s: s[0][1])

    def left(name):
        ret = []
        for s in o[name]:
            if s[0] == 'Wall' and s[1][0] < ph and s[2][0] < ph:
                ret.append(sorted([[ph - s[1][0], s[1][1] - jv], [ph - s[2][0], s[2][1] - jv]], key=lambda p: p[1]))
        return sorted(ret, key=lambda s: s[0][1])

    def close(a, b):
        return len(a) == len(b) and all(abs(x - y) <= tol for p, q in zip(a, b) for u, w in zip(p, q)
                                        for x, y in zip(u, w))

    for name in ('ma', 'kegel', 'kkr'):
        if not close(right(name), left(name)):
            return '%s is not symmetric: %r, %r' % (name, right(name), left(name))
        walls = sorted(sorted(s[1:]) for s in o[name] if s[0] == 'Wall')
        if name != 'kkr' and sorted(sorted(s) for s in o['graphs'][name]) != walls:
            return 'the graph of %s does not follow it' % name
        nodes = [p for s in o[name] for p in s[1:]]
        if any(sum(abs(p[0] - q[0]) + abs(p[1] - q[1]) <= tol for q in nodes) != 2 for p in nodes):
            return 'the outline of %s is not closed: %r' % (name, o[name])
        if len([s for s in o[name] if s[0] == 'NonWall']) != 2:
            return 'the ends of %s: %r' % (name, o[name])
    if not close(right('ma'), [[[k['d1'] / 2., hi], [k['d1'] / 2., k['hm']]]]):
        return 'the shell: %r instead of from %r' % (right('ma'), hi)
    if not close(right('kegel'), [[[k['d0'] / 2., -k['h']], [cone_x(lo), lo]]]):
        return 'the cone: %r instead of to %r' % (right('kegel'), lo)
    kk = right('kkr')
    if any(abs(a[1][0] - b[0][0]) > tol or abs(a[1][1] - b[0][1]) > tol for a, b in zip(kk, kk[1:])):
        return 'the knuckle has gaps: %r' % kk
    ends = [kk[0][0], kk[-1][1]]
    if not close([ends], [[[cone_x(lo), lo], [k['d1'] / 2., hi]]]):
        return 'the ends of the knuckle: %r instead of %r' % (ends, [[cone_x(lo), lo], [k['d1'] / 2., hi]])
    nodes = [kk[0][0]] + [s[1] for s in kk]
    if k['r'] == 0:
        if not close([nodes], [[[cone_x(lo), lo], [k['d1'] / 2., 0], [k['d1'] / 2., hi]]]):
            return 'the knuckle: %r' % nodes
    else:
        c = (k['d1'] / 2. - k['r'], up)
        arc = 0
        for p in nodes:
            on = abs(math.hypot(p[0] - c[0], p[1] - c[1]) - k['r']) <= 2 * tol and low - tol <= p[1] <= up + tol
            arc += on
            if not on and p not in ends:
                return '%r is not on the arc' % (p,)
        if arc < 3:
            return 'too few corners: %r' % nodes
        for p in ([cone_x(low), low], [k['d1'] / 2., up]):
            if not any(abs(p[0] - q[0]) <= 2 * tol and abs(p[1] - q[1]) <= 2 * tol for q in nodes):
                return 'the end of the arc %r is not a corner of %r' % (p, nodes)
    # the graph: the same ends, the arc may be replaced by its chord
    g = sorted([sorted([[a[0] - ph, a[1] - jv], [b[0] - ph, b[1] - jv]], key=lambda p: p[1])
                for a, b in o['graphs']['kkr'] if a[0] > ph], key=lambda s: s[0][1])
    if not g or 2 * len(g) != len(o['graphs']['kkr']) or not close([[g[0][0], g[-1][1]]], [ends]) or \
            any(abs(a[1][0] - b[0][0]) > tol or abs(a[1][1] - b[0][1]) > tol for a, b in zip(g, g[1:])):
        return 'the graph of the knuckle: %r' % o['graphs']['kkr']
    # marker points: inside is towards the axis
    for s in o['graphs']['kkr']:
        inn = [p for p, z in o['int'] if z == s]
        out = [p for p, z in o['ext'] if z == s]
        if not inn or not out:
            return 'no marker points for %r' % (s,)
        a, b = sorted(s, key=lambda p: p[1])
        for p in inn + out:
            x = a[0] + (b[0] - a[0]) * (p[1] - a[1]) / (b[1] - a[1])
            if (p in inn) is not (abs(p[0] - ph) < abs(x - ph)) or (p[0] - ph) * (a[0] - ph) <= 0:
                return 'the marker point %r of %r is on the wrong side' % (p, s)
    if k['under']:
        u = right('u')
        if k['r'] == 0 and not close(u, [[[k['d1'] / 2., -k['h'] - k['dep']], [k['d1'] / 2., 0]]]):
            return 'the skirt: %r' % u
        top = u[-1][1] if u else None
        if top is None or not any(abs(top[0] - p[0]) <= tol and abs(top[1] - p[1]) <= tol for p in nodes):
            return 'the skirt does not end at the knuckle: %r' % u
        kinds = sorted(s[0] for s in o['u'])
        if kinds != (['NonWall', 'Wall', 'Wall', 'Wall'] if k['under'] == 'StandZarge' else
                     ['NonWall', 'NonWall', 'Wall', 'Wall']):
            return 'the skirt: %r' % o['u']
    return None


def labels(case, o):
    ret = ['radius' if case['r'] else 'no radius', case['under'] or 'free']
    if case['r'] or case['under']:
        ret.append('nontrivial')
    return ret
