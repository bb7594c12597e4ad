# -*- coding: utf-8 -*-
"""Vessels with known rooms: generators (driver side) and their construction (worker side).

A generated vessel is plain data
    parts   [[class, arguments], ...] in the order they are given to the vessel
    rooms   {room: names of the parts that bound it from outside}
    inner   {room: names of the parts of vessels standing inside}
    truth   {part: {'innenraum': rooms, 'aussenraum': rooms, 'indifferent': rooms}}: on which side of the part which
            room is. A part that is not a key is not judged.
and is laid out so that the rooms are known from the way it was put together, without any geometry.
"""
import math

EMPTY = ('innenraum', 'aussenraum', 'indifferent')


class Draw(object):
    """what random.Random has, from a Hypothesis draw function"""

    def __init__(self, draw):
        from hypothesis import strategies as st
        self.st, self.draw = st, draw

    def choice(self, seq):
        return self.draw(self.st.sampled_from(list(seq)))

    def randint(self, a, b):
        return self.draw(self.st.integers(a, b))

    def flag(self):
        return self.draw(self.st.booleans())

    def shuffle(self, seq):
        seq[:] = self.draw(self.st.permutations(seq))

    def q(self, a, b, s):
        """a length between a and b (multiples of 0.05) in units of s"""
        return round(self.randint(int(a * 20), int(b * 20)) / 20. * s, 6)


def unit(r):
    """metres (also with many decimals) or millimetres: the graph of a head is at least 0.1 high, whatever the unit"""
    return r.choice([1, 1.03571, 1000])


def nothing():
    return {k: set() for k in EMPTY}


def head(name, kind, v, h, d, h1, orient):
    if kind == 'F':
        return ['Flachboden', dict(name=name, pos_v=v, pos_h=h, d=d)]
    return [{'K': 'Klopperboden', 'B': 'Korbbogenboden'}[kind],
            dict(name=name, pos_v=v, pos_h=h, d=d, h1=round(h1, 6), orient=orient)]


def any_head(r):
    return r.choice('FKB'), r.choice([1, -1])


def sides(kind, orient, below, above):
    ret = nothing()
    if kind == 'F':
        ret['indifferent'] = {x for x in (below, above) if x is not None}
    else:
        ins, out = (below, above) if orient == 1 else (above, below)
        ret['innenraum'] = {ins} - {None}
        ret['aussenraum'] = {out} - {None}
    return ret


def put_stack(s, ph, pv, ds, hs, heads, h1=.1, skirt=None, prefix='', outside=None):
    """shells on top of each other, a head at every junction and at both ends, a skirt under it or not"""
    ph, pv, ds, hs = round(ph, 6), round(pv, 6), [round(x, 6) for x in ds], [round(x, 6) for x in hs]
    parts, truth, rooms = [], {}, {}
    n, v = len(hs), pv
    room = [prefix + 'c%d' % i for i in range(n)]
    for i in range(n + 1):
        kind, o = heads[i]
        nm = prefix + 'h%d' % i
        parts.append(head(nm, kind, v, ph, ds[i], h1 * s, o))
        below = room[i - 1] if i > 0 else (prefix + 'sk' if skirt else outside)
        above = room[i] if i < n else outside
        truth[nm] = sides(kind, o, below, above)
        if i > 0:
            rooms[room[i - 1]].add(nm)
        if i < n:
            nm2 = prefix + 'm%d' % i
            parts.append(['Mantel', dict(name=nm2, pos_v=v, pos_h=ph, d=(ds[i], ds[i + 1]), h=hs[i])])
            truth[nm2] = dict(nothing(), innenraum={room[i]}, aussenraum={outside} - {None})
            rooms[room[i]] = {nm, nm2}
            v = round(v + hs[i], 6)
    if skirt:
        h, db = skirt
        parts.append(['StandZarge', dict(name=prefix + 'st', pos_v=round(pv - h, 6), pos_h=ph, d=(db, ds[0]), h=h)])
        truth[prefix + 'st'] = dict(nothing(), innenraum={prefix + 'sk'}, aussenraum={outside} - {None})
        rooms[prefix + 'sk'] = {prefix + 'st', prefix + 'h0'}
    return parts, truth, rooms, v


def inner_walls(parts, prefix, n):
    """the heads between two rooms of a stack are not next to the surrounding room"""
    return {x[1]['name'] for x in parts} - {prefix + 'h%d' % i for i in range(1, n)}


def stack(r, n=None, nmax=3):
    s = unit(r)
    n = n or r.randint(1, nmax)
    ds = [r.q(1, 5, s)]
    for _ in range(n):
        ds.append(ds[-1] if r.flag() else r.q(1, 5, s))
    hs = [r.q(.6, 3, s) for _ in range(n)]
    skirt = None
    if r.randint(0, 2) == 0:
        skirt = (r.q(1, 2.5, s), ds[0] if r.flag() else r.q(1, 5, s))
    parts, truth, rooms, _ = put_stack(s, r.q(-8, 8, s), r.q(-8, 8, s), ds, hs, [any_head(r) for _ in range(n + 1)],
                                       r.choice([.05, .1, .2]), skirt)
    return parts, truth, rooms, {}


def nested(r, nin, nout):
    """a stack inside one of the rooms of another stack"""
    s = unit(r)
    hs = [r.q(.6, 2, s) for _ in range(nin)]
    ds = [r.q(1, 3, s)]
    for _ in range(nin):
        ds.append(ds[-1] if r.flag() else r.q(1, 3, s))
    pv, ph = r.q(-4, 4, s), r.q(-4, 4, s)
    b, tb, rb, _ = put_stack(s, ph, pv, ds, hs, [any_head(r) for _ in range(nin + 1)], prefix='i', outside=None)
    host = r.randint(0, nout - 1)
    outside = 'oc%d' % host
    b, tb, rb, _ = put_stack(s, ph, pv, ds, hs, [(h[0], h[1]) for h in heads_of(b, 'i', nin)], prefix='i',
                             outside=outside)
    D = round(max(ds) + r.q(.2, 1, s), 6)
    mb = round(r.q(.3, 1, s) + max(ds) * .5, 6)
    mt = round(r.q(.3, 1, s) + max(ds) * .5, 6)
    ohs = [r.q(.6, 2, s) for _ in range(nout)]
    ohs[host] = round(sum(hs) + mb + mt, 6)
    opv = round(pv - mb - sum(ohs[:host]), 6)
    a, ta, ra, _ = put_stack(s, ph, opv, [D] * (nout + 1), ohs, [any_head(r) for _ in range(nout + 1)], prefix='o')
    ta.update(tb)
    ra.update(rb)
    return a + b, ta, ra, {outside: inner_walls(b, 'i', nin)}


def heads_of(parts, prefix, n):
    ret = {}
    for c, k in parts:
        if c != 'Mantel':
            ret[k['name']] = ({'Flachboden': 'F', 'Klopperboden': 'K', 'Korbbogenboden': 'B'}[c], k.get('orient', 1))
    return [ret[prefix + 'h%d' % i] for i in range(n + 1)]


def two(r, n1, n2):
    """two stacks, one above the other, in one room"""
    s = unit(r)
    ph, v = r.q(-4, 4, s), r.q(-4, 4, s)
    pv0, mx = v, 0
    parts, truth, rooms, inn = [], {}, {}, set()
    for pre, n in (('a', n1), ('b', n2)):
        ds = [r.q(1, 3, s) for _ in range(n + 1)]
        mx = max(mx, max(ds))
        v = round(v + max(ds) * .5 + r.q(.3, 1, s), 6)
        a, b, c, v = put_stack(s, ph + r.q(-.5, .5, s), v, ds, [r.q(.6, 2, s) for _ in range(n)],
                               [any_head(r) for _ in range(n + 1)], prefix=pre, outside='oc0')
        v = round(v + max(ds) * .5, 6)
        parts += a
        truth.update(b)
        rooms.update(c)
        inn |= inner_walls(a, pre, n)
    D = mx + r.q(1.2, 2, s)
    v = round(v + r.q(.3, .5, s), 6)
    a, b, c, _ = put_stack(s, ph, pv0, [D, D], [round(v - pv0, 6)], [any_head(r) for _ in range(2)], prefix='o')
    truth.update(b)
    rooms.update(c)
    return parts + a, truth, rooms, {'oc0': inn}


def apart(r):
    """two vessels beside each other"""
    a, ta, ra, _ = stack(r, n=r.randint(1, 2))
    right = max(max(k['d']) if isinstance(k['d'], (tuple, list)) else k['d'] for _, k in a) / 2. + a[0][1]['pos_h']
    s = 1000 if right > 200 or any(k.get('h', 0) > 100 for _, k in a) else 1
    d = r.q(1, 4, s)
    ph = round(right + d / 2. + r.q(.2, 2, s), 6)
    b, tb, rb, _ = put_stack(s, ph, a[0][1]['pos_v'] + r.q(-1, 1, s), [d, d], [r.q(.6, 3, s)],
                             [any_head(r) for _ in range(2)], prefix='x')
    ta.update(tb)
    ra.update(rb)
    return a + b, ta, ra, {}


def jacket(r, n):
    """a jacket around the lower part of a stack, closed by a RaumEnde"""
    s = unit(r)
    d = r.q(1, 4, s)
    hs = [r.q(.8, 2, s) for _ in range(n)]
    pv, ph = r.q(-4, 4, s), r.q(-4, 4, s)
    heads = [any_head(r) for _ in range(n + 1)]
    host = r.randint(0, n - 1)
    top = round(sum(hs[:host]) + round(hs[host] * r.choice([.25, .5, .75]), 6), 6)
    gap = r.q(.15, .5, s)
    parts, truth, rooms, _ = put_stack(s, ph, pv, [d] * (n + 1), hs, heads, prefix='i')
    D = round(d + 2 * gap, 6)
    kind, o = any_head(r)
    # the graphs of the two heads must not cross
    k0, o0 = heads[0]
    dep = r.q(.35, .6, s)
    parts += [['Mantel', dict(name='jm', pos_v=round(pv - dep, 6), pos_h=ph, d=(D, D), h=round(top + dep, 6))],
              head('jb', kind, round(pv - dep, 6), ph, D, .1 * s, o),
              ['RaumEnde', dict(name='re', pos_v=round(pv + top, 6), pos_h=ph, d=D)]]
    truth['jm'] = dict(nothing(), innenraum={'j'})
    truth['jb'] = sides(kind, o, None, 'j')
    truth['re'] = nothing()
    truth['ih0'] = sides(k0, o0, 'j', 'ic0')
    walls = {'jm', 'jb', 're', 'ih0'}
    for i in range(host + 1):
        truth['im%d' % i]['aussenraum'] = {'j'}
        walls.add('im%d' % i)
    rooms['j'] = walls
    return parts, truth, rooms, {}


def belt(r, n):
    """a jacket around the middle of a stack, closed by a RaumEnde at both ends"""
    s = unit(r)
    d = r.q(1, 4, s)
    hs = [r.q(.8, 2, s) for _ in range(n)]
    pv, ph = r.q(-4, 4, s), r.q(-4, 4, s)
    ds = [round(d + i * r.q(-.4, .4, s), 6) for i in range(n + 1)] if r.flag() else [d] * (n + 1)
    parts, truth, rooms, _ = put_stack(s, ph, pv, ds, hs, [any_head(r) for _ in range(n + 1)], prefix='i')
    c0 = r.randint(0, n - 1)
    c1 = r.randint(c0, n - 1)
    f0, f1 = r.choice([(.2, .5), (.3, .4), (.4, .8), (.2, .8), (.5, .6), (.6, .7)])
    z0 = round(pv + sum(hs[:c0]) + hs[c0] * f0, 6)
    z1 = round(pv + sum(hs[:c1]) + hs[c1] * f1, 6)
    D = round(max(ds) + 2 * r.q(.15, .5, s), 6)
    parts += [['Mantel', dict(name='jm', pos_v=z0, pos_h=ph, d=(D, D), h=round(z1 - z0, 6))],
              ['RaumEnde', dict(name='re0', pos_v=z0, pos_h=ph, d=D)],
              ['RaumEnde', dict(name='re1', pos_v=z1, pos_h=ph, d=D)]]
    truth['jm'] = dict(nothing(), innenraum={'j'})
    walls = {'jm', 're0', 're1'}
    for i in range(c0, c1 + 1):
        truth['im%d' % i]['aussenraum'] = {'j'}
        walls.add('im%d' % i)
    for x in ('re0', 're1'):
        truth[x] = nothing()
    rooms['j'] = walls
    return parts, truth, rooms, {}


def cone(r, skirt=None, rad=None, bottom=None):
    """a converging cone under a shell, with a knuckle at the junction, on a skirt or not"""
    skirt = r.flag() if skirt is None else skirt
    # with a skirt and a radius there are many loops: expensive
    rad = (not skirt and r.flag()) if rad is None else rad
    bottom = r.flag() if bottom is None else bottom
    s = unit(r)
    d1 = r.q(2, 5, s)
    d0 = round(d1 * r.choice([.3, .4, .5, .6, .7]), 6)
    h, hm = r.q(.6, 1.5, s), r.q(1, 3, s)
    pv, ph = r.q(-4, 4, s), r.q(-4, 4, s)
    k, o = any_head(r)
    jv = round(pv + h, 6)
    slope = math.atan2((d1 - d0) / 2., h)
    R = 0.
    if rad:
        T = r.choice([.2, .3, .4]) * min(math.hypot(h, (d1 - d0) / 2.), hm)
        R = min(round(T / math.tan(slope / 2.), 4), round(d0 / 2., 4) * .9)
    hu, ho = round(h * r.choice([.1, .3, .5, .7]), 6), round(hm * r.choice([.1, .3, .5]), 6)
    if rad and min(abs(R * math.tan(slope / 2.) * math.cos(slope) - hu), abs(R * math.tan(slope / 2.) - ho)) < .002 * s:
        R = round(R * .9, 4)     # no segments that are shorter than what can be told apart
    bk, bo = any_head(r)
    parts = [head('bu', bk, pv, ph, d0, .1 * s, bo) if bottom else
             ['RaumEnde', dict(name='bu', pos_v=pv, pos_h=ph, d=d0)],
             ['Mantel', dict(name='kegel', pos_v=pv, pos_h=ph, d=(d0, d1), h=h)],
             ['Mantel', dict(name='ma', pos_v=jv, pos_h=ph, d=(d1, d1), h=hm)],
             head('bo', k, round(jv + hm, 6), ph, d1, .1 * s, o)]
    hts = ['ma']
    truth = {n: dict(nothing(), innenraum={'c'}) for n in ('kegel', 'ma', 'kkr')}
    truth['bo'] = sides(k, o, 'c', None)
    truth['bu'] = sides(bk, bo, 'sk' if skirt else None, 'c') if bottom else nothing()
    rooms = {'c': {'bu', 'kegel', 'ma', 'bo', 'kkr'}}
    if skirt:
        dep = round(r.q(.6, 1, s) + d0 * .3, 6)
        parts.append(['StandZarge', dict(name='stz', pos_v=round(pv - dep, 6), pos_h=ph, d=(d1, d1),
                                         h=round(h + dep, 6))])
        hts.append('stz')
        rooms['sk'] = {'bu', 'kegel', 'stz', 'kkr'}
        truth['kegel']['aussenraum'] = {'sk'}
        truth['stz'] = dict(nothing(), innenraum={'sk'})
        if rad:
            truth['kkr']['aussenraum'] = {'sk'}
        else:
            del truth['kkr']    # partly next to the skirt room, partly not: not judged
    parts.append(['KegelKrempe', dict(name='kkr', h_non_kegelside=ho, h_kegelside=hu, r=R, hts=hts, kegel='kegel')])
    return parts, truth, rooms, {}


def cyl(r, nm, s, v, h, d, ph, n, outside):
    a, t, rr, _ = put_stack(s, ph, v, [d] * (n + 1), [round(h / float(n), 6)] * n, [any_head(r) for _ in range(n + 1)],
                            h1=.05, prefix=nm, outside=outside)
    return a, t, rr, inner_walls(a, nm, n)


def triple(r):
    """a vessel in a vessel in a vessel"""
    s = unit(r)
    ph, v = r.randint(-5, 5) * s / 4., r.randint(-5, 5) * s / 4.
    a, t, rr, _ = cyl(r, 'o', s, v, 6 * s, 5 * s, ph, 1, None)
    b, tb, rb, wb = cyl(r, 'm', s, v + 1 * s, 4 * s, 3.5 * s, ph, 1, 'oc0')
    c, tc, rc, wc = cyl(r, 'i', s, v + 2 * s, 2 * s, 2. * s, ph, 1, 'mc0')
    for x in (tb, tc):
        t.update(x)
    for x in (rb, rc):
        rr.update(x)
    return a + b + c, t, rr, {'oc0': wb, 'mc0': wc}


def twohosts(r):
    """two rooms with a vessel in each"""
    s = unit(r)
    ph, v = r.randint(-5, 5) * s / 4., r.randint(-5, 5) * s / 4.
    a, t, rr, _ = cyl(r, 'o', s, v, 8 * s, 5 * s, ph, 2, None)
    b, tb, rb, wb = cyl(r, 'm', s, v + 1 * s, 2 * s, 3. * s, ph, 1, 'oc0')
    c, tc, rc, wc = cyl(r, 'i', s, v + 5 * s, 2 * s, 2. * s, ph + .25 * s, 1, 'oc1')
    for x in (tb, tc):
        t.update(x)
    for x in (rb, rc):
        rr.update(x)
    return a + b + c, t, rr, {'oc0': wb, 'oc1': wc}


FAMILIES = {
    'stack': lambda r: stack(r),
    'small stack': lambda r: stack(r, nmax=2),
    'nested': lambda r: nested(r, *r.choice([(1, 1), (1, 1), (2, 1), (1, 2)])),
    'nested small': lambda r: nested(r, 1, 1),
    'two': lambda r: two(r, 1, 1),
    'apart': lambda r: apart(r),
    'jacket': lambda r: jacket(r, r.choice([1, 1, 2])),
    'jacket small': lambda r: jacket(r, 1),
    'belt': lambda r: belt(r, r.choice([1, 1, 2])),
    'belt small': lambda r: belt(r, 1),
    'cone': lambda r: cone(r),
    'cone on a skirt': lambda r: cone(r, skirt=True, rad=False),
    'cone with radius on a skirt': lambda r: cone(r, skirt=True, rad=True),
    'triple': triple,
    'two hosts': twohosts,
}


def place(r, parts):
    """anywhere, and where walls and levels have the coordinate 0"""
    ps = [k for _, k in parts if 'pos_v' in k]
    dh, dv = 0, 0
    if r.flag():
        k = r.choice(ps)
        half = (r.choice(k['d']) if isinstance(k['d'], (tuple, list)) else k['d']) / 2.
        dh = r.choice([-k['pos_h'], -k['pos_h'] - half, -k['pos_h'] + half])
        k = r.choice(ps)
        dv = r.choice([0, -k['pos_v'], -k['pos_v'] - k.get('h', 0)])
    elif max(abs(k[x]) for k in ps for x in ('pos_v', 'pos_h')) < 100:
        dh, dv = r.choice([(0, 0), (250., 0), (-250., -250.), (0, 250.)])
    for k in ps:
        k['pos_h'] = round(k['pos_h'] + dh, 6)
        k['pos_v'] = round(k['pos_v'] + dv, 6)


def make(draw, family):
    r = Draw(draw)
    parts, truth, rooms, inner = FAMILIES[family](r)
    place(r, parts)
    r.shuffle(parts)
    for _, k in parts:
        if 'hts' in k:
            r.shuffle(k['hts'])
    return {'family': family, 'parts': parts,
            'truth': {k: {kk: sorted(vv) for kk, vv in v.items()} for k, v in truth.items()},
            'rooms': {k: sorted(v) for k, v in rooms.items()},
            'inner': {k: sorted(v) for k, v in inner.items()}}


# ---------------------------------------------------------------- oracle side

def match_rooms(case, rooms):
    """{name in the result: name in the layout} by the outer walls; or a message"""
    names = {}
    for room in rooms:
        m = [k for k, v in case['rooms'].items() if v == sorted(room['outer'])]
        if len(m) != 1:
            return None, 'there is no room bounded by %s; the rooms are %s' % (sorted(room['outer']), case['rooms'])
        names[room['name']] = m[0]
    found = sorted(names.values())
    if case['family'].startswith('belt'):
        for j in ('j', 'j0', 'j1'):
            if found.count(j) == 2:
                found.remove(j)    # a ring: two areas of the section, whether they are one room or two is not judged
    if found != sorted(case['rooms']):
        return None, 'rooms found: %s, rooms there are: %s' % (sorted(names.values()), sorted(case['rooms']))
    return names, None


# ---------------------------------------------------------------- worker side

def build(parts):
    """the parts as objects, in the given order"""
    import SR_Vessel.SR_hauptteile as H
    done = {}
    for c, k in sorted(parts, key=lambda x: x[0] == 'KegelKrempe'):
        k = dict(k)
        if c == 'KegelKrempe':
            k['hts'] = tuple(done[x] for x in k['hts'])
            k['kegel'] = done[k['kegel']]
        elif 'd' in k and isinstance(k['d'], list):
            k['d'] = tuple(k['d'])
        done[k['name']] = getattr(H, c)(**k)
    return [done[k['name']] for _, k in parts]


def rooms_of(b):
    return [{'name': r.name, 'outer': [x.name for x in r.aussere_wandung], 'inner': [x.name for x in r.innere_wandung]}
            for r in b.raume]


def intex_of(b):
    return {k: {kk: sorted(vv) for kk, vv in v.items()} for k, v in b.raum_intex().items()}


def vessel(parts):
    import SR_Vessel.SR_hauptteile as H
    return H.Behalter(build(parts))
