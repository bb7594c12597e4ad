# -*- coding: utf-8 -*-
"""The rooms do not depend on how and where a vessel is described"""
RULE = ('vessels of all kinds described in two ways: parts in another order, moved, in another unit, mirrored '
        'upside down, renamed, with shells cut in two parts beforehand or built from dicts; non-trivial: more than '
        'one room or a moved or cut vessel')
CASES = {'quick': 80, 'thorough': 1500}
CPU = 400
FAMILIES = ['stack', 'small stack', 'nested small', 'two', 'apart', 'jacket small', 'belt small', 'cone', 'cone',
            'cone on a skirt', 'cone on a skirt', 'triple']
OPS = ['order', 'move', 'unit', 'upside down', 'rename', 'cut', 'dict', 'two shells']


def strategy():
    from hypothesis import strategies as st
    from pbt import vessel

    @st.composite
    def cases(draw):
        case = vessel.make(draw, draw(st.sampled_from(FAMILIES)))
        ops = draw(st.sets(st.sampled_from(OPS), min_size=1, max_size=2))
        if {'cut', 'two shells'} <= ops and sum(c == 'Mantel' for c, _ in case['parts']) > 2:
            ops = ops - {'cut'}      # the search for loops takes minutes
        case['ops'] = sorted(ops)
        case['by'] = [draw(st.integers(-40, 40)) / 4., draw(st.integers(-40, 40)) / 4.]
        case['order'] = draw(st.permutations(range(len(case['parts']))))
        case['at'] = draw(st.sampled_from([.15, .3, .5, .62, .85]))
        case['other'] = other(case)
        return case
    return cases()


def other(case):
    """the other description: parts, and for every part the parts it corresponds to"""
    parts = [[c, dict(k)] for c, k in case['parts']]
    ops = case['ops']
    classes = {c for c, _ in parts}
    big = max(k['h'] for c, k in parts if c == 'Mantel') > 100
    where = {k['name']: [k['name']] for _, k in parts}
    if 'move' in ops:
        f = 1000 if big else 1
        for c, k in parts:
            if c != 'KegelKrempe':
                k['pos_h'] = round(k['pos_h'] + case['by'][0] * f, 6)
                k['pos_v'] = round(k['pos_v'] + case['by'][1] * f, 6)
    if 'unit' in ops:
        f = .001 if big else 1000.
        for c, k in parts:
            for x in ('pos_h', 'pos_v', 'h', 'h1', 'r', 'h_non_kegelside', 'h_kegelside'):
                if x in k:
                    k[x] = round(k[x] * f, 9)
            if 'd' in k:
                k['d'] = [round(x * f, 9) for x in k['d']] if isinstance(k['d'], (list, tuple)) else round(k['d'] * f, 9)
    if 'upside down' in ops and not classes & {'KegelKrempe', 'StandZarge'}:
        for c, k in parts:
            k['pos_v'] = round(-k['pos_v'] - (k['h'] if c == 'Mantel' else 0), 6)
            if c == 'Mantel':
                k['d'] = list(k['d'])[::-1]
            if 'orient' in k:
                k['orient'] = -k['orient']
    if 'two shells' in ops and not classes & {'KegelKrempe', 'RaumEnde'}:
        # one shell as two, on top of each other
        n = [i for i, (c, k) in enumerate(parts) if c == 'Mantel'][0]
        k = parts[n][1]
        low = round(k['h'] * case['at'], 6)
        mid = k['d'][0] + (k['d'][1] - k['d'][0]) * low / k['h']
        if k['d'][0] == k['d'][1]:
            a = dict(k, name=k['name'] + '_a', h=low)
            b = dict(k, name=k['name'] + '_b', pos_v=round(k['pos_v'] + low, 6), h=round(k['h'] - low, 6))
            parts[n:n + 1] = [['Mantel', a], ['Mantel', b]]
            where[k['name']] = [a['name'], b['name']]
    if 'rename' in ops:
        new = {k['name']: 'n%d' % (97 - i) for i, (_, k) in enumerate(parts)}
        for c, k in parts:
            k['name'] = new[k['name']]
            if c == 'KegelKrempe':
                k['hts'], k['kegel'] = [new[x] for x in k['hts']], new[k['kegel']]
        where = {a: [new[x] for x in b] for a, b in where.items()}
    if 'order' in ops:
        for c, k in parts:
            if 'hts' in k:
                k['hts'] = k['hts'][::-1]
        o = [i for i in case['order'] if i < len(parts)] + list(range(len(case['order']), len(parts)))
        parts = [parts[i] for i in o]
    return {'parts': parts, 'where': where}


def form(parts, names=None):
    ret = []
    for p in parts:
        ret.append([p.name, p.__class__.__name__, p.typ,
                    [[s.__class__.__name__, s.i.x, s.i.y, s.j.x, s.j.y] for s in p.segments]])
    return ret


def run(case):
    from pbt import vessel
    import SR_Vessel.SR_hauptteile as H
    o = {}
    parts = vessel.build(case['parts'])
    before = form(parts)
    b = H.Behalter(parts)
    o['changed'] = form(parts) != before and 'RaumEnde' not in [c for c, _ in case['parts']]
    o['kept'] = len(b.polygons) == len(parts) and all(x is y for x, y in zip(b.polygons, parts))
    o['rooms'], o['intex'] = vessel.rooms_of(b), vessel.intex_of(b)
    o['changed2'] = form(parts) != before and 'RaumEnde' not in [c for c, _ in case['parts']]
    if 'dict' in case['ops']:
        parts2 = []
        for c, k in sorted(case['other']['parts'], key=lambda x: x[0] == 'KegelKrempe'):
            k = dict(k)
            if c == 'KegelKrempe':
                by = {p.name: p for p in parts2}
                k = {'name': k['name'], 'h_oben': k['h_non_kegelside'], 'h_unten': k['h_kegelside'], 'r': k['r'],
                     'hts': [by[x] for x in k['hts']], 'kegel': by[k['kegel']]}
            parts2.append(getattr(H, c).from_dict(k))
        order = [k['name'] for _, k in case['other']['parts']]
        parts2.sort(key=lambda p: order.index(p.name))
    else:
        parts2 = vessel.build(case['other']['parts'])
    cuts = []
    if 'cut' in case['ops']:
        for p, (c, k) in zip(parts2, case['other']['parts']):
            if c == 'Mantel' and not any(x[0] in ('KegelKrempe', 'RaumEnde') for x in case['other']['parts']):
                cuts.append(p.split(v=k['pos_v'] + k['h'] * case['at']))
    o['cuts'] = cuts
    b2 = H.Behalter(parts2)
    o['rooms2'], o['intex2'] = vessel.rooms_of(b2), vessel.intex_of(b2)
    return o


def table(rooms, intex, where):
    """rooms by their walls and the rooms on the sides of the parts, without the names of the rooms"""
    if where is not None:
        back = {x: a for a, b in where.items() for x in b}
    else:
        back = {x: x for x in intex}
    walls = {r['name']: (tuple(sorted({back[x] for x in r['outer']})), tuple(sorted({back[x] for x in r['inner']})))
             for r in rooms}
    sides = {}
    for part, v in intex.items():
        for side, rs in v.items():
            sides.setdefault((back[part], side), set()).add(tuple(sorted(walls[x] for x in rs)))
    return sorted(walls.values()), sides


def check(case, o):
    if o['changed'] or o['changed2'] or not o['kept']:
        return 'building the vessel changed its parts'
    if not all(o['cuts']):
        return 'a shell was not cut: %s' % o['cuts']
    a, b = table(o['rooms'], o['intex'], None), table(o['rooms2'], o['intex2'], case['other']['where'])
    if a[0] != b[0]:
        return 'rooms with %s: %s, instead of %s' % (case['ops'], b[0], a[0])
    if a[1] != b[1]:
        d = {k: (a[1][k], b[1].get(k)) for k in a[1] if a[1][k] != b[1].get(k)}
        return 'sides with %s differ: %s' % (case['ops'], d)
    return None


def labels(case, o):
    ret = [case['family']] + case['ops']
    if o['cuts']:
        ret.append('really cut')
    if len(case['rooms']) > 1 or set(case['ops']) & {'move', 'cut', 'two shells'}:
        ret.append('nontrivial')
    return ret
