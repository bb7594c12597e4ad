# -*- coding: utf-8 -*-
"""The rooms of stacked vessels"""
RULE = ('stacks of 1-3 (thorough: 4) cylindrical and conical shells with any head at every junction and both ends, with '
        'or without a skirt, beside another one or alone, in metres or millimetres, anywhere, parts in any order; '
        'non-trivial: more than one room')
CASES = {'quick': 96, 'thorough': 3000}
CPU = 300


def strategy():
    from hypothesis import strategies as st
    from pbt import vessel

    @st.composite
    def cases(draw):
        return vessel.make(draw, draw(st.sampled_from(['stack', 'stack', 'small stack', 'apart'])))
    return cases()


def run(case):
    from pbt import vessel
    b = vessel.vessel(case['parts'])
    return {'rooms': vessel.rooms_of(b), 'names': [p.name for p in b.polygons],
            'walls': [[x.name for x in r.ganze_wandung] for r in b.raume], }


def check(case, o):
    from pbt import vessel
    names, msg = vessel.match_rooms(case, o['rooms'])
    if msg:
        return msg
    if len(set(names)) != len(o['rooms']):
        return 'rooms of the same name'
    for r, w in zip(o['rooms'], o['walls']):
        want = case['inner'].get(names[r['name']], [])
        if sorted(r['inner']) != want:
            return 'inner walls of %s: %s instead of %s' % (names[r['name']], r['inner'], want)
        if sorted(w) != sorted(r['outer'] + r['inner']):
            return 'all the walls of %s: %s' % (names[r['name']], w)
    if o['names'] != [k['name'] for _, k in case['parts']]:
        return 'the parts of the vessel: %s' % o['names']
    return None


def labels(case, o):
    ret = [case['family'], '%d rooms' % len(case['rooms'])]
    if len(case['rooms']) > 1:
        ret.append('nontrivial')
    return ret
