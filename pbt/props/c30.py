# -*- coding: utf-8 -*-
"""On which side of each part its rooms are"""
RULE = ('all kinds of vessels: stacks, skirts, nested vessels, jackets, cones; the sides are known from the layout; '
        'non-trivial: a part has a room on its outer side or on both sides')
CASES = {'quick': 96, 'thorough': 2000}
CPU = 400
ASSUMPTIONS = ['parts that are only partly next to a room (knuckle without radius above a skirt) are not judged']
FAMILIES = ['stack', 'small stack', 'nested', 'nested small', 'two', 'apart', 'jacket', 'jacket small', 'belt small',
            'cone', 'cone', 'triple', 'two hosts']


def strategy():
    from hypothesis import strategies as st
    from pbt import vessel

    @st.composite
    def cases(draw):
        return vessel.make(draw, draw(st.sampled_from(FAMILIES)))
    return cases()


def run(case):
    from pbt import vessel
    b = vessel.vessel(case['parts'])
    rooms = vessel.rooms_of(b)
    intex = vessel.intex_of(b)
    return {'rooms': rooms, 'intex': intex, 'again': vessel.intex_of(b) == intex,
            'after': vessel.rooms_of(b) == rooms}


def check(case, o):
    from pbt import vessel
    names, msg = vessel.match_rooms(case, o['rooms'])
    if msg:
        return msg
    got = o['intex']
    if sorted(got) != sorted(k['name'] for _, k in case['parts']):
        return 'parts: %s' % sorted(got)
    for part, want in case['truth'].items():
        if sorted(got[part]) != sorted(vessel.EMPTY):
            return 'keys of %s: %s' % (part, sorted(got[part]))
        for side in vessel.EMPTY:
            if any(x not in names for x in got[part][side]):
                return '%s of %s: a room that does not exist in %s' % (side, part, got[part][side])
            have = sorted({names[x] for x in got[part][side]})
            if have != want[side]:
                return '%s of %s is %s instead of %s' % (side, part, have, want[side])
    if not o['again'] or not o['after']:
        return 'asking changed something'
    return None


def labels(case, o):
    ret = [case['family'], '%d rooms' % len(case['rooms'])]
    if any(v['aussenraum'] or len(v['indifferent']) > 1 for v in case['truth'].values()):
        ret.append('nontrivial')
    return ret
