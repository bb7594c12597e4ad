# -*- coding: utf-8 -*-
"""The rooms of vessels inside vessels, of jackets and of cones"""
RULE = ('a stack in a room of a stack, two stacks in one room, three levels of nesting, vessels in two rooms, jackets '
        'closed by a RaumEnde at one or both ends, cones with a knuckle, with or without a skirt; parts in any order, '
        'in metres or millimetres, anywhere; non-trivial: more than one room')
CASES = {'quick': 80, 'thorough': 1500}
CPU = 400
ASSUMPTIONS = ['a RaumEnde is not at the level of a junction (where it only touches: documented to do nothing)']
QUICK = ['nested', 'nested small', 'two', 'jacket', 'jacket small', 'belt', 'belt small', 'cone', 'cone', 'triple',
         'two hosts']


def strategy():
    from hypothesis import strategies as st
    from pbt import vessel

    @st.composite
    def cases(draw):
        return vessel.make(draw, draw(st.sampled_from(QUICK)))
    return cases()


def run(case):
    from pbt import vessel
    b = vessel.vessel(case['parts'])
    return {'rooms': vessel.rooms_of(b), 'names': [p.name for p in b.polygons],
            'walls': [[x.name for x in r.ganze_wandung] for r in b.raume], }


def check(case, o):
    from pbt import vessel
    names, msg = vessel.match_rooms(case, o['rooms'])
    if msg:
        return msg
    if len(set(names)) != len(o['rooms']):
        return 'rooms of the same name'
    for r, w in zip(o['rooms'], o['walls']):
        want = case['inner'].get(names[r['name']], [])
        if sorted(r['inner']) != want:
            return 'inner walls of %s: %s instead of %s' % (names[r['name']], r['inner'], want)
        if sorted(w) != sorted(r['outer'] + r['inner']):
            return 'all the walls of %s: %s' % (names[r['name']], w)
    if o['names'] != [k['name'] for _, k in case['parts']]:
        return 'the parts of the vessel: %s' % o['names']
    return None


def labels(case, o):
    ret = [case['family'], '%d rooms' % len(case['rooms'])]
    if len(case['rooms']) > 1:
        ret.append('nontrivial')
    return ret
