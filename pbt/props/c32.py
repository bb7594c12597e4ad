# -*- coding: utf-8 -*-
"""Comparing tables of rooms: equal up to the names of the rooms"""
import itertools

RULE = ('tables with 1-4 parts and up to 4 rooms; the other table: renamed (consistently, two rooms swapped, two rooms '
        'merged), a room added or dropped, a part added or dropped, or unrelated; non-trivial: the same parts, at '
        'least two rooms')
CASES = {'quick': 2400, 'thorough': 60000}
SIDES = ['innenraum', 'aussenraum', 'indifferent']


def strategy():
    from hypothesis import strategies as st

    @st.composite
    def cases(draw):
        nr = draw(st.integers(1, 4))
        names = draw(st.sampled_from([['R1', 'R2', 'R3', 'R4'], ['a', 'b', 'c', 'd'], ['R10', 'R2', 'x', 'R1']]))[:nr]
        parts = ['p%d' % i for i in range(draw(st.integers(1, 4)))]

        def table(names):
            return {p: {s: sorted(draw(st.sets(st.sampled_from(names), max_size=2))) for s in SIDES} for p in parts}

        def ren(t, m):
            return {p: {s: sorted({m[x] for x in v}) for s, v in q.items()} for p, q in t.items()}

        a = table(names)
        how = draw(st.sampled_from(['renamed', 'renamed', 'renamed', 'other', 'moved', 'dropped', 'part', 'merged']))
        new = draw(st.permutations(draw(st.sampled_from([['R1', 'R2', 'R3', 'R4'], ['b', 'c', 'd', 'e']]))))
        b = ren(a, dict(zip(names, new))) if how != 'other' else table(new[:nr])
        p, s = draw(st.sampled_from(parts)), draw(st.sampled_from(SIDES))
        if how == 'moved':
            s2 = draw(st.sampled_from(SIDES))
            b[p][s], b[p][s2] = b[p][s2], b[p][s]
        elif how == 'dropped':
            x = draw(st.sampled_from(new[:nr]))
            b[p][s] = sorted(set(b[p][s]) ^ {x})
        elif how == 'part':
            if draw(st.booleans()) and len(parts) > 1:
                del b[p]
            else:
                b['extra'] = {s: [new[0]] if s == 'innenraum' else [] for s in SIDES}
        elif how == 'merged' and nr > 1:
            b = ren(b, dict(zip(new, [new[1]] + list(new[1:]))))
        if draw(st.booleans()):
            a, b = b, a
        return {'how': how, 'a': a, 'b': b}
    return cases()


def warm_up():
    import time
    time.sleep = lambda *args: None     # the checker waits before it reports a difference


def run(case):
    from SR_Vessel.SR_hauptteile import raum_dict_checker

    def sets(t):
        return {p: {s: set(v) for s, v in q.items()} for p, q in t.items()}

    a, b = sets(case['a']), sets(case['b'])
    try:
        r = raum_dict_checker(dict_to_comapare=a, basedict=b)
    except Exception as e:
        r = type(e).__name__
    return {'result': r, 'unchanged': a == sets(case['a']) and b == sets(case['b'])}


def rooms(t):
    return sorted({x for q in t.values() for v in q.values() for x in v})


def check(case, o):
    a, b = case['a'], case['b']
    ra, rb = rooms(a), rooms(b)
    ways = 0
    if len(ra) == len(rb):
        for p in itertools.permutations(rb):
            m = dict(zip(ra, p))
            ways += {q: {s: sorted({m[x] for x in v}) for s, v in w.items()} for q, w in a.items()} == b
    want = ways == 1
    if want and o['result'] is not True:
        return 'equal tables are rejected: %r' % o['result']
    if not want and not isinstance(o['result'], str):
        return 'accepted, there are %d ways to rename the rooms: %r' % (ways, o['result'])
    if not o['unchanged']:
        return 'the tables were changed'
    return None


def labels(case, o):
    ret = [case['how'], 'accepted' if o['result'] is True else 'rejected']
    if set(case['a']) == set(case['b']) and len(rooms(case['a'])) > 1:
        ret.append('nontrivial')
    return ret
