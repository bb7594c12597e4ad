# -*- coding: utf-8 -*-
"""Equality, loose equality, hashes, copies and representations of lines"""
RULE = ('a list of different segments between grid points and a variation of it: the same, permuted, some segments '
        'reversed, one replaced, one left out or added, one point moved a little; non-trivial: the variation is not the '
        'same list but has the same number of segments')
CASES = {'quick': 2500, 'thorough': 60000}


def strategy():
    from hypothesis import strategies as st
    pt = st.tuples(st.integers(-4, 4), st.integers(-4, 4))

    @st.composite
    def cases(draw):
        es = draw(st.lists(st.tuples(pt, pt).filter(lambda e: e[0] != e[1]), min_size=1, max_size=draw(st.sampled_from([3, 7, 7, 7, 24])),
                           unique_by=lambda e: tuple(sorted(e))))
        if draw(st.booleans()):     # continuous
            nodes = [es[0][0]] + [e[1] for e in es]
            seen, es = set(), []
            for a, b in zip(nodes, nodes[1:]):
                if a != b and frozenset((a, b)) not in seen:
                    seen.add(frozenset((a, b)))
                    es.append((a, b))
        n = len(es)
        how = draw(st.sampled_from(['same', 'permuted', 'reversed', 'reversed', 'replaced', 'shorter', 'longer', 'moved']))
        other = list(es)
        k = draw(st.integers(0, n - 1))
        if how == 'permuted':
            other = draw(st.permutations(es))
        elif how == 'reversed':
            f = draw(st.lists(st.booleans(), min_size=n, max_size=n))
            other = [e[::-1] if x else e for e, x in zip(draw(st.permutations(es)), f)]
        elif how == 'replaced':
            a, b = draw(pt), draw(pt)
            if a != b and not any(set(e) == {a, b} for e in es):
                other[k] = (a, b)
        elif how == 'shorter' and n > 1:
            del other[k]
        elif how == 'longer':
            a, b = draw(pt), draw(pt)
            if a != b and not any(set(e) == {a, b} for e in es):
                other.insert(k, (a, b))
        elif how == 'moved':
            d = draw(st.sampled_from([1e-4, -3e-5, .5]))
            e = other[k]
            other[k] = ((e[0][0] + d, e[0][1]), e[1]) if draw(st.booleans()) else (e[0], (e[1][0], e[1][1] - d))
        return {'a': es, 'b': other, 'how': how, 's': draw(st.sampled_from([1., .5, 100., 1.23457] + [2. ** -6] * (how != 'moved')))}
    return cases()


def place(es, s):
    return [[[c * s for c in p] for p in e] for e in es]


def run(case):
    import copy
    from pbt.api import loose, segs
    from geometry.SR_point import Point      # noqa: the representations need them
    from geometry.SR_line import LineSegment   # noqa
    from geometry.SR_polygon import PolygonLine
    a, b = loose(place(case['a'], case['s'])), loose(place(case['b'], case['s']))
    o = {'eq': [a == b, b == a], 'ne': [a != b, b != a],
         'loose': [a.loose_equal(b), b.loose_equal(a)],
         'dir': [a.loose_equal(b, direction_matters=True), b.loose_equal(a, direction_matters=True)],
         'subset': [a.loose_subset(b), b.loose_subset(a)], 'hash': hash(a) == hash(b), 'set': len({a, b})}
    c = copy.deepcopy(a)
    r = eval(repr(a))
    o['copy'] = [c == a, hash(c) == hash(a), len({a, c}), c in {a: 1}, r == a, type(r) is PolygonLine,
                 a.loose_equal(c), a == a, a != c]
    before = segs(a)
    c.move(x0=3, y0=4)
    o['independent'] = [segs(a) == before, c == a]
    o['foreign'] = [a == 1, a == None, a == a.segments[0], a.segments[0] == a]    # noqa
    s, t = a.segments[0], b.segments[0]
    u = eval(repr(s))
    o['seg'] = [s == t, t == s, s != t, s == u, hash(s) == hash(u), len({s, u})]
    o['unchanged'] = segs(a) == before
    return o


def check(case, o):
    a = [tuple(tuple(p) for p in e) for e in case['a']]
    b = [tuple(tuple(p) for p in e) for e in case['b']]
    eq = a == b
    if o['eq'] != [eq, eq] or o['ne'] != [not eq, not eq]:
        return 'equal %r, unequal %r, should be %r' % (o['eq'], o['ne'], eq)
    if eq and (not o['hash'] or o['set'] != 1):
        return 'equal lines with different hashes'
    if not eq and o['set'] != 2:
        return 'different lines are one element of a set'
    le = sorted(tuple(sorted(e)) for e in a) == sorted(tuple(sorted(e)) for e in b)
    if o['loose'] != [le, le]:
        return 'loosely equal %r, should be %r' % (o['loose'], le)
    de = sorted(a) == sorted(b)
    if o['dir'] != [de, de]:
        return 'loosely equal in the same direction %r, should be %r' % (o['dir'], de)
    pa, pb = {p for e in a for p in e}, {p for e in b for p in e}
    if o['subset'] != [pb <= pa, pa <= pb]:
        return 'loose subset %r' % (o['subset'],)
    if o['copy'] != [True, True, 1, True, True, True, True, True, False]:
        return 'a copy, the evaluated representation: %r' % (o['copy'],)
    if o['independent'] != [True, False]:
        return 'moving a copy moves the original'
    if o['foreign'] != [False] * 4:
        return 'equal to something else: %r' % (o['foreign'],)
    se = a[0] == b[0]
    if o['seg'] != [se, se, not se, True, True, 1]:
        return 'equality of segments %r, should be %r' % (o['seg'], se)
    if not o['unchanged']:
        return 'comparing changes the line'
    return None


def labels(case, o):
    ret = [case['how']] + ['equal'] * o['eq'][0] + ['loosely equal'] * o['loose'][0]
    if case['a'] != case['b'] and len(case['a']) == len(case['b']):
        ret.append('nontrivial')
    return ret
