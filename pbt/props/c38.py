# -*- coding: utf-8 -*-
"""The marker points of a line"""
RULE = ('lines, closed or not, with up to 12 marker points of the three kinds, added in any order, tied to any segment, '
        'the given points and the line changed, copied and asked in between; non-trivial: points of two kinds or more')
CASES = {'quick': 1200, 'thorough': 30000}
KINDS = ('internal', 'external', 'indifferent')


def strategy():
    from hypothesis import strategies as st
    from pbt import gen

    @st.composite
    def cases(draw):
        p = draw(gen.simple_polygon(nmax=8))
        n = len(p['nodes'])
        s = draw(st.sampled_from([1., 1.23457, .02, 100.]))
        c = st.integers(-50, 50)
        ops = []
        for _ in range(draw(st.integers(1, 12))):
            how = draw(st.sampled_from(['add', 'add', 'add', 'change', 'copy', 'move', 'ask']))
            if how == 'add':
                ops.append([how, draw(st.sampled_from(KINDS)), [draw(c) * s, draw(c) * s],
                            draw(st.one_of(st.none(), st.integers(0, n - 2)))])
            elif how in ('change', 'move'):
                ops.append([how, [draw(c) * s, draw(c) * s]])
            else:
                ops.append([how])
        return {'nodes': [[x * s for x in q] for q in p['nodes']], 'closed': draw(st.booleans()), 'ops': ops}
    return cases()


def run(case):
    import copy
    from pbt.api import P, xy, seg, segs, closed, opened
    pl = (closed if case['closed'] else opened)(case['nodes'])
    out, given = [], []

    def state(x):
        ret = {k: [[xy(p), None if p.segment is None else [i for i, s in enumerate(x.segments) if s is p.segment],
                    p.isvalid] for p in getattr(x, k)] for k in KINDS}
        ret['segs'] = segs(x)
        ret['points'] = [xy(p) for p in x.point_set]
        ret['all'] = len(x.all_points)
        return ret

    for op in case['ops']:
        if op[0] == 'add':
            p = P(op[2])
            given.append(p)
            kw = {} if op[3] is None else {'segment': pl.segments[op[3]]}
            getattr(pl, 'add_%s_point' % op[1])(p, **kw)
            out.append(xy(p) == [round(c, 8) for c in op[2]])
        elif op[0] == 'change':
            for p in given:
                p._set_coords(coords=tuple(op[1]))
        elif op[0] == 'copy':
            old = pl
            pl = copy.deepcopy(pl)
            pl.add_external_point(P([7, 7]))
            out.append(state(old))
            old.move(x0=3, y0=4)
            old.add_internal_point(P([8, 8]))
        elif op[0] == 'move':
            pl.move(x0=op[1][0], y0=op[1][1])
        out.append(state(pl))
    return out


def check(case, o):
    nodes = [[round(c, 8) for c in p] for p in case['nodes']]
    line = [[a, b] for a, b in zip(nodes, nodes[1:] + (nodes[:1] if case['closed'] else []))]
    marks = {k: [] for k in KINDS}
    o = list(o)

    def differs(got):
        for k in KINDS:
            if [x[:2] for x in got[k]] != marks[k]:
                return '%s points %r instead of %r' % (k, got[k], marks[k])
            if not all(x[2] for x in got[k]):
                return 'an invalid point'
        if len(got['segs']) != len(line) or any(abs(x - y) > 1e-6 for s, t in zip(got['segs'], line)
                                                for p, q in zip(s, t) for x, y in zip(p, q)):
            return 'segments %r instead of %r' % (got['segs'], line)
        if len(got['points']) != len(nodes) or got['all'] != 2 * len(line):
            return '%d points, %d of segments' % (len(got['points']), got['all'])
        return None

    for op in case['ops']:
        if op[0] == 'add':
            if o.pop(0) is not True:
                return 'the given point was changed'
            marks[op[1]].append([[round(c, 8) for c in op[2]], None if op[3] is None else [op[3]]])
        elif op[0] == 'copy':
            msg = differs(o.pop(0))
            if msg:
                return 'after adding to a copy: ' + msg
            marks['external'].append([[7, 7], None])
        elif op[0] == 'move':
            line = [[[c + m for c, m in zip(p, op[1])] for p in s] for s in line]
        msg = differs(o.pop(0))
        if msg:
            return '%s: %s' % (op[0], msg)
    return None


def labels(case, o):
    kinds = {op[1] for op in case['ops'] if op[0] == 'add'}
    ret = sorted(kinds) + sorted({op[0] for op in case['ops']})
    return ret + (['nontrivial'] if len(kinds) > 1 else [])
