# -*- coding: utf-8 -*-
"""Objects of the code under test from plain data, and back. Used in the worker only."""
from geometry.SR_point import Point
from geometry.SR_line import LineSegment
from geometry.SR_polygon import PolygonLine, polygon_from_nodes


def P(p):
    return Point((p[0], p[1]))


def S(s):
    return LineSegment(P(s[0]), P(s[1]))


def xy(p):
    return None if p is None else [p.x, p.y]


def seg(s):
    return [xy(s.i), xy(s.j)]


def segs(pl):
    return [seg(s) for s in pl.segments]


def closed(nodes):
    """a closed PolygonLine with these corners"""
    pl = polygon_from_nodes([tuple(p) for p in nodes])
    pl.close()
    return pl


def opened(nodes):
    return polygon_from_nodes([tuple(p) for p in nodes])


def loose(segments):
    """a PolygonLine of unrelated segments: every segment has Points of its own"""
    return PolygonLine([S(s) for s in segments])
