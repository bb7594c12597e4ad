# -*- coding: utf-8 -*-
"""Groups of polygon lines that make up a plane drawing. Used in the worker only."""


class Stub(object):
    pass


def graph_of(parts):
    """the BehalterGraph of parts given as lists of segments (pairs of points)"""
    from geometry.SR_polygon_group import BehalterGraph
    from geometry.SR_polygon import PolygonLine
    from pbt.api import S
    b = Stub()
    b.polygons = []
    for segs in parts:
        p = Stub()
        p.graph = PolygonLine([S(s) for s in segs])
        b.polygons.append(p)
    return BehalterGraph(behalter=b)


def part_class():
    """a vessel part made of any walls"""
    from SR_Vessel.SR_hauptteile import Hauptteil, Wall
    from geometry.SR_polygon_group import Graph
    from pbt.api import P

    class Walls(Hauptteil):
        def __init__(self, name=None, segments=()):
            self.name = name
            super(Walls, self).__init__(typ='walls', segments=[Wall(P(a), P(b)) for a, b in segments])
            self._graph = Graph(hauptteil=self)
            self.graph.add_intex_points()

        @property
        def intex_points(self):
            return {s: {'internal': [], 'external': [], 'indifferent': []} for s in self.graph.segments}

        @property
        def isvalid(self):
            return True

    return Walls
