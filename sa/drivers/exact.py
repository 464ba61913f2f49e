"""Every public geometry operation, on exact inputs (analysed, never run)."""
from _sa import q, qinf, i, several, sink, flag, array, either, frac
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from plycutter.geometry.aabb import AABB
from plycutter.geometry.impl2d.frangle2d import vector_frangle, frangle_unit_square_vector
from plycutter.geometry.impl2d import primitive2d
from plycutter.geometry.impl2d.segment_tree import SegmentTree1D
from plycutter.geometry.impl2d.pmr_quadtree import PMRQuadTree, SegmentPMRQuadTree
from plycutter.geometry.impl2d import geom2d_simple_holes
from plycutter import plytypes


def _g1():
    return either(Geom1D(several((q(), q()))), Geom1D([]),
                  Geom1D(several((qinf(), qinf()))))


def _pts():
    return several((q(), q()))


def _poly():
    return either(Geom2D.polygon(_pts()), Geom2D.polygon(_pts(), reorient=True))


def _g2():
    return either(_poly(), Geom2D.rectangle(q(), q(), q(), q()), Geom2D.empty())


def one_dimensional():
    a = _g1()
    b = _g1()
    u = a | b
    v = a & b
    sink('g1', u, v, a - b, a ^ b, ~a, Geom1D.empty(), Geom1D.full())
    r = either(a, u, v, a - b, a ^ b, ~a)
    sink('g1 derived', r | r, r & r, r - r, ~r)
    sink('g1 buffer', a.buffer(q()), a.buffer(i()))
    sink('measure', r.measure1d())
    sink('intervals', r.get_intervals())
    sink('locate', r.locate(q()))
    sink('pieces', r.disjoint_pieces())
    sink('filter', r.filter(lambda lo, hi: flag()))
    r.is_empty()
    r.is_bounded()


def two_dimensional():
    a = _g2()
    b = _g2()
    u = a | b
    sink('g2', u, a & b, a - b, Geom2D.union([a, b]))
    r = either(a, u, a & b, a - b)
    sink('g2 derived', r | a, r & a, r - a)
    sink('area', r.area())
    sink('locate', r.locate((q(), q())))
    sink('segments', r.all_segments())
    sink('polygons', r.polygons())
    for p in r.polygons():
        sink('exterior', p.exterior())
        sink('holes', p.holes())
    r.is_empty()
    r.repro()
    sink('project', r.project_to_1d((q(), q()), q()))
    sink('transformed', r.transformed_with(lambda p: [q(), q()]))
    sink('transformed', r.transformed_with(lambda p: p))


def buffered():
    a = _g2()
    w = a.buffer(q())
    sink('buffer', w)
    sink('buffer', a.buffer(i()))


def boxes():
    bb = AABB()
    bb.include_point((q(), q()))
    bb.include_point((q(), q()))
    cc = AABB((q(), q()), (q(), q()))
    sink('aabb', bb, cc)
    sink('aabb tests', bb.contains((q(), q())), cc.intersects_aabb(bb))
    sink('aabb tests', cc.intersects_segment(((q(), q()), (q(), q()))))


def trees():
    t = SegmentTree1D(several((q(), q(), i())))
    sink('stab', t.stab(q()))
    s = SegmentPMRQuadTree(AABB((q(), q()), (q(), q())), several(((q(), q()), (q(), q()))))
    sink('quadtree', s.find(((q(), q()), (q(), q()))))


def angles():
    sink('frangle', vector_frangle((q(), q())))
    sink('frangle vector', frangle_unit_square_vector(q()))


def primitives():
    sink('segments meet', primitive2d.segment_segment_general_intersection(((q(), q()), (q(), q())), ((q(), q()), (q(), q()))))
    sink('fraction', primitive2d.line_segment_point_fraction(((q(), q()), (q(), q())), (q(), q())))
    sink('polygon area', primitive2d.simple_polygon_area(several((q(), q()))))
    sink('winding', primitive2d.locate_point_polygon_winding_number(several((q(), q())), (q(), q())))
    for e in primitive2d.edges_iter(several((q(), q()))):
        sink('edges', e)


def conversions():
    sink('exact', plytypes.FractionFromExact(either(q(), i(), frac())))
    sink('exact or inf', plytypes.FractionFromExactOrInf(either(qinf(), i(), frac())))
    sink('totuple', plytypes.totuple(array(q())))
