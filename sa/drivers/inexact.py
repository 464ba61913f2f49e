"""Inexact numbers at the exact-geometry entry points (analysed, never run).

Every function named refuse_... must fail on all paths, whatever the number."""
from _sa import q, i, frac, nonint_float, nonint_npfloat, any_float, nonzero_float, nan, inf, ninf, text, flag, either, sink, several, instance, tag
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D
from plycutter import plytypes, sheetplex


def _bad():
    return either(nonint_float(), nonint_npfloat(), nan())


def _inexact():
    return either(any_float(), nan(), nonint_npfloat(), nonint_float())


def refuse_convert_float():
    plytypes.FractionFromExact(_inexact())


def refuse_convert_inf():
    plytypes.FractionFromExact(either(inf(), ninf()))


def refuse_convert_text():
    plytypes.FractionFromExact(text())


def refuse_convert_or_inf_float():
    plytypes.FractionFromExactOrInf(_inexact())


def refuse_interval_low():
    Geom1D([(_inexact(), q())])


def refuse_interval_high():
    Geom1D([(q(), _inexact())])


def refuse_interval_second():
    p = (q(), _inexact())
    Geom1D([p, p])


def refuse_buffer1():
    Geom1D([(q(), q())]).buffer(_inexact())


def refuse_buffer1_empty():
    Geom1D.empty().buffer(_inexact())


def refuse_buffer2():
    Geom2D.rectangle(q(), q(), q(), q()).buffer(either(nonzero_float(), nan(), inf(), ninf()))


def refuse_buffer2_empty():
    Geom2D.empty().buffer(either(nonzero_float(), nan(), inf(), ninf()))


def refuse_polygon_x():
    Geom2D.polygon([(_bad(), q()), (q(), q()), (q(), q())])


def refuse_polygon_y():
    Geom2D.polygon([(q(), q()), (q(), _bad()), (q(), q())])


def refuse_polygon_last():
    Geom2D.polygon([(q(), q()), (q(), q()), (q(), _bad())], reorient=True)


def refuse_fraction_low():
    instance(sheetplex.InterSide).make_fingers(Geom1D([(q(), q())]), _inexact(), q())


def refuse_fraction_high():
    instance(sheetplex.InterSide).make_fingers(Geom1D([(q(), q())]), q(), _inexact())


def accept_exact():
    n = tag('n', either(q(), i(), frac()))
    sink('converted', plytypes.FractionFromExact(n))
    sink('converted or inf', plytypes.FractionFromExactOrInf(n))


def accept_inf():
    sink('inf', plytypes.FractionFromExactOrInf(either(inf(), ninf())))
