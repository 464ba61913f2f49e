"""What library users call besides the command line (analysed, never run)."""
from _sa import q, i, several, text, flag, instance
from plycutter import sheetbuild, sheetplex, heuristics, canned, create_sheetplex, command_line
from plycutter.geometry.geom1d import Geom1D
from plycutter.geometry.geom2d import Geom2D


def _g1():
    return Geom1D(several((q(), q())))


def _g2():
    return Geom2D.rectangle(q(), q(), q(), q())


def build_state():
    sb = instance(sheetbuild.SheetBuild)
    sb = sb.choose_interside(text(), _g1())
    sb = sb.unchoose_interside(text(), _g1())
    sb.check()
    sb.check(force=True)


def model():
    sp = instance(sheetplex.SheetPlex)
    sp.limit([text()])
    side = instance(sheetplex.InterSide)
    side.opposite(sp)


def pipeline():
    sp = instance(sheetplex.SheetPlex)
    canned.canned_1(sp, {'return_on_failure': True, 'min_finger_width': q(), 'max_finger_width': q(), 'random_seed': i(),
                         'support_radius': q(), 'thickness': q(), 'final_dilation': q()}, show=True)
