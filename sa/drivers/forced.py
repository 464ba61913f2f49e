"""A forced sanity check of an arbitrary build state (analysed, never run)."""
from _sa import instance
from plycutter import sheetbuild


def forced():
    sb = instance(sheetbuild.SheetBuild)
    sb.check(force=True)
