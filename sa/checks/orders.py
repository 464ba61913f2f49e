"""Order types: all the relative positions a few numbers can have, for code which only compares them."""
from ..b import terms as t
from ..b.terms import T, F, Ite, Rat, rc, ra, gnot


def weak_orders(n, ok=lambda r: True):
    """All rank vectors (r_0..r_n-1) with ranks 0..m-1 all used; ok() prunes on prefixes."""
    def go(pre):
        if not ok(pre):
            return
        if len(pre) == n:
            yield pre
            return
        m = max(pre) + 1 if pre else 0
        # insert the next number at an existing rank or between ranks
        for r in range(m):
            yield from go(pre + (r,))
        for g in range(m + 1):
            yield from go(tuple(x + (x >= g) for x in pre) + (g,))
    seen = set()
    for r in go(()):
        if r not in seen:
            seen.add(r)
            yield r


def merges(n, m):
    """Order types of two strictly increasing sequences of n and m numbers."""
    def go(i, j, a, b, r):
        if i == n and j == m:
            yield tuple(a), tuple(b)
            return
        if i < n:
            yield from go(i + 1, j, a + [r], b, r + 1)
        if j < m:
            yield from go(i, j + 1, a, b + [r], r + 1)
        if i < n and j < m:
            yield from go(i + 1, j + 1, a + [r], b + [r], r + 1)
    yield from go(0, 0, [], [], 0)


class Ranks:
    """Facts: signs of differences of two ranked numbers (nothing else is known)."""

    def __init__(self):
        self.rank = {}

    def set(self, rank):
        """rank: atom (term of a number) -> position"""
        self.rank = rank

    def value(self, p):
        """Sign of a difference x - y, or None."""
        if len(p.t) != 2:
            return None
        r = 0
        cs = []
        for m, c in p.t:
            if len(m) != 1 or m[0][1] != 1:
                return None
            a = t.atom_of(m[0][0])
            if a not in self.rank:
                return None
            cs.append(c)
            r += self.rank[a] * (1 if c > 0 else -1)
        if cs[0] + cs[1] != 0:
            return None
        return r

    def __call__(self, atom):
        if atom[0] in ('lt0', 'eq0'):
            v = self.value(atom[1])
            if v is None:
                return None
            return v < 0 if atom[0] == 'lt0' else v == 0
        return None
