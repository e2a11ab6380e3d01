"""The cubed sphere, written down independently of the code: where panels, edges and coordinate axes are.

Panels 0-3 run eastward along the equator, 4 is the north cap, 5 the south cap.  A point of panel p with gnomonic
coordinates (X, Y) lies in the direction FRAME[p](1, X, Y).
"""

from fractions import Fraction

SOUTH, NORTH, WEST, EAST = range(4)

FRAME = [
    lambda c, x, y: (c, x, y),
    lambda c, x, y: (-x, c, y),
    lambda c, x, y: (-c, -x, y),
    lambda c, x, y: (x, -c, y),
    lambda c, x, y: (-y, x, c),
    lambda c, x, y: (y, x, -c),
]


def edge_xy(edge, t):
    return {SOUTH: (t, -1), NORTH: (t, 1), WEST: (-1, t), EAST: (1, t)}[edge]


def neighbour(panel, edge):
    """(panel, edge, sign): the point at parameter t of `edge` is at parameter sign*t of the neighbour's edge."""
    t = Fraction(1, 3)
    here = FRAME[panel](1, *edge_xy(edge, t))
    for q in range(6):
        if q == panel:
            continue
        for f in range(4):
            for s in (1, -1):
                if FRAME[q](1, *edge_xy(f, s * t)) == here:
                    return q, f, s
    raise AssertionError


def basis(panel, X, Y):
    """delta^3 * (dr/dx1, dr/dx2) for r = FRAME(1, X, Y)/delta, X = tan x1, Y = tan x2"""
    d2 = 1 + X * X + Y * Y
    e1 = [(1 + X * X) * c for c in FRAME[panel](-X, d2 - X * X, -X * Y)]
    e2 = [(1 + Y * Y) * c for c in FRAME[panel](-Y, -X * Y, d2 - Y * Y)]
    return e1, e2


class Tiles:
    """n x n tiles per panel; m points along each tile edge"""

    def __init__(self, n, m):
        self.n, self.m = n, m
        self.N = n * m
        self.size = 6 * n * n

    def rank(self, panel, row, col):
        return panel * self.n * self.n + row * self.n + col

    def loc(self, rank):
        p, r = divmod(rank, self.n * self.n)
        return (p,) + divmod(r, self.n)

    def across(self, rank, edge, k):
        """(rank, edge, k) of the same physical boundary point seen from the other side"""
        p, row, col = self.loc(rank)
        n, m = self.n, self.m
        opposite = {SOUTH: NORTH, NORTH: SOUTH, WEST: EAST, EAST: WEST}
        dr, dc = {SOUTH: (-1, 0), NORTH: (1, 0), WEST: (0, -1), EAST: (0, 1)}[edge]
        r2, c2 = row + dr, col + dc
        if 0 <= r2 < n and 0 <= c2 < n:
            return self.rank(p, r2, c2), opposite[edge], k
        q, f, s = neighbour(p, edge)
        g = (col if edge in (SOUTH, NORTH) else row) * m + k
        if s < 0:
            g = self.N - 1 - g
        t, k2 = divmod(g, m)
        row2, col2 = {SOUTH: (0, t), NORTH: (n - 1, t), WEST: (t, 0), EAST: (t, n - 1)}[f]
        return self.rank(q, row2, col2), f, k2

    def along(self, rank, edge, k):
        p, row, col = self.loc(rank)
        return (col if edge in (SOUTH, NORTH) else row) * self.m + k

    def on_panel_edge(self, rank, edge):
        p, row, col = self.loc(rank)
        return {SOUTH: row == 0, NORTH: row == self.n - 1, WEST: col == 0, EAST: col == self.n - 1}[edge]
