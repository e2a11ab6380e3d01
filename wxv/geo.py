"""Building the real geometry objects of one tile, and an independent description of the rotated cubed sphere."""

import math

from .check import np
from . import cube, symnp, sym


class Topo:
    """what the geometry needs to know about a tile"""

    def __init__(self, panel, n=1, row=0, col=0):
        self.my_panel, self.num_lines_per_panel, self.my_row, self.my_col = panel, n, row, col
        self.size = 6 * n * n
        self.num_pe_per_panel = n * n
        self.rank = panel * n * n + row * n + col


class Param:
    def __init__(self, **k):
        self.__dict__.update(k)


class Device:
    def __init__(self):
        import numpy

        self.xp = numpy
        self.comm = None

    def synchronize(self, **k):
        pass

    def array(self, a, *args, **k):
        return a

    def to_host(self, a):
        return a


def cos_sin(x):
    """(cos x, sin x) of a number or a symbolic value, opaque for numbers only under opaque_trig"""
    return math.cos(x), math.sin(x)


def rotation(lambda0, phi0, alpha0):
    """Rotation matrix of the grid: panel 0 is centred on (lambda0, phi0), its axes turned by alpha0 from east/north"""
    c1, s1 = cos_sin(lambda0)
    c2, s2 = cos_sin(phi0)
    c3, s3 = cos_sin(alpha0)
    centre = [c1 * c2, s1 * c2, s2]
    east = [-s1, c1, 0.0 * s1]
    north = [-c1 * s2, -s1 * s2, c2]
    ex = [c3 * e - s3 * n for e, n in zip(east, north)]
    ey = [s3 * e + c3 * n for e, n in zip(east, north)]
    return centre, ex, ey


def panel_frame(panel, lambda0, phi0, alpha0):
    """(centre, x direction, y direction) of a panel, as 3 Cartesian vectors, for a rotated grid"""
    M = rotation(lambda0, phi0, alpha0)  # images of the unrotated x, y, z axes
    out = []
    for v in (cube.FRAME[panel](1, 0, 0), cube.FRAME[panel](0, 1, 0), cube.FRAME[panel](0, 0, 1)):
        out.append([sum(float(v[k]) * M[k][i] for k in range(3) if v[k]) for i in range(3)])
    return out


def embedding(frame, X, Y):
    """position on the unit sphere and its first and second derivatives w.r.t. the equiangular coordinates"""
    e0, e1, e2 = frame
    P = [e0[i] + X * e1[i] + Y * e2[i] for i in range(3)]
    d2 = 1.0 + X * X + Y * Y
    d = np.sqrt(d2)
    d3, d5 = d2 * d, d2 * d2 * d
    A, B = 1.0 + X * X, 1.0 + Y * Y
    r = [P[i] / d for i in range(3)]
    rX = [e1[i] / d - X * P[i] / d3 for i in range(3)]
    rY = [e2[i] / d - Y * P[i] / d3 for i in range(3)]
    rXX = [-2.0 * X * e1[i] / d3 - P[i] / d3 + 3.0 * X * X * P[i] / d5 for i in range(3)]
    rYY = [-2.0 * Y * e2[i] / d3 - P[i] / d3 + 3.0 * Y * Y * P[i] / d5 for i in range(3)]
    rXY = [-Y * e1[i] / d3 - X * e2[i] / d3 + 3.0 * X * Y * P[i] / d5 for i in range(3)]
    r1 = [A * v for v in rX]
    r2 = [B * v for v in rY]
    r11 = [A * A * a + 2.0 * X * A * b for a, b in zip(rXX, rX)]
    r22 = [B * B * a + 2.0 * Y * B * b for a, b in zip(rYY, rY)]
    r12 = [A * B * a for a in rXY]
    return r, (r1, r2), ((r11, r12), (r12, r22))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def triple(a, b, c):
    """a . (b x c)"""
    return (
        a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0])
    )
