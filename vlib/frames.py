"""Rational rotation matrices (exact orthonormal frames) for harnesses."""
from fractions import Fraction as F


def rot(w, x, y, z):
    """rows: three orthonormal rational vectors (unit quaternion w,x,y,z / norm)"""
    n = F(w * w + x * x + y * y + z * z)
    m = [[w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y)],
         [2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x)],
         [2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]]
    return [[F(v) / n for v in r] for r in m]


def conv(H, v):
    return tuple(H.q(f.numerator, f.denominator) for f in v)


FRAMES = [rot(1, 0, 0, 0), rot(1, 1, 0, 0), rot(1, 0, -1, 0), rot(1, 2, 0, 0), rot(1, 1, 2, 0), rot(1, 2, 3, -1), rot(3, -1, 0, 2)]
