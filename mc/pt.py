"""Imports pytracer from /repo and offers tiny helpers shared by the checks."""
import itertools
import math
import numpy as np
np.seterr(all='ignore')
import pytracer
import pytracer.geometry as geo
import pytracer.transform as trans
from pytracer.geometry import Point, Vector, Normal, Ray, RayDifferential, BBox

INF = float('inf')


def V(a):
    return Vector(float(a[0]), float(a[1]), float(a[2]))


def Pt(a):
    return Point(float(a[0]), float(a[1]), float(a[2]))


def Nm(a):
    return Normal(float(a[0]), float(a[1]), float(a[2]))


def L(a):
    return [float(x) for x in a]


# --- boring 3-vector and 4x4 matrix arithmetic on lists (the reference side)
def add(a, b): return [x + y for x, y in zip(a, b)]
def sub(a, b): return [x - y for x, y in zip(a, b)]
def mul(a, s): return [x * s for x in a]
def dot(a, b): return sum(x * y for x, y in zip(a, b))
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def norm(a): return math.sqrt(dot(a, a))
def unit(a): return mul(a, 1. / norm(a))


def eye():
    return [[1. if i == j else 0. for j in range(4)] for i in range(4)]


def mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def mT(a):
    return [[a[j][i] for j in range(len(a))] for i in range(len(a[0]))]


def minv(a):
    n = 4
    m = [list(map(float, a[i])) + eye()[i] for i in range(n)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(m[r][c]))
        m[c], m[p] = m[p], m[c]
        d = m[c][c]
        m[c] = [x / d for x in m[c]]
        for r in range(n):
            if r != c and m[r][c] != 0.:
                f = m[r][c]
                m[r] = [x - f * y for x, y in zip(m[r], m[c])]
    return [row[n:] for row in m]


def det3(a):
    return (a[0][0]*(a[1][1]*a[2][2]-a[1][2]*a[2][1]) - a[0][1]*(a[1][0]*a[2][2]-a[1][2]*a[2][0])
            + a[0][2]*(a[1][0]*a[2][1]-a[1][1]*a[2][0]))


def m_translate(d):
    m = eye()
    for i in range(3):
        m[i][3] = float(d[i])
    return m


def m_scale(s):
    m = eye()
    for i in range(3):
        m[i][i] = float(s[i])
    return m


def m_rotate(deg, axis):
    """Rodrigues."""
    a = unit(axis)
    t = math.radians(deg)
    c, s = math.cos(t), math.sin(t)
    m = eye()
    k = [[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]]
    for i in range(3):
        for j in range(3):
            m[i][j] = (c if i == j else 0.) + (1 - c) * a[i] * a[j] + s * k[i][j]
    return m


def m_pt(m, p):
    q = [sum(m[i][j] * p[j] for j in range(3)) + m[i][3] for i in range(4)]
    return [x / q[3] for x in q[:3]] if q[3] != 1. else q[:3]


def m_vec(m, v):
    return [sum(m[i][j] * v[j] for j in range(3)) for i in range(3)]


def m_nrm(m, n):
    """normals go through the inverse transpose"""
    mi = minv(m)
    return [sum(mi[j][i] * n[j] for j in range(3)) for i in range(3)]


def grid(*axes):
    return list(itertools.product(*axes))
