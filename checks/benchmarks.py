"""The published formulas, domains and minima of the benchmark functions."""
import math

import numpy as np

from symx import core


class Maths:
    """sin, cos, exp, sqrt, |.| and powers, symbolic or not"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.pi = np.pi

    def _f(self, name, x):
        if self.ctx.sym:
            return getattr(core, "s_" + name)(x)
        return getattr(math, name)(float(x))

    def sin(self, x):
        return self._f("sin", x)

    def cos(self, x):
        return self._f("cos", x)

    def exp(self, x):
        return self._f("exp", x)

    def sqrt(self, x):
        return self._f("sqrt", x)

    def abs(self, x):
        return core.s_abs(x) if self.ctx.sym else abs(float(x))

    def pow(self, x, p):
        return core.s_pow(x, p) if self.ctx.sym else float(x) ** p


def ackley(m, *x):
    d = len(x)
    return (20 + m.exp(1) - 20 * m.exp(-0.2 * m.sqrt(sum(v * v for v in x) / d))
            - m.exp(sum(m.cos(2 * m.pi * v) for v in x) / d))


def beale(m, x, y):
    a, b, c = 1.5 - x + x * y, 2.25 - x + x * y * y, 2.625 - x + x * y * y * y
    return a * a + b * b + c * c


def booth(m, x, y):
    a, b = x + 2 * y - 7, 2 * x + y - 5
    return a * a + b * b


def bukin6(m, x, y):
    return 100 * m.sqrt(m.abs(y - x * x / 100)) + m.abs(x + 10) / 100


def crossintray(m, x, y):
    e = m.exp(m.abs(100 - m.sqrt(x * x + y * y) / m.pi))
    return m.pow(m.abs(m.sin(x) * m.sin(y) * e) + 1, 0.1) * -0.0001


def easom(m, x, y):
    return -(m.cos(x) * m.cos(y) * m.exp(-((x - m.pi) * (x - m.pi) + (y - m.pi) * (y - m.pi))))


def eggholder(m, x, y):
    return -(y + 47) * m.sin(m.sqrt(m.abs(x / 2 + y + 47))) - x * m.sin(m.sqrt(m.abs(x - y - 47)))


def goldstein(m, x, y):
    s, t = x + y + 1, 2 * x - 3 * y
    a = 1 + s * s * (19 - 14 * x + 3 * x * x - 14 * y + 6 * x * y + 3 * y * y)
    b = 30 + t * t * (18 - 32 * x + 12 * x * x + 48 * y - 36 * x * y + 27 * y * y)
    return a * b


def himmelblau(m, x, y):
    a, b = x * x + y - 11, x + y * y - 7
    return a * a + b * b


def holdertable(m, x, y):
    return -m.abs(m.sin(x) * m.cos(y) * m.exp(m.abs(1 - m.sqrt(x * x + y * y) / m.pi)))


def levi(m, x, y):
    u, v = 1 + (x - 1) / 4, 1 + (y - 1) / 4
    a, b, c = m.sin(m.pi * u), m.sin(m.pi * u + 1), m.sin(2 * m.pi * v)
    return a * a + (x - 1) * (x - 1) * (1 + 10 * b * b) + (v - 1) * (v - 1) * (1 + c * c)


def matyas(m, x, y):
    return 0.26 * (x * x + y * y) - 0.48 * x * y


def rastrigin(m, *x):
    return 10 * len(x) + sum(v * v - 10 * m.cos(2 * m.pi * v) for v in x)


def rosenbrock(m, *x):
    r = 0.0
    for a, b in zip(x, x[1:]):
        r = r + 100 * (b - a * a) * (b - a * a) + (1 - a) * (1 - a)
    return r


def schaffer2(m, x, y):
    s = m.sin(x * x - y * y)
    q = 1 + 0.001 * (x * x + y * y)
    return 0.5 + (s * s - 0.5) / (q * q)


def sphere(m, *x):
    return sum(v * v for v in x)


def threehump(m, x, y):
    x2 = x * x
    return 2 * x2 - 1.05 * (x2 * x2) + x2 * x2 * x2 / 6 + x * y + y * y


FORMULAS = {f.__name__: f for f in (ackley, beale, booth, bukin6, crossintray, easom, eggholder, goldstein, himmelblau,
                                    holdertable, levi, matyas, rastrigin, rosenbrock, schaffer2, sphere, threehump)}
# limits per coordinate (one pair: the same for all); None: unbounded
DOMAINS = {"ackley": (-32, 32), "beale": (-4.5, 4.5), "booth": (-10, 10), "bukin6": ((-15, -5), (-3, 3)),
           "crossintray": (-10, 10), "easom": (-100, 100), "eggholder": (-512, 512), "goldstein": (-2, 2),
           "himmelblau": (-5, 5), "holdertable": (-10, 10), "levi": (-10, 10), "matyas": (-10, 10),
           "rastrigin": (-5.12, 5.12), "rosenbrock": None, "schaffer2": (-100, 100), "sphere": None,
           "threehump": (-5, 5)}
FREE = ("ackley", "rastrigin", "rosenbrock", "sphere")   # any number of columns


def limits(name, d):
    """(low, high) of every column, None when unbounded"""
    dom = DOMAINS[name]
    if dom is None:
        return None
    return list(dom) if isinstance(dom[0], tuple) else [dom] * d


# documented minimisers (per dimension count) and minimum values, with the accuracy of the documentation
MINIMA = {"ackley": ([lambda d: [0.0] * d], 0.0, 1e-6), "beale": ([[3.0, 0.5]], 0.0, 1e-6), "booth": ([[1.0, 3.0]], 0.0, 1e-6),
          "bukin6": ([[-10.0, 1.0]], 0.0, 1e-6),
          "crossintray": ([[s * 1.34941, t * 1.34941] for s in (1, -1) for t in (1, -1)], -2.06261, 1e-5),
          "easom": ([[math.pi, math.pi]], -1.0, 1e-6), "eggholder": ([[512.0, 404.2319]], -959.6407, 1e-4),
          "goldstein": ([[0.0, -1.0]], 3.0, 1e-6),
          "himmelblau": ([[3.0, 2.0], [-2.805118, 3.131312], [-3.779310, -3.283186], [3.584428, -1.848126]], 0.0, 1e-8),
          "holdertable": ([[s * 8.05502, t * 9.66459] for s in (1, -1) for t in (1, -1)], -19.2085, 1e-4),
          "levi": ([[1.0, 1.0]], 0.0, 1e-6), "matyas": ([[0.0, 0.0]], 0.0, 1e-6),
          "rastrigin": ([lambda d: [0.0] * d], 0.0, 1e-6), "rosenbrock": ([lambda d: [1.0] * d], 0.0, 1e-6),
          "schaffer2": ([[0.0, 0.0]], 0.0, 1e-6), "sphere": ([lambda d: [0.0] * d], 0.0, 1e-6),
          "threehump": ([[0.0, 0.0]], 0.0, 1e-6)}
