"""Tiny integer polynomials: the reference semantics of index and bound expressions."""
import itertools


class Poly:
    __slots__ = ('t',)

    def __init__(self, t=None):
        self.t = {m: c for m, c in (t or {}).items() if c}

    @classmethod
    def const(cls, c):
        return cls({(): c})

    @classmethod
    def var(cls, n):
        return cls({(n,): 1})

    def __add__(self, o):
        o = aspoly(o)
        r = dict(self.t)
        for m, c in o.t.items():
            r[m] = r.get(m, 0) + c
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-aspoly(o))

    def __mul__(self, o):
        o = aspoly(o)
        r = {}
        for (m, c), (n, d) in itertools.product(self.t.items(), o.t.items()):
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
        return Poly(r)

    __radd__ = __add__
    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def vars(self):
        return {v for m in self.t for v in m}

    def __call__(self, env):
        s = 0
        for m, c in self.t.items():
            for v in m:
                c = c * env[v]
            s = s + c
        return s

    def __repr__(self):
        return ' + '.join('*'.join([str(c)] + list(m)) for m, c in sorted(self.t.items())) or '0'


def aspoly(x):
    return x if isinstance(x, Poly) else Poly.const(x)


class Ex:
    """An index expression as written: source text plus the polynomial it denotes."""

    PREC = {'+': 1, '-': 1, '*': 2}

    def __init__(self, text, poly, prec=3):
        self.text, self.poly, self.prec = text, poly, prec

    @classmethod
    def num(cls, c):
        assert c >= 0
        return cls(str(c), Poly.const(c))

    @classmethod
    def var(cls, n):
        return cls(n, Poly.var(n))

    def bin(self, op, o, rng=None):
        p = self.PREC[op]
        l, r = self.text, o.text
        if self.prec < p or (rng is not None and rng.random() < .1):
            l = '(' + l + ')'
        if o.prec < p or (op == '-' and o.prec == p) or (rng is not None and rng.random() < .1):
            r = '(' + r + ')'
        sp = ' ' if rng is not None and rng.random() < .3 else ''
        poly = {'+': self.poly.__add__, '-': self.poly.__sub__, '*': self.poly.__mul__}[op](o.poly)
        return Ex(l + sp + op + sp + r, poly, p)

    def plus(self, c, rng=None):
        if c == 0:
            return self
        if rng is not None and c > 0 and rng.random() < .15:
            return Ex.num(c).bin('+', self, rng)
        return self.bin('+' if c > 0 else '-', Ex.num(abs(c)), rng)

    def __repr__(self):
        return self.text
