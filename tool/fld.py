"""Rational functions over GF(p), p the secp256k1 field prime: exact normal forms for field arithmetic.
A polynomial is {monomial: coefficient}, a monomial a sorted tuple of (atom, exponent)."""
P = 2**256 - 2**32 - 977


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = (r.get(m, 0) + s * c) % P
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mmul(a, b):
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = (r.get(k, 0) + c * d) % P
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): 1}


class Fld:
    """handle table; the facts (atoms and polynomials that are not zero, squares that are known) belong to a path"""
    def __init__(self):
        self.t, self.nz, self.sq, self.na = [], (), {}, 0

    def new(self, n, d):
        if not n:
            d = ONE
        self.t.append((n, d))
        return len(self.t) - 1

    def red(self, p):
        """known squares replaced"""
        again = True
        while again:
            again = False
            for m in list(p):
                for (x, e) in m:
                    if e >= 2 and x in self.sq:
                        c = p.pop(m)
                        rest = tuple((y, f) for (y, f) in m if y != x) + (((x, e - 2),) if e > 2 else ())
                        p = padd(p, pmul({tuple(sorted(rest)): c}, self.sq[x]))
                        again = True
                        break
                if again:
                    break
        return p

    def zero(self, n):
        return not self.red(dict(n))

    def atoms_nz(self, m):
        return all({((x, 1),): 1} in self.nz for (x, e) in m)

    def nonzero(self, n):
        n = self.red(dict(n))
        if len(n) == 1:
            (m, c), = n.items()
            return self.atoms_nz(m)
        for q in self.nz:
            q = self.red(dict(q))
            if len(q) != len(n):
                continue
            m = next(iter(q))
            if m in n:
                k = n[m] * pow(q[m], -1, P) % P
                if all(n.get(x) == c * k % P for x, c in q.items()):
                    return True
        return False

    def op(self, o, a, b):
        if o == 0:
            return self.new({(): a % P} if a % P else {}, ONE)
        if o == 1:
            self.na += 1
            return self.new({((self.na, 1),): 1}, ONE)
        n, d = self.t[a]
        if o == 5:
            if not self.nonzero(n):
                return 2**32 - 1
            return self.new(d, n)
        if o == 7:
            return 0 if self.zero(n) else 1 if self.nonzero(n) else 2
        if o == 8:
            self.nz = self.nz + (n,)
            return 0
        m, e = self.t[b]
        if o == 9:
            ((x, _),), = n.keys()
            assert d == ONE and e == ONE
            self.sq = dict(self.sq)
            self.sq[x] = m
            return 0
        if o == 4:
            return self.new(pmul(n, m), pmul(d, e))
        if d == e:
            x, y, q = n, m, d
        else:
            x, y, q = pmul(n, e), pmul(m, d), pmul(d, e)
        if o == 2:
            return self.new(padd(x, y), q)
        if o == 3:
            return self.new(padd(x, y, -1), q)
        if o == 6:
            return 1 if self.zero(padd(x, y, -1)) else 0
        raise ValueError(o)
