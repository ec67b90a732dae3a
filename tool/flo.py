"""Exact integer polynomials with floor atoms.

fp(t) is a polynomial over atoms that equals the unsigned value of the bit-vector term t for every
input.  Bit fields and carries are floors by powers of two; nested floors of a carry chain are
flattened (floor((floor(X/a)+Y)/b) = floor((X+aY)/(ab))), multiples of the divisor are taken out, and a
floor whose argument is known to lie within one multiple is replaced by the number.  Ranges are
interval bounds, refined by replacing floor atoms by (argument - remainder)/divisor.

decide(c) is 1 or 0 if the condition holds, or fails, for every input, None if not settled."""
from fractions import Fraction
import terms as tm
from terms import T, isc, mask

LIMIT = 20000
_memo = {}
_atoms = {}
_def = {}       # atom -> (poly, k) for floors
_bnd = {}       # atom -> (lo, hi)
_bm = {}


class TooBig(Exception):
    pass


def reset():
    for d in (_memo, _atoms, _def, _bnd, _bm):
        d.clear()


def atom(key, lo, hi):
    a = _atoms.get(key)
    if a is None:
        a = len(_atoms) + 1
        _atoms[key] = a
        _bnd[a] = (lo, hi)
    return a


def add(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def scale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def mul(p, q):
    if len(p) * len(q) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def const(k):
    return {(): k} if k else {}


def interval(p):
    lo = hi = 0
    for m, c in p.items():
        l = h = 1
        for a in m:
            x, y = _bnd[a]
            # atoms may be negative
            e = (l * x, l * y, h * x, h * y)
            l, h = min(e), max(e)
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def bounds(p):
    """integer bounds of p (integer coefficients)"""
    key = frozenset(p.items())
    r = _bm.get(key)
    if r is not None:
        return r
    lo, hi = interval(p)
    q = p
    rl = rh = Fraction(0)
    while True:
        # newest floor atom of degree one
        f = [m[0] for m in q if len(m) == 1 and m[0] in _def]
        if not f:
            break
        a = max(f)
        e = q[(a,)]
        Q, k = _def[a]
        q = {m: c for m, c in q.items() if m != (a,)}
        q = add(q, {m: Fraction(c * e, 1 << k) if type(e) is int else e * c / (1 << k) for m, c in Q.items()})
        t = Fraction((1 << k) - 1, 1 << k) * e
        if e > 0:
            rl -= t
        else:
            rh -= t
        l, h = interval(q)
        l += rl
        h += rh
        l = -((-l.numerator) // l.denominator) if type(l) is Fraction else l
        h = h.numerator // h.denominator if type(h) is Fraction else h
        lo = max(lo, l)
        hi = min(hi, h)
    _bm[key] = (lo, hi)
    return lo, hi


def tz(c):
    return (c & -c).bit_length() - 1


def floor(p, k):
    if k == 0 or not p:
        return p
    M = 1 << k
    out = {}
    r = {}
    for m, c in p.items():
        if c % M == 0:
            out[m] = c // M
        elif not m:
            q = c // M
            if q:
                out[m] = q
            r[m] = c - q * M
        else:
            q = (c + M // 2) // M
            if q:
                out[m] = q
            r[m] = c - q * M
    if not r:
        return out
    g = min(tz(c) for c in r.values())
    if g:
        return add(out, floor({m: c >> g for m, c in r.items()}, k - g))
    f = [m[0] for m, c in r.items() if len(m) == 1 and c == 1 and m[0] in _def]
    if f:
        a = max(f)
        Q, j = _def[a]
        rest = {m: c << j for m, c in r.items() if m != (a,)}
        return add(out, floor(add(Q, rest), k + j))
    lo, hi = bounds(r)
    if lo >> k == hi >> k:
        return add(out, const(lo >> k))
    a = atom((frozenset(r.items()), k), lo >> k, hi >> k)
    _def[a] = (r, k)
    return add(out, {(a,): 1})


def wrap(p, w):
    lo, hi = bounds(p)
    if lo >= 0 and hi < (1 << w):
        return p
    return add(p, floor(p, w), -(1 << w))


def fp(t):
    if isc(t):
        return const(t)
    st = [t]
    while st:
        x = st[-1]
        if x.id in _memo:
            st.pop()
            continue
        todo = [y for y in deps(x) if type(y) is T and y.id not in _memo]
        if todo:
            st += todo
            continue
        st.pop()
        _memo[x.id] = _fp(x)
    return _memo[t.id]


def deps(x):
    o = x.op
    if o in ('add', 'sub', 'mul'):
        return x.a
    if o in ('zext', 'extract'):
        return x.a[:1]
    if o == 'concat':
        return x.a[:2]
    if o in ('shl', 'lshr', 'udiv', 'urem') and isc(x.a[1]):
        return x.a[:1]
    return ()


def _fp(t):
    o, w, a = t.op, t.w, t.a
    if o == 'add':
        return wrap(add(fp(a[0]), fp(a[1])), w)
    if o == 'sub':
        if bounds(fp(a[0]))[0] >= bounds(fp(a[1]))[1]:
            return add(fp(a[0]), fp(a[1]), -1)
        return wrap(add(fp(a[0]), fp(a[1]), -1), w)
    if o == 'mul':
        return wrap(mul(fp(a[0]), fp(a[1])), w)
    if o == 'zext':
        return fp(a[0])
    if o == 'concat':
        return add(scale(fp(a[0]), 1 << a[3]), fp(a[1]))
    if o == 'extract':
        p = fp(a[0])
        return add(floor(p, a[2]), floor(p, a[1] + 1), -(1 << (a[1] - a[2] + 1)))
    if o == 'shl' and isc(a[1]):
        return wrap(scale(fp(a[0]), 1 << a[1]), w) if a[1] < w else {}
    if o == 'lshr' and isc(a[1]):
        return floor(fp(a[0]), a[1])
    if o == 'var' and w > 30:
        return {(atom(('lo', t.id), 0, (1 << 30) - 1),): 1, (atom(('hi', t.id), 0, mask(w) >> 30),): 1 << 30}
    return {(atom(('t', t.id), 0, min(mask(w), tm.ub(t))),): 1}


def decide(c):
    try:
        return _dec(c)
    except TooBig:
        return None


def _dec(c):
    if isc(c):
        return 1 if c else 0
    o = c.op
    if o == 'not':
        r = _dec(c.a[0])
        return None if r is None else 1 - r
    if o == 'and' and c.w == 1:
        x, y = _dec(c.a[0]), _dec(c.a[1])
        if x == 0 or y == 0:
            return 0
        return 1 if x == 1 and y == 1 else None
    if o == 'or' and c.w == 1:
        x, y = _dec(c.a[0]), _dec(c.a[1])
        if x == 1 or y == 1:
            return 1
        return 0 if x == 0 and y == 0 else None
    if o == 'eq':
        x, y, w = c.a[0], c.a[1], c.a[2]
        if isc(y) and type(x) is T and x.op == 'urem' and isc(x.a[1]) and y == 0:
            p = fp(x.a[0])
            return 1 if all(k % x.a[1] == 0 for k in p.values()) else None
        d = add(fp(x), fp(y), -1)
        if not d:
            return 1
        lo, hi = bounds(d)
        if lo == hi == 0:
            return 1
        if lo > 0 or hi < 0:
            return 0
        if all(k % (1 << w) == 0 for k in d.values()) and lo > -(1 << w) and hi < 1 << w:
            return 1
        return None
    if o in ('ult', 'ule'):
        d = add(fp(c.a[0]), fp(c.a[1]), -1)
        lo, hi = bounds(d) if d else (0, 0)
        if o == 'ult':
            return 1 if hi < 0 else 0 if lo >= 0 else None
        return 1 if hi <= 0 else 0 if lo > 0 else None
    return None
