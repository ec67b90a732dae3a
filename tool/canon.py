"""Canonical forms for word-level code (hash functions): sums modulo 2^w are linear forms, bitwise operations on up to
eight operands are truth tables, everything else is opaque.  Equal canonical forms mean equal values; nothing follows
from different ones."""
import terms as tm
from terms import T, isc, mask

_intern = {}
_rep = []
_memo = {}
LEAVES = 8


def reset():
    _intern.clear()
    _memo.clear()
    del _rep[:]


def _id(k):
    i = _intern.get(k)
    if i is None:
        i = _intern[k] = len(_rep)
        _rep.append(k)
    return i


def _lin(w, k, atoms):
    """canonical id of k + sum coef*atom"""
    if not atoms:
        return _id(('c', w, k))
    if k == 0 and len(atoms) == 1 and next(iter(atoms.items()))[1] == 1:
        return next(iter(atoms))
    if len(atoms) == 1 and k == mask(w):
        (a, c), = atoms.items()
        if c == mask(w):
            return _tt(w, (a,), 0b01)
    return _id(('lin', w, k, frozenset(atoms.items())))


def _aslin(w, i):
    r = _rep[i]
    if r[0] == 'c':
        return r[2], {}
    if r[0] == 'lin':
        return r[2], dict(r[3])
    if r[0] == 'tt' and len(r[2]) == 1 and r[3] == 0b01:
        k, d = _aslin(w, r[2][0])
        return (mask(w) - k) & mask(w), {a: -c & mask(w) for a, c in d.items()}
    return 0, {i: 1}


def _tt(w, leaves, t):
    """truth table t over leaves (bit number = assignment, leaf 0 lowest), reduced to its support and sorted"""
    ls = list(leaves)
    k = 0
    while k < len(ls):
        n = len(ls)
        lo = hi = 0
        j0 = j1 = 0
        for x in range(1 << n):
            b = t >> x & 1
            if x >> k & 1:
                hi |= b << j1
                j1 += 1
            else:
                lo |= b << j0
                j0 += 1
        if lo == hi:
            t = lo
            del ls[k]
        else:
            k += 1
    n = len(ls)
    if n == 0:
        return _id(('c', w, mask(w) if t else 0))
    if n == 1 and t == 0b10:
        return ls[0]
    order = sorted(range(n), key=lambda q: ls[q])
    u = 0
    for x in range(1 << n):
        y = 0
        for p, q in enumerate(order):
            if x >> q & 1:
                y |= 1 << p
        u |= (t >> x & 1) << y
    return _id(('tt', w, tuple(ls[q] for q in order), u))


def _astt(w, i):
    r = _rep[i]
    if r[0] == 'tt':
        return r[2], r[3]
    if r[0] == 'c' and r[2] in (0, mask(w)):
        return (), 1 if r[2] else 0
    if r[0] == 'lin':
        # the complement -1-x shares the leaf of x
        n = _id(('lin', w, (mask(w) - r[2]) & mask(w), frozenset((a, -c & mask(w)) for a, c in r[3])))
        if n < i:
            return (n,), 0b01
    return (i,), 0b10


def _bit(w, op, x, y):
    (lx, tx), (ly, ty) = _astt(w, x), _astt(w, y)
    ls = list(lx) + [l for l in ly if l not in lx]
    if len(ls) > LEAVES:
        (lx, tx), (ly, ty) = ((x,), 0b10), ((y,), 0b10)
        ls = [x] if x == y else [x, y]
    px, py = [ls.index(l) for l in lx], [ls.index(l) for l in ly]
    t = 0
    for s in range(1 << len(ls)):
        ix = sum((s >> p & 1) << k for k, p in enumerate(px))
        iy = sum((s >> p & 1) << k for k, p in enumerate(py))
        a, b = tx >> ix & 1, ty >> iy & 1
        t |= (a & b if op == 'and' else a | b if op == 'or' else a ^ b) << s
    return _tt(w, ls, t)


def canon(t, w):
    if isc(t):
        return _id(('c', w, t & mask(w)))
    r = _memo.get(t.id)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _memo:
            stack.pop()
            continue
        todo = [y for y in x.a if type(y) is T and y.id not in _memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        _memo[x.id] = _one(x)
    return _memo[t.id]


def _one(x):
    o, w, a = x.op, x.w, x.a

    def g(y, v=w):
        return _memo[y.id] if type(y) is T else _id(('c', v, y & mask(v)))
    if o in ('add', 'sub'):
        k, d = _aslin(w, g(a[0]))
        d = dict(d)
        k2, d2 = _aslin(w, g(a[1]))
        s = 1 if o == 'add' else -1
        for q, c in d2.items():
            v = (d.get(q, 0) + s * c) & mask(w)
            if v:
                d[q] = v
            else:
                d.pop(q, None)
        return _lin(w, (k + s * k2) & mask(w), d)
    if o == 'mul' and isc(a[1]):
        k, d = _aslin(w, g(a[0]))
        return _lin(w, k * a[1] & mask(w), {q: c * a[1] & mask(w) for q, c in d.items() if c * a[1] & mask(w)})
    if o in ('and', 'or', 'xor'):
        return _bit(w, o, g(a[0]), g(a[1]))
    if o == 'not':
        return _bit(w, 'xor', g(a[0]), _id(('c', w, mask(w))))
    return _id((o, w) + tuple(('t', _memo[y.id]) if type(y) is T else y for y in a))


def equal(w, a, b):
    return canon(a, w) == canon(b, w)
