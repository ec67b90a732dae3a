"""Integer-polynomial normal form of bit-vector terms.

poly(t) is a polynomial over 'atoms' that equals the unsigned value of t exactly, for every
assignment: additions and multiplications that may wrap get an explicit carry atom, bit
fields are x>>k atoms.  Two terms whose difference normalises to 0 (mod 2^w, or mod a given
number) are equal (congruent) for every input."""
import terms as tm
from math import gcd
from terms import T, isc, mask

_memo = {}
_atoms = {}
_bounds = {}     # atom -> (lo, hi)


class TooBig(Exception):
    pass


LIMIT = 60000


def reset():
    _memo.clear()
    _atoms.clear()
    _bounds.clear()


def atom(key, lo, hi):
    a = _atoms.get(key)
    if a is None:
        a = len(_atoms) + 1
        _atoms[key] = a
        _bounds[a] = (lo, hi)
    return a


def padd(p, q, k=1):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig()
    return r


def pscale(p, k):
    return {m: c * k for m, c in p.items()} if k else {}


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 4:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c}


def const(k):
    return {(): k} if k else {}


def bounds(p):
    lo = hi = 0
    for m, c in p.items():
        l = h = 1
        for a in m:
            x, y = _bounds[a]
            l, h = l * x, h * y          # atoms are non-negative
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


def wrap(key, p, w, tlo=None, thi=None):
    """exact value of p mod 2^w; tlo/thi: further bounds of the unwrapped value"""
    lo, hi = bounds(p)
    if tlo is not None:
        lo = max(lo, tlo)
    if thi is not None:
        hi = min(hi, thi)
    if lo >= 0 and hi < (1 << w):
        return p
    qlo, qhi = lo >> w, hi >> w
    # quotient atom shifted to be non-negative: q = qlo + a
    a = atom(('carry',) + key, 0, qhi - qlo)
    r = padd(p, {(a,): 1 << w}, -1)
    return padd(r, const(qlo << w), -1)


def poly(t):
    if isc(t):
        return const(t)
    r = _memo.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _memo:
            st.pop()
            continue
        todo = [y for y in deps(x) if type(y) is T and y.id not in _memo]
        if todo:
            st += todo
            continue
        st.pop()
        _memo[x.id] = _poly(x)
    return _memo[t.id]


def deps(x):
    o = x.op
    if o in ('add', 'sub', 'mul'):
        return x.a
    if o == 'zext':
        return x.a[:1]
    if o == 'concat':
        return x.a[:2]
    if o == 'extract':
        return [x.a[0]] if x.a[2] == 0 else []
    if o in ('udiv', 'urem') and isc(x.a[1]):
        return x.a[:1]
    if o == 'shl' or o == 'lshr':
        return ()
    if o == 'ite':
        return x.a[1:] if False else ()
    return ()


def term_bounds(t):
    return 0, tm.ub(t)


def shr(x, k):
    """polynomial of the field x >> k (x: term of width x.w)"""
    if k == 0:
        return poly(x)
    if k >= x.w:
        return {}
    hi = tm.ub(x) >> k
    p = _memo.get(x.id)
    if p is not None:
        hi = min(hi, bounds(p)[1] >> k)
    if hi == 0:
        return {}
    return {(atom(('shr', x.id, k), 0, hi),): 1}


def _poly(t):
    o, w, a = t.op, t.w, t.a
    if o == 'add':
        return wrap((t.id,), padd(poly(a[0]), poly(a[1])), w, 0, tm.ub(a[0]) + tm.ub(a[1]))
    if o == 'sub':
        return wrap((t.id,), padd(poly(a[0]), poly(a[1]), -1), w, -tm.ub(a[1]), tm.ub(a[0]))
    if o == 'mul':
        return wrap((t.id,), pmul(poly(a[0]), poly(a[1])), w, 0, tm.ub(a[0]) * tm.ub(a[1]))
    if o == 'zext':
        return poly(a[0])
    if o == 'concat':
        return padd(pscale(poly(a[0]), 1 << a[3]), poly(a[1]))
    if o == 'extract':
        x, hi, lo = a[0], a[1], a[2]
        if lo == 0:
            p = poly(x)
        else:
            p = shr(x, lo)
        q = shr(x, hi + 1)
        if not q:
            return p
        return padd(p, q, -(1 << (hi - lo + 1)))
    if o == 'udiv' and isc(a[1]) and a[1]:
        lo, hi = bounds(poly(a[0]))
        hi = min(hi, tm.ub(a[0]))
        if hi < a[1]:
            return {}
        return {(atom(('udiv', id0(a[0]), a[1]), 0, hi // a[1]),): 1}
    if o == 'urem' and isc(a[1]) and a[1]:
        x = a[0]
        lo, hi = bounds(poly(x))
        hi = min(hi, tm.ub(x))
        if hi < a[1]:
            return poly(x)
        q = {(atom(('udiv', id0(x), a[1]), 0, hi // a[1]),): 1}
        return padd(poly(x), q, -a[1])
    if o == 'tbl':
        vals = a[1:]
        v0 = min(vals)
        g = 0
        for v in vals:
            g = gcd(g, v - v0)
        key = tuple((v - v0) // g for v in vals)
        return padd({(atom(('tbl', a[0].id, key), 0, max(key)),): g}, const(v0))
    return {(atom(('t', t.id), 0, min(mask(w), tm.ub(t))),): 1}


def id0(x):
    # identify quotients by the numerator's integer value, not its width
    while type(x) is T and x.op == 'zext':
        x = x.a[0]
    return x.id if type(x) is T else ('c', x)


def relations(pc):
    """linear facts (poly == 0) from equalities on the path"""
    out = []
    for c in pc:
        n = False
        if c.op == 'not':
            c = c.a[0]
            n = True
        if c.op == 'eq' and not n:
            w, x, y = c.a[2], c.a[0], c.a[1]
        elif n and c.w == 1 and c.op not in ('eq', 'ult', 'ule', 'slt', 'sle', 'and', 'or'):
            w, x, y = 1, c, 0
        else:
            continue
        try:
            p = padd(poly(x), poly(y), -1)
        except TooBig:
            continue
        if p and all(len(m) <= 1 for m in p):
            out.append(p)
    return out


def reduce(d, rels):
    """eliminate atoms with coefficient +-1 using the relations"""
    work = list(rels)
    for i in range(len(work)):
        r = work[i]
        piv = None
        for m, c in r.items():
            if m and abs(c) == 1:
                if piv is None or m > piv:
                    piv = m
        if piv is None:
            continue
        c = r[piv]
        # piv = -(r - c*piv)/c
        sub = pscale({m: k for m, k in r.items() if m != piv}, -c)

        def ap(p):
            out = {}
            for m, k in p.items():
                n = m.count(piv[0])
                if not n:
                    out = padd(out, {m: k})
                else:
                    rest = tuple(x for x in m if x != piv[0])
                    q = {rest: k}
                    for _ in range(n):
                        q = pmul(q, sub)
                    out = padd(out, q)
            return out
        d = ap(d)
        for j in range(i + 1, len(work)):
            if any(piv[0] in m for m in work[j]):
                work[j] = ap(work[j])
        if not d:
            break
    return d


def equal(w, a, b, pc=()):
    """a == b for every input on the path pc (sufficient test)"""
    try:
        pa, pb = poly(a), poly(b)
        d = padd(pa, pb, -1)
        m = 1 << w

        def done(d):
            if all(c % m == 0 for c in d.values()):
                return True
            # values are >= 0: a - b = c*Q with Q >= 0 and c > a  =>  Q = 0
            if len(d) == 1:
                (mo, c), = d.items()
                big = tm.ub(a) if c > 0 else tm.ub(b)
                if mo and abs(c) > big:
                    return True
            return False
        if done(d):
            return True
        rels = relations(pc)
        if rels:
            d = reduce(d, rels)
            return done(d)
    except TooBig:
        pass
    return False


def congruent(a, b, m):
    """a == b (mod m) for every input"""
    try:
        d = padd(poly(a), poly(b), -1)
    except TooBig:
        return False
    return all(c % m == 0 for c in d.values())
