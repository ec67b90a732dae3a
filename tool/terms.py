"""Hash-consed bit-vector terms with local simplification, concrete evaluation and z3 export."""
import random


class T:
    __slots__ = ('op', 'w', 'a', 'id', 'h', '_z')

    def __repr__(self):
        return show(self, 4)


_tab = {}
PUSH = [True]     # low bits of a sum as a sum of low bits
_n = [0]


def reset():
    _tab.clear()


_FOLD = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'not', 'zext', 'sext', 'extract', 'ite', 'eq', 'ult', 'ule', 'slt', 'sle', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'concat'}


def _fold(op, w, a):
    """an operator applied to table look-ups of one index is a table look-up of that index"""
    i = None
    for x in a:
        if type(x) is T and x.op == 'zext' and type(x.a[0]) is T and op != 'zext':
            x = x.a[0]
        if type(x) is T and x.op == 'tbl':
            i = x.a[0]
            n = len(x.a) - 1
            break
    if i is None or n > 256:
        return None
    for x in a:
        if type(x) is T:
            if x.op == 'zext' and type(x.a[0]) is T and x.a[0].op == 'tbl':
                x = x.a[0]
            if x.op == 'tbl' and x.a[0] is i and len(x.a) - 1 == n:
                continue
            if x is i or (x.op == 'zext' and x.a[0] is i):
                continue
            return None
    t = T()
    t.op, t.w, t.a, t.id = op, w, a, -1
    vals = []
    for k in range(n):
        vals.append(_ev(t, lambda x: x if type(x) is not T else (x.a[1 + k] if x.op == 'tbl' else x.a[0].a[1 + k] if x.op == 'zext' and x.a[0].op == 'tbl' else k), None))
    return tbl(w, i, tuple(vals))


def _mk(op, w, a):
    if op in _FOLD and not (op == 'zext' and a[1] == 1):
        t = _fold(op, w, a)
        if t is not None:
            return t
    k = (op, w) + tuple((x.id, None) if type(x) is T else x for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        _n[0] += 1
        t.id = _n[0]
        t._z = None
        _tab[k] = t
    return t


def show(t, d=6):
    if type(t) is not T:
        return hex(t) if isinstance(t, int) else repr(t)
    if t.op == 'var':
        return str(t.a[0])
    if d == 0:
        return '..'
    return '(%s%d %s)' % (t.op, t.w, ' '.join(show(x, d - 1) for x in t.a))


_fresh = [0]


def var(w, name='v'):
    _fresh[0] += 1
    return _mk('var', w, ('%s!%d' % (name, _fresh[0]),))


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


def isc(x):
    return type(x) is not T


# ------------------------------------------------------------------ constructors
def add(w, a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return (a + b) & mask(w)
        b &= mask(w)
        if b == 0:
            return a
        if a.op == 'add' and isc(a.a[1]):
            return add(w, a.a[0], (a.a[1] + b) & mask(w))
        c = join(w, a, b)
        if c is not None:
            return c
        return _mk('add', w, (a, b))
    c = join(w, a, b)
    if c is not None:
        return c
    # constants to the right
    if a.op == 'add' and isc(a.a[1]):
        return add(w, add(w, a.a[0], b), a.a[1])
    if b.op == 'add' and isc(b.a[1]):
        return add(w, add(w, a, b.a[0]), b.a[1])
    if a.id > b.id:
        a, b = b, a
    return _mk('add', w, (a, b))


def neg(w, a):
    return sub(w, 0, a)


def sub(w, a, b):
    if isc(b):
        return add(w, a, (-b) & mask(w))
    if a is b:
        return 0
    if not isc(a) and a.op == 'add':
        if a.a[0] is b:
            return a.a[1]
        if a.a[1] is b:
            return a.a[0]
    if isc(a):
        a &= mask(w)
    if not isc(a) and a.op == 'add' and isc(a.a[1]):
        return add(w, sub(w, a.a[0], b), a.a[1])
    if b.op == 'add' and isc(b.a[1]):
        return add(w, sub(w, a, b.a[0]), (-b.a[1]) & mask(w))
    if b.op == 'sub' and isc(b.a[0]) and b.a[0] == 0:
        return add(w, a, b.a[1])
    return _mk('sub', w, (a, b))


def mul(w, a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return (a * b) & mask(w)
        b &= mask(w)
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl(w, a, b.bit_length() - 1)
        return _mk('mul', w, (a, b))
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', w, (a, b))


def udiv(w, a, b):
    if isc(a) and isc(b):
        return a // b
    if isc(b):
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        u = ub(a)
        if u < b:
            return 0
    return _mk('udiv', w, (a, b))


def urem(w, a, b):
    if isc(a) and isc(b):
        return a % b
    if isc(b):
        if b & (b - 1) == 0:
            return and_(w, a, b - 1)
        if ub(a) < b:
            return a
    return _mk('urem', w, (a, b))


def sdiv(w, a, b):
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    if isc(b) and sgn(b, w) > 0 and ub(a) >> (w - 1) == 0:
        return udiv(w, a, b)
    return _mk('sdiv', w, (a, b))


def srem(w, a, b):
    if isc(a) and isc(b):
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & mask(w)
    if isc(b) and sgn(b, w) > 0 and ub(a) >> (w - 1) == 0:
        return urem(w, a, b)
    return _mk('srem', w, (a, b))


def ub(t):
    """cheap upper bound of an unsigned term"""
    if isc(t):
        return t
    o = t.op
    if o == 'zext':
        return ub(t.a[0])
    if o == 'extract':
        return min(mask(t.w), ub(t.a[0]) >> t.a[2])
    if o == 'concat':
        return (ub(t.a[0]) << t.a[3]) | mask(ub(t.a[1]).bit_length())
    if o == 'and':
        return min(ub(t.a[0]), ub(t.a[1]))
    if o == 'urem' and isc(t.a[1]):
        return t.a[1] - 1
    if o == 'udiv' and isc(t.a[1]):
        return ub(t.a[0]) // t.a[1]
    if o == 'lshr' and isc(t.a[1]):
        return ub(t.a[0]) >> t.a[1]
    if o == 'tbl':
        return max(t.a[1:])
    if o == 'ite':
        return max(ub(t.a[1]), ub(t.a[2]))
    if o == 'add':
        s = ub(t.a[0]) + ub(t.a[1])
        return s if s <= mask(t.w) else mask(t.w)
    if o == 'mul':
        s = ub(t.a[0]) * ub(t.a[1])
        return s if s <= mask(t.w) else mask(t.w)
    if o == 'shl' and isc(t.a[1]):
        s = ub(t.a[0]) << t.a[1]
        return s if s <= mask(t.w) else mask(t.w)
    if o in ('or', 'xor'):
        m = max(ub(t.a[0]), ub(t.a[1]))
        return mask(m.bit_length()) if m else 0
    return mask(t.w)


_ubc = {}
_ub_raw = ub


def ub(t):          # memoised
    if isc(t):
        return t
    r = _ubc.get(t.id)
    if r is None:
        r = _ub_raw(t)
        _ubc[t.id] = r
    return r


def shl(w, a, n):
    if isc(n):
        if n >= w:
            return 0
        if isc(a):
            return (a << n) & mask(w)
        if n == 0:
            return a
        return concat(w, extract(w, w - n - 1, 0, a), 0, w - n, n)
    elif isc(a) and a == 0:
        return 0
    return _mk('shl', w, (a, n))


def lshr(w, a, n):
    if isc(n):
        if n >= w:
            return 0
        if isc(a):
            return a >> n
        if n == 0:
            return a
        return zext(w - n, w, extract(w, w - 1, n, a))
    elif isc(a) and a == 0:
        return 0
    return _mk('lshr', w, (a, n))


def ashr(w, a, n):
    if isc(n) and isc(a):
        return (sgn(a, w) >> min(n, w - 1)) & mask(w)
    if isc(n) and n == 0:
        return a
    if ub(a) >> (w - 1) == 0:
        return lshr(w, a, n)
    return _mk('ashr', w, (a, n))


def wid(t, i):
    # concat args: (hi, lo, whi, wlo)
    return t.a[3] if i == 1 else t.a[2]


def _narrow(op, w, a, b):
    """bitwise operation on zero-extended operands, done on the narrow ones"""
    n = max(_nw(a), _nw(b))
    if n < w:
        return zext(n, w, op(n, _na(a, n), _na(b, n)))
    return None


def _nw(x):
    return x.a[1] if x.op == 'zext' else x.w


def _na(x, n):
    if x.op == 'zext':
        return zext(x.a[1], n, x.a[0])
    return x


def and_(w, a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return a & b
        b &= mask(w)
        if b == 0:
            return 0
        if b == mask(w):
            return a
        lo = (b & -b).bit_length() - 1
        hi = b.bit_length() - 1
        if (b >> lo) == mask(hi - lo + 1):
            x = extract(w, hi, lo, a)
            if lo:
                x = concat(hi + 1, x, 0, hi - lo + 1, lo)
            return zext(hi + 1, w, x)
        if a.op == 'and' and isc(a.a[1]):
            return and_(w, a.a[0], a.a[1] & b)
        if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]):
            return ite(w, a.a[0], a.a[1] & b, a.a[2] & b)
        if a.op in ('zext', 'concat'):
            # mask the pieces
            if a.op == 'zext':
                return zext(a.a[1], w, and_(a.a[1], a.a[0], b & mask(a.a[1])))
            lw, hw = a.a[3], a.a[2]
            return concat(w, and_(hw, a.a[0], b >> lw), and_(lw, a.a[1], b & mask(lw)), hw, lw)
        return _mk('and', w, (a, b))
    if a is b:
        return a
    if w == 1:
        if a is not_(b):
            return 0
    if w > 1:
        if _nw(a) < w or _nw(b) < w:
            n = min(_nw(a), _nw(b))
            return zext(n, w, and_(n, extract(w, n - 1, 0, a), extract(w, n - 1, 0, b)))
    if a.id > b.id:
        a, b = b, a
    return _mk('and', w, (a, b))


def pieces(t, w):
    """t as disjoint non-zero pieces [(lo, width, term)], or None when t may be non-zero everywhere"""
    if isc(t):
        if t == 0:
            return []
        lo = (t & -t).bit_length() - 1
        n = t.bit_length() - lo
        return [(lo, n, t >> lo)]
    if t.op == 'zext':
        p = pieces(t.a[0], t.a[1])
        return p if p is not None else [(0, t.a[1], t.a[0])]
    if t.op == 'concat':
        hw, lw = t.a[2], t.a[3]
        ph = pieces(t.a[0], hw)
        if ph is None:
            ph = [(0, hw, t.a[0])]
        pl = pieces(t.a[1], lw)
        if pl is None:
            pl = [(0, lw, t.a[1])]
        return pl + [(lo + lw, n, x) for (lo, n, x) in ph]
    n = ub(t).bit_length()
    if n < w:
        return [(0, n, extract(w, n - 1, 0, t))] if n else []
    return None


def join(w, a, b):
    """a|b for terms with disjoint possibly-non-zero bits -> concatenation (recovers words assembled from bytes)"""
    pa = pieces(a, w)
    if pa is None:
        return None
    pb = pieces(b, w)
    if pb is None:
        return None
    ps = sorted(pa + pb, key=lambda p: p[0])
    for i in range(len(ps) - 1):
        if ps[i][0] + ps[i][1] > ps[i + 1][0]:
            return None
    cur, n = None, 0
    for (lo, k, x) in ps:
        if lo > n:
            cur = 0 if cur is None else zext(n, lo, cur)
            n = lo
        cur = x if n == 0 else concat(n + k, x, cur, k, n)
        n += k
    return zext(n, w, cur) if n else 0


def or_(w, a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return a | b
        b &= mask(w)
        if b == 0:
            return a
        if b == mask(w):
            return b
        c = join(w, a, b) if w > 1 else None
        if c is not None:
            return c
        return _mk('or', w, (a, b))
    if a is b:
        return a
    if w == 1:
        if a is not_(b):
            return 1
    else:
        c = join(w, a, b)
        if c is not None:
            return c
    if w > 1:
        c = _narrow(or_, w, a, b)
        if c is not None:
            return c
    if a.id > b.id:
        a, b = b, a
    return _mk('or', w, (a, b))


def xor(w, a, b):
    if isc(a):
        a, b = b, a
    if isc(b):
        if isc(a):
            return a ^ b
        b &= mask(w)
        if b == 0:
            return a
        if w == 1:
            return not_(a)
        if a.op == 'xor' and isc(a.a[1]):
            return xor(w, a.a[0], a.a[1] ^ b)
        return _mk('xor', w, (a, b))
    if a is b:
        return 0
    if w > 1:
        c = _narrow(xor, w, a, b)
        if c is not None:
            return c
    if a.id > b.id:
        a, b = b, a
    return _mk('xor', w, (a, b))


def not_(a):
    if isc(a):
        return a ^ 1
    if a.op == 'not':
        return a.a[0]
    if a.op == 'ult':
        return ule(a.a[2], a.a[1], a.a[0])
    if a.op == 'ule':
        return ult(a.a[2], a.a[1], a.a[0])
    if a.op == 'slt':
        return sle(a.a[2], a.a[1], a.a[0])
    if a.op == 'sle':
        return slt(a.a[2], a.a[1], a.a[0])
    return _mk('not', 1, (a,))


def zext(w, w2, a):
    if isc(a):
        return a
    if w == w2:
        return a
    if a.op == 'zext':
        return zext(a.a[1], w2, a.a[0])
    return _mk('zext', w2, (a, w))


def sext(w, w2, a):
    if isc(a):
        return sgn(a, w) & mask(w2)
    if w > 1 and ub(a) >> (w - 1) == 0:
        return zext(w, w2, a)
    if w == 1:
        return ite(w2, a, mask(w2), 0)
    return _mk('sext', w2, (a, w))


def trunc(w, w2, a):
    return extract(w, w2 - 1, 0, a)


_exc = {}


def extract(w, hi, lo, a):
    n = hi - lo + 1
    if isc(a):
        return (a >> lo) & mask(n)
    if n == w:
        return a
    if a.op in _DEEP:
        k = (a.id, hi, lo)
        r = _exc.get(k)
        if r is None:
            r = _exc[k] = _extract(w, hi, lo, a)
        return r
    return _extract(w, hi, lo, a)


_DEEP = {'and', 'or', 'xor', 'add', 'sub', 'mul', 'ite', 'concat'}


def _extract(w, hi, lo, a):
    n = hi - lo + 1
    o = a.op
    if o == 'zext':
        iw = a.a[1]
        if lo >= iw:
            return 0
        if hi < iw:
            return extract(iw, hi, lo, a.a[0])
        return zext(iw - lo, n, extract(iw, iw - 1, lo, a.a[0]))
    if o == 'sext' and hi < a.a[1]:
        return extract(a.a[1], hi, lo, a.a[0])
    if o == 'extract':
        return extract(a.a[3], hi + a.a[2], lo + a.a[2], a.a[0])
    if o == 'concat':
        hw, lw = a.a[2], a.a[3]
        if hi < lw:
            return extract(lw, hi, lo, a.a[1])
        if lo >= lw:
            return extract(hw, hi - lw, lo - lw, a.a[0])
        return concat(n, extract(hw, hi - lw, 0, a.a[0]), extract(lw, lw - 1, lo, a.a[1]), hi - lw + 1, lw - lo)
    if o == 'lshr' and isc(a.a[1]):
        k = a.a[1]
        if lo + k >= w:
            return 0
        if hi + k < w:
            return extract(w, hi + k, lo + k, a.a[0])
    if o == 'shl' and isc(a.a[1]):
        k = a.a[1]
        if lo >= k:
            return extract(w, hi - k, lo - k, a.a[0])
        if hi < k:
            return 0
    if o in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor}[o]
        return f(n, extract(w, hi, lo, a.a[0]), extract(w, hi, lo, a.a[1]))
    if lo == 0 and o in ('add', 'sub', 'mul') and PUSH[0]:
        f = {'add': add, 'sub': sub, 'mul': mul}[o]
        return f(n, extract(w, hi, 0, a.a[0]), extract(w, hi, 0, a.a[1]))
    if o == 'ite':
        x, y = a.a[1], a.a[2]
        return ite(n, a.a[0], extract(w, hi, lo, x), extract(w, hi, lo, y))
    if o == 'tbl':
        return tbl(n, a.a[0], tuple((x >> lo) & mask(n) for x in a.a[1:]))
    if ub(a) >> lo == 0:
        return 0
    return _mk('extract', n, (a, hi, lo, w))


def concat(w, h, l, hw, lw):
    if isc(h) and isc(l):
        return (h << lw) | l
    if isc(h) and h == 0:
        return zext(lw, w, l)
    # right-nested: concat(concat(a,b),c) -> concat(a, concat(b,c))
    if not isc(h) and h.op == 'concat':
        return concat(w, h.a[0], concat(h.a[3] + lw, h.a[1], l, h.a[3], lw), h.a[2], h.a[3] + lw)
    if not isc(h) and h.op == 'zext':
        iw = h.a[1]
        return zext(iw + lw, w, concat(iw + lw, h.a[0], l, iw, lw))
    if not isc(l):
        # first piece of l
        if l.op == 'concat':
            f, fw = l.a[0], l.a[2]
            r, rw = l.a[1], l.a[3]
        elif l.op == 'zext':
            f, fw = 0, l.w - l.a[1]
            r, rw = l.a[0], l.a[1]
        else:
            f, fw = l, lw
            r, rw = None, 0
        j = None
        if not isc(h) and not isc(f):
            if h.op == 'extract' and f.op == 'extract' and h.a[0] is f.a[0] and h.a[2] == f.a[1] + 1:
                j = extract(h.a[3], h.a[1], f.a[2], h.a[0])
            elif h.op == 'extract' and h.a[2] == fw and extract(h.a[3], fw - 1, 0, h.a[0]) is f:
                j = extract(h.a[3], h.a[1], 0, h.a[0])
            elif h.op == 'ite' and f.op == 'ite' and h.a[0] is f.a[0]:
                j = ite(hw + fw, h.a[0], concat(hw + fw, h.a[1], f.a[1], hw, fw), concat(hw + fw, h.a[2], f.a[2], hw, fw))
        elif isc(h) and isc(f):
            j = (h << fw) | f
        if j is not None:
            if r is None:
                return j
            return concat(w, j, r, hw + fw, rw)
    return _mk('concat', w, (h, l, hw, lw))


def ite(w, c, a, b):
    if isc(c):
        return a if c else b
    if (isc(a) and isc(b) and a == b) or a is b:
        return a
    if c.op == 'not':
        return ite(w, c.a[0], b, a)
    if w == 1 and isc(a) and isc(b):
        return c if a == 1 else not_(c)
    if w == 1:
        if isc(a):
            return or_(1, c, b) if a else and_(1, not_(c), b)
        if isc(b):
            return or_(1, not_(c), a) if b else and_(1, c, a)
    if not isc(a) and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if not isc(b) and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    return _mk('ite', w, (c, a, b))


def eq(w, a, b):
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return int(a == b)
    if a is b:
        return 1
    if isc(b):
        if ub(a) < b:
            return 0
        if w == 1:
            return a if b else not_(a)
        if a.op == 'zext':
            if b >> a.a[1]:
                return 0
            return eq(a.a[1], a.a[0], b)
        if a.op == 'add' and isc(a.a[1]):
            return eq(w, a.a[0], (b - a.a[1]) & mask(w))
        if a.op == 'xor' and isc(a.a[1]):
            return eq(w, a.a[0], b ^ a.a[1])
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if isc(x) and isc(y):
                return ite(1, a.a[0], int(x == b), int(y == b))
            if isc(x) and x != b:
                return and_(1, not_(a.a[0]), eq(w, y, b))
            if isc(y) and y != b:
                return and_(1, a.a[0], eq(w, x, b))
            if isc(x):
                return or_(1, a.a[0], eq(w, y, b))
            if isc(y):
                return or_(1, not_(a.a[0]), eq(w, x, b))
        if a.op == 'sext' and a.a[1] < w:
            iw = a.a[1]
            lowb = b & mask(iw)
            if sgn(lowb, iw) & mask(w) != b:
                return 0
            return eq(iw, a.a[0], lowb)
        if a.op == 'concat':
            hw, lw = a.a[2], a.a[3]
            if isc(a.a[0]):
                if a.a[0] != b >> lw:
                    return 0
                return eq(lw, a.a[1], b & mask(lw))
        return _mk('eq', 1, (a, b, w))
    if a.op == 'zext' and b.op == 'zext' and a.a[1] == b.a[1]:
        return eq(a.a[1], a.a[0], b.a[0])
    if a.op == 'add' and b.op == 'add' and isc(a.a[1]) and isc(b.a[1]) and a.a[0] is b.a[0]:
        return int(a.a[1] == b.a[1])
    if a.op == 'add' and a.a[0] is b and isc(a.a[1]):
        return 0
    if b.op == 'add' and b.a[0] is a and isc(b.a[1]):
        return 0
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 1, (a, b, w))


def ult(w, a, b):
    if isc(a) and isc(b):
        return int(a < b)
    if a is b:
        return 0
    if isc(b):
        if ub(a) < b:
            return 1
        if b == 0:
            return 0
        if a.op == 'zext':
            if b > mask(a.a[1]):
                return 1
            return ult(a.a[1], a.a[0], b)
    if isc(a):
        if a >= ub(b):
            return 0
        if b.op == 'zext':
            return ult(b.a[1], a, b.a[0])
    if not isc(a) and not isc(b) and a.op == 'zext' and b.op == 'zext' and a.a[1] == b.a[1]:
        return ult(a.a[1], a.a[0], b.a[0])
    return _mk('ult', 1, (a, b, w))


def ule(w, a, b):
    if isc(a) and isc(b):
        return int(a <= b)
    if a is b:
        return 1
    if isc(b):
        if ub(a) <= b:
            return 1
        if a.op == 'zext':
            if b > mask(a.a[1]):
                return 1
            return ule(a.a[1], a.a[0], b)
    if isc(a):
        if a == 0:
            return 1
        if a > ub(b):
            return 0
        if b.op == 'zext':
            return ule(b.a[1], a, b.a[0])
    if not isc(a) and not isc(b) and a.op == 'zext' and b.op == 'zext' and a.a[1] == b.a[1]:
        return ule(a.a[1], a.a[0], b.a[0])
    return _mk('ule', 1, (a, b, w))


def slt(w, a, b):
    if isc(a) and isc(b):
        return int(sgn(a, w) < sgn(b, w))
    if ub(a) >> (w - 1) == 0 and ub(b) >> (w - 1) == 0:
        return ult(w, a, b)
    return _mk('slt', 1, (a, b, w))


def sle(w, a, b):
    if isc(a) and isc(b):
        return int(sgn(a, w) <= sgn(b, w))
    if ub(a) >> (w - 1) == 0 and ub(b) >> (w - 1) == 0:
        return ule(w, a, b)
    return _mk('sle', 1, (a, b, w))


def tbl(w, i, vals):
    """vals[i], i within range (the caller has checked the bound)"""
    if isc(i):
        return vals[i]
    if i.op == 'tbl' and len(i.a) <= 257:
        return tbl(w, i.a[0], tuple(vals[k] if k < len(vals) else 0 for k in i.a[1:]))
    if i.op == 'zext':
        return tbl(w, i.a[0], vals[:1 << i.a[1]])
    if i.op == 'concat' and isc(i.a[0]):
        b = i.a[0] << i.a[3]
        return tbl(w, i.a[1], vals[b:b + (1 << i.a[3])])
    if i.op == 'add' and isc(i.a[1]) and ub(i.a[0]) + i.a[1] <= mask(i.w):
        return tbl(w, i.a[0], vals[i.a[1]:])
    if i.op == 'extract' and i.a[2] == 0 and ub(i.a[0]) <= mask(i.w):
        return tbl(w, i.a[0], vals)
    hi = min(len(vals) - 1, ub(i))
    if all(vals[k] == vals[0] for k in range(hi + 1)):
        return vals[0]
    if all(vals[k] == vals[0] + k for k in range(hi + 1)):
        x = zext(i.w, w, i) if i.w <= w else extract(i.w, w - 1, 0, i)
        return add(w, x, vals[0])
    if w == 1 and hi + 1 < len(vals):
        vals = vals[:hi + 1]
    if w > 1 and max(vals) <= 1:
        return zext(1, w, tbl(1, i, vals))
    return _mk('tbl', w, (i,) + tuple(vals))


# ------------------------------------------------------------------ evaluation
def evaluate(ts, env, memo=None):
    """values of terms under env {var term id: int}; iterative"""
    if memo is None:
        memo = {}

    def g(x):
        return memo[x.id] if type(x) is T else x
    for t0 in ts:
        if isc(t0):
            continue
        st = [t0]
        while st:
            t = st[-1]
            if t.id in memo:
                st.pop()
                continue
            todo = [x for x in t.a if type(x) is T and x.id not in memo]
            if todo:
                st += todo
                continue
            st.pop()
            memo[t.id] = _ev(t, g, env)
    return memo


def _ev(t, g, env):
    o, w, a = t.op, t.w, t.a
    m = mask(w)
    if o == 'var':
        return env.get(t.id, 0) & m
    if o == 'add':
        return (g(a[0]) + g(a[1])) & m
    if o == 'sub':
        return (g(a[0]) - g(a[1])) & m
    if o == 'mul':
        return (g(a[0]) * g(a[1])) & m
    if o == 'and':
        return g(a[0]) & g(a[1])
    if o == 'or':
        return g(a[0]) | g(a[1])
    if o == 'xor':
        return g(a[0]) ^ g(a[1])
    if o == 'not':
        return g(a[0]) ^ 1
    if o == 'shl':
        n = g(a[1])
        return (g(a[0]) << n) & m if n < w else 0
    if o == 'lshr':
        n = g(a[1])
        return g(a[0]) >> n if n < w else 0
    if o == 'ashr':
        return (sgn(g(a[0]), w) >> min(g(a[1]), w - 1)) & m
    if o == 'zext':
        return g(a[0])
    if o == 'sext':
        return sgn(g(a[0]), a[1]) & m
    if o == 'extract':
        return (g(a[0]) >> a[2]) & m
    if o == 'concat':
        return (g(a[0]) << a[3]) | g(a[1])
    if o == 'ite':
        return g(a[1]) if g(a[0]) else g(a[2])
    if o == 'eq':
        return int(g(a[0]) == g(a[1]))
    if o == 'ult':
        return int(g(a[0]) < g(a[1]))
    if o == 'ule':
        return int(g(a[0]) <= g(a[1]))
    if o == 'slt':
        return int(sgn(g(a[0]), a[2]) < sgn(g(a[1]), a[2]))
    if o == 'sle':
        return int(sgn(g(a[0]), a[2]) <= sgn(g(a[1]), a[2]))
    if o == 'udiv':
        d = g(a[1])
        return g(a[0]) // d if d else m
    if o == 'urem':
        d = g(a[1])
        return g(a[0]) % d if d else g(a[0])
    if o == 'sdiv':
        d = g(a[1])
        return sdiv(w, g(a[0]), d) if d else m
    if o == 'srem':
        d = g(a[1])
        return srem(w, g(a[0]), d) if d else g(a[0])
    if o == 'tbl':
        i = g(a[0])
        return a[1 + i] if i < len(a) - 1 else 0
    raise Exception('eval ' + o)


CONS = {}


def rebuild(op, w, a, old):
    """re-apply the constructor of a term to new arguments"""
    if op in ('add', 'sub', 'mul', 'udiv', 'urem', 'sdiv', 'srem', 'shl', 'lshr', 'ashr', 'xor'):
        return globals()[op](w, a[0], a[1])
    if op == 'and':
        return and_(w, a[0], a[1])
    if op == 'or':
        return or_(w, a[0], a[1])
    if op == 'not':
        return not_(a[0])
    if op == 'zext':
        return zext(a[1], w, a[0])
    if op == 'sext':
        return sext(a[1], w, a[0])
    if op == 'extract':
        return extract(a[3], a[1], a[2], a[0])
    if op == 'concat':
        return concat(w, a[0], a[1], a[2], a[3])
    if op == 'ite':
        return ite(w, a[0], a[1], a[2])
    if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
        return globals()[op](a[2], a[0], a[1])
    if op == 'tbl':
        return tbl(w, a[0], tuple(a[1:]))
    raise Exception('rebuild ' + op)


def rewrite(t, leaf, memo):
    """bottom-up rewriting; leaf(term) -> replacement or None"""
    if isc(t):
        return t
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [y for y in x.a if type(y) is T and y.id not in memo]
        if todo:
            st += todo
            continue
        st.pop()
        r = leaf(x)
        if r is None:
            if x.op == 'var':
                r = x
            else:
                na = tuple(memo[y.id] if type(y) is T else y for y in x.a)
                r = x if all(p is q or (isc(p) and isc(q) and p == q) for p, q in zip(na, x.a)) else rebuild(x.op, x.w, na, x)
                if not isc(r):
                    r2 = leaf(r)
                    if r2 is not None:
                        r = r2
        memo[x.id] = r
    return memo[t.id]


def variables(ts):
    seen = set()
    out = []
    st = [t for t in ts if not isc(t)]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == 'var':
            out.append(t)
        else:
            st += [x for x in t.a if type(x) is T]
    return out


# ------------------------------------------------------------------ z3
import z3


def to_z3(t, w=None):
    if isc(t):
        return z3.BitVecVal(t, w)
    st = [t]
    while st:
        x = st[-1]
        if x._z is not None:
            st.pop()
            continue
        todo = [y for y in x.a if type(y) is T and y._z is None]
        if todo:
            st += todo
            continue
        st.pop()
        x._z = _z(x)
    return t._z


def _b(c):
    return c


def _z(t):
    o, w, a = t.op, t.w, t.a

    def g(x, w=w):
        return x._z if type(x) is T else z3.BitVecVal(x, w)

    def bit(b):
        return z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    if o == 'var':
        return z3.BitVec(a[0], w)
    if o == 'add':
        return g(a[0]) + g(a[1])
    if o == 'sub':
        return g(a[0]) - g(a[1])
    if o == 'mul':
        return g(a[0]) * g(a[1])
    if o == 'and':
        return g(a[0]) & g(a[1])
    if o == 'or':
        return g(a[0]) | g(a[1])
    if o == 'xor':
        return g(a[0]) ^ g(a[1])
    if o == 'not':
        return ~g(a[0])
    if o == 'shl':
        return g(a[0]) << g(a[1])
    if o == 'lshr':
        return z3.LShR(g(a[0]), g(a[1]))
    if o == 'ashr':
        return g(a[0]) >> g(a[1])
    if o == 'zext':
        return z3.ZeroExt(w - a[1], g(a[0]))
    if o == 'sext':
        return z3.SignExt(w - a[1], g(a[0]))
    if o == 'extract':
        return z3.Extract(a[1], a[2], g(a[0]))
    if o == 'concat':
        return z3.Concat(g(a[0], a[2]), g(a[1], a[3]))
    if o == 'ite':
        return z3.If(g(a[0], 1) == 1, g(a[1]), g(a[2]))
    if o == 'eq':
        return bit(g(a[0], a[2]) == g(a[1], a[2]))
    if o == 'ult':
        return bit(z3.ULT(g(a[0], a[2]), g(a[1], a[2])))
    if o == 'ule':
        return bit(z3.ULE(g(a[0], a[2]), g(a[1], a[2])))
    if o == 'slt':
        return bit(g(a[0], a[2]) < g(a[1], a[2]))
    if o == 'sle':
        return bit(g(a[0], a[2]) <= g(a[1], a[2]))
    if o == 'udiv':
        return z3.UDiv(g(a[0]), g(a[1]))
    if o == 'urem':
        return z3.URem(g(a[0]), g(a[1]))
    if o == 'sdiv':
        return g(a[0]) / g(a[1])
    if o == 'srem':
        return z3.SRem(g(a[0]), g(a[1]))
    if o == 'tbl':
        iw = a[0].w
        n = len(a) - 1

        def tree(lo, hi):
            # balanced selection on the bits of the index
            if all(a[1 + k] == a[1 + lo] for k in range(lo, hi)):
                return z3.BitVecVal(a[1 + lo], w)
            mid = (lo + hi) // 2
            return z3.If(z3.ULT(a[0]._z, z3.BitVecVal(mid, iw)), tree(lo, mid), tree(mid, hi))
        return tree(0, n)
    raise Exception('z3 ' + o)
