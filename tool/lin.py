"""GF(2)-linear normal form of bit-vector terms.

Every bit of a term is written as an XOR of atoms, held as an integer bit mask (bit 0: the constant 1).
Functions of one byte variable, and of one table index, are linear in the indicator atoms [x == k], k > 0, so
they have a unique form.  Everything else that is not linear becomes an atom named by its operator and the normal
forms of its operands.  Two terms with equal forms are equal; nothing is concluded from different forms."""
import terms as tm
from terms import T, isc

_atoms = {}
_memo = {}
_sup = {}
_tt = {}
MAXT = 256


def reset():
    _atoms.clear()
    _memo.clear()
    _sup.clear()
    _tt.clear()


def atom(key):
    i = _atoms.get(key)
    if i is None:
        i = len(_atoms) + 1
        _atoms[key] = i
    return 1 << i


def support(t):
    """the only variable of t if it has exactly one of at most 8 bits; 0 if none; None otherwise"""
    if isc(t):
        return 0
    r = _sup.get(t.id, -1)
    if r != -1:
        return r
    if t.op == 'var':
        r = t if t.w <= 8 else None
    else:
        r = 0
        for x in t.a:
            if type(x) is T:
                s = support(x)
                if s is None:
                    r = None
                    break
                if s == 0:
                    continue
                if r == 0:
                    r = s
                elif r is not s:
                    r = None
                    break
    _sup[t.id] = r
    return r


def indicators(key, n):
    r = _tt.get((key, n))
    if r is None:
        base = len(_atoms) + 1
        for k in range(1, n):
            _atoms[(key, k)] = base + k - 1
        _tt[(key, n)] = r = base
    return r


def fromtable(key, vals, w):
    """bits of a table over an index named key"""
    n = len(vals)
    base = indicators(key, n)
    v0 = vals[0]
    out = []
    for j in range(w):
        m = v0 >> j & 1
        acc = 0
        for k in range(1, n):
            if (vals[k] ^ v0) >> j & 1:
                acc |= 1 << (k - 1)
        out.append(m | acc << base)
    return out


def table_of(t, v):
    """values of t for every value of the byte variable v"""
    out = []
    for k in range(1 << v.w):
        out.append(_evk(t, v, k))
    return out


def _evk(t, v, k):
    memo = {}

    def g(x):
        if type(x) is not T:
            return x
        if x is v:
            return k
        r = memo.get(x.id)
        if r is None:
            r = tm._ev(x, g, {})
            memo[x.id] = r
        return r
    return g(t)


_ttab = {}


def values(t, v):
    r = _ttab.get(t.id)
    if r is None:
        if t is v:
            r = tuple(range(1 << v.w))
        else:
            ch = []
            for x in t.a:
                if type(x) is T:
                    s = support(x)
                    ch.append(values(x, v) if s != 0 else (None,))
            n = 1 << v.w
            r = []
            cur = {}
            kids = [x for x in t.a if type(x) is T]
            tabs = {x.id: values(x, v) for x in kids}
            for k in range(n):
                r.append(tm._ev(t, lambda x: x if type(x) is not T else tabs[x.id][k], {}))
            r = tuple(r)
        _ttab[t.id] = r
    return r


def form(t, w):
    """tuple of w masks, least significant bit first"""
    if isc(t):
        return tuple(t >> j & 1 for j in range(w))
    r = _memo.get(t.id)
    if r is not None:
        return r
    s = support(t)
    if s is not None and s != 0:
        r = tuple(fromtable(('v', s.id), values(t, s), t.w))
    else:
        r = tuple(_form(t))
    _memo[t.id] = r
    return r


def _form(t):
    o, w, a = t.op, t.w, t.a
    if o == 'var':
        base = indicators(('V', t.id), w + 1)
        return [1 << (base + j) for j in range(w)]
    if o == 'xor':
        return [x ^ y for x, y in zip(form(a[0], w), form(a[1], w))]
    if o == 'not':
        return [form(a[0], w)[0] ^ 1]
    if o == 'zext':
        f = form(a[0], a[0].w)
        return list(f) + [0] * (w - len(f))
    if o == 'sext':
        f = form(a[0], a[0].w)
        return list(f) + [f[-1]] * (w - len(f))
    if o == 'extract':
        return list(form(a[0], a[0].w)[a[2]:a[2] + w])
    if o == 'concat':
        lw = a[3]
        return list(form(a[1], lw)) + list(form(a[0], w - lw))
    if o in ('shl', 'lshr', 'ashr') and isc(a[1]):
        f = form(a[0], w)
        n = min(a[1], w)
        if o == 'shl':
            return [0] * n + list(f[:w - n])
        return list(f[n:]) + [0 if o == 'lshr' else f[-1]] * n
    if o in ('and', 'or'):
        out = []
        for x, y in zip(form(a[0], w), form(a[1], w)):
            if o == 'or':
                x ^= 1
                y ^= 1
            if x == 0 or y == 0 or x == y ^ 1:
                r = 0
            elif x == 1:
                r = y
            elif y == 1 or x == y:
                r = x
            else:
                r = atom(('&', min(x, y), max(x, y)))
            out.append(r ^ 1 if o == 'or' else r)
        return out
    if o == 'ite':
        c = form(a[0], 1)[0]
        x, y = form(a[1], w), form(a[2], w)
        out = []
        for p, q in zip(x, y):
            d = p ^ q
            if d == 0:
                out.append(q)
            elif d == 1:
                out.append(q ^ c)
            elif c == d:
                out.append(q ^ c)
            elif c == d ^ 1:
                out.append(q)
            else:
                out.append(q ^ atom(('&', min(c, d), max(c, d))))
        return out
    if o == 'eq':
        ww = a[2]
        d = tuple(x ^ y for x, y in zip(form(a[0], ww), form(a[1], ww)))
        if not any(d):
            return [1]
        if any(x == 1 for x in d):
            return [0]
        nz = [x for x in d if x]
        if len(nz) == 1:
            return [nz[0] ^ 1]
        return [atom(('=', d))]
    if o == 'sub' and a[0] == 0:
        f = form(a[1], w)
        if not any(f[1:]):
            return [f[0]] * w
    if o == 'mul':
        for i in (0, 1):
            f = form(a[i], w)
            if not isc(a[i]) and not any(f[1:]) and isc(a[1 - i]):
                return [f[0] if a[1 - i] >> j & 1 else 0 for j in range(w)]
    if o == 'tbl':
        n = len(a) - 1
        f = form(a[0], a[0].w)
        nz = max([j + 1 for j, x in enumerate(f) if x] or [0])
        if nz <= 8 and not all(x in (0, 1) for x in f):
            vals = [a[1 + k] if k < n else 0 for k in range(1 << nz)]
            return fromtable(('t', f[:nz]), vals, w)
    # opaque: operator of normal forms
    key = [o, w]
    for i, x in enumerate(a):
        if type(x) is T:
            key.append(form(x, x.w))
        else:
            key.append(('c', x))
    if o in ('add', 'mul') and not (isc(a[0]) or isc(a[1])):
        key[2:4] = sorted(key[2:4])
    base = indicators(tuple(key), w + 1)
    return [1 << (base + j) for j in range(w)]


def equal(w, a, b):
    return form(a, w) == form(b, w)


def true(c):
    return form(c, 1) == (1,)


# ------------------------------------------------------------------ restriction to what a path knows about byte variables
_inv = {}


def inv(i):
    if len(_inv) != len(_atoms):
        _inv.clear()
        for k, v in _atoms.items():
            _inv[v] = k
    return _inv[i]


class Restrict:
    """normal forms restricted to domains of byte variables: {variable id: bit set of possible values}"""
    def __init__(self, dom):
        self.dom = dom
        self.memo = {}
        self.am = {}
        self.rules = []
        for v, d in dom.items():
            base = _tt.get((('v', v), 256))
            if base is None:
                continue
            m = ((1 << 255) - 1) << base
            k0 = (d & -d).bit_length() - 1
            keep = (d >> 1) << base               # bits of values k >= 1 in the domain
            self.rules.append((m, keep, k0, (1 << (base + k0 - 1)) if k0 > 0 else 0))

    def red(self, f):
        r = self.memo.get(f)
        if r is not None:
            return r
        x = f
        done = 1
        for (m, keep, k0, bit) in self.rules:
            done |= m
            if x & m:
                x = (x & ~m) | (x & keep)
                if bit and x & bit:
                    x ^= keep ^ 1          # [x==k0] = 1 + sum of the others; clears the bit itself
        # nested atoms
        y = x & ~done
        if y:
            x &= done
            while y:
                low = y & -y
                y ^= low
                x ^= self.atom(low.bit_length() - 1)
        self.memo[f] = x
        return x

    def atom(self, i):
        r = self.am.get(i)
        if r is not None:
            return r
        k = inv(i)
        if k[0] == '&':
            x, y = self.red(k[1]), self.red(k[2])
            if x == 0 or y == 0 or x == y ^ 1:
                r = 0
            elif x == 1:
                r = y
            elif y == 1 or x == y:
                r = x
            else:
                r = atom(('&', min(x, y), max(x, y)))
        elif k[0] == '=':
            d = tuple(self.red(x) for x in k[1])
            nz = [x for x in d if x]
            if not nz:
                r = 1
            elif 1 in nz:
                r = 0
            elif len(nz) == 1:
                r = nz[0] ^ 1
            else:
                r = atom(('=', d))
        else:
            key, j = k
            if key[0] == 't':
                f = tuple(self.red(x) for x in key[1])
                if f == key[1]:
                    r = 1 << i
                elif all(x in (0, 1) for x in f):
                    r = int(sum(x << n for n, x in enumerate(f)) == j)
                else:
                    r = 1 << (indicators(('t', f), 1 << len(f)) + j - 1)
            else:
                r = 1 << i
        self.am[i] = r
        return r
