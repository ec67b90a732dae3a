"""Symbolic-execution verifier for the IR of /repo (deductive back end next to CBMC).

Executes a contract harness on the IR extracted from /repo with symbolic inputs: every
path is explored, every contract obligation, memory access and division becomes a
verification condition over bit-vectors decided by z3; callees that have a contract in the
harness file are replaced by that contract (llvm-link --override).  Objects have concrete
sizes on each path (symbolic sizes are split into cases until they are concrete).
"""
import sys, time, os
import terms as tm
import poly, lin, canon, flo
from terms import T, isc, mask
from irparse import IRError

sys.setrecursionlimit(20000)


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __eq__(self, x):
        return type(x) is Ptr and x.o == self.o and (x.off is self.off or (isc(x.off) and isc(self.off) and x.off == self.off))

    def __hash__(self):
        return hash((self.o, self.off if isc(self.off) else self.off.id))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return type(x) is Fn and x.name == self.name

    def __hash__(self):
        return hash(self.name)


class Obj:
    __slots__ = ('n', 'c', 'kind', 'alive', 'own', 'name')


class Frame:
    __slots__ = ('cf', 'env', 'blk', 'ip', 'allocas', 'ret', 'tmp')

    def copy(self):
        f = Frame()
        f.cf, f.env, f.blk, f.ip, f.allocas, f.ret = self.cf, dict(self.env), self.blk, self.ip, list(self.allocas), self.ret
        return f


class State:
    __slots__ = ('frames', 'mem', 'pc', 'pcset', 'model', 'nd', 'sub', 'nobj', 'sid', 'uf', 'steps', 'ghost', 'forks')


_pcf = {}


def _pcforms(self):
    """normal forms of the conditions of this path"""
    r = _pcf.get(self.pcset)
    if r is None:
        if len(_pcf) > 2000:
            _pcf.clear()
        r = _pcf[self.pcset] = {lin.form(x, 1)[0] for x in self.pc}
    return r


State.pcforms = _pcforms


class Dead(Exception):
    pass


class Split(Exception):
    def __init__(self, c):
        self.c = c


class Limit(Exception):
    pass


class SymError(IRError):
    pass


class CF:
    """compiled function"""
    __slots__ = ('name', 'blocks', 'index', 'params', 'byval', 'ipdom', 'loopof', 'labels', 'contract', 'entry', 'exits')


_sid = [0]


def newsid():
    _sid[0] += 1
    return _sid[0]


class Sym:
    def __init__(self, mod, opts=None):
        self.m = mod
        self.cfs = {}
        self.gobj = {}
        self.opts = opts or {}
        self.obs = {}            # (kind, text) -> [n, status]
        self.fails = []          # (prop, desc, inputs)
        self.reached = set()
        self.guards = set()
        self.funcs_run = set()
        self.solver_time = 0.0
        self.nquery = 0
        self.paths = 0
        self.cache = {}
        self.vcache = {}
        self.unknown = []
        self.deadline = time.time() + self.opts.get('timeout', 600)
        self.maxfail = 3
        self.qtimeout = self.opts.get('qtimeout', 60)
        self.fqtimeout = self.opts.get('fqtimeout', 10)
        self.mergemax = self.opts.get('mergemax', 400)
        self.layout_c = {}
        self.vars = {}
        self.nmerge = 0
        self.maxpaths = self.opts.get('maxpaths', 20000)
        self.maxsteps = self.opts.get('maxsteps', 3000000)
        self.stepcount = 0
        self.implied = set()
        self.nlin = 0
        self.itelim = self.opts.get('itelim', 300)

    # ------------------------------------------------------------ layout
    def szal(self, t):
        r = self.layout_c.get(t)
        if r is None:
            r = self._szal(t)
            self.layout_c[t] = r
        return r

    def _szal(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            s = 1
            while s * 8 < n:
                s *= 2
            return s, min(s, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self.szal(t[2])
            return s * t[1], a
        if k == 'fp':
            return {'double': (8, 8), 'float': (4, 4)}[t[1]]
        if k in ('struct', 'lit'):
            off, al = 0, 1
            d = self.m.structs[t[1]] if k == 'struct' else t
            for f in d[1]:
                s, a = self.szal(f)
                if d[2]:
                    a = 1
                al = max(al, a)
                off = (off + a - 1) // a * a + s
            return (off + al - 1) // al * al, al
        raise SymError('size of %r' % (t,))

    def foff(self, t, i):
        d = self.m.structs[t[1]] if t[0] == 'struct' else t
        off = 0
        for j, f in enumerate(d[1]):
            s, a = self.szal(f)
            if d[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += s
        raise SymError('field')

    def fields(self, t):
        d = self.m.structs[t[1]] if t[0] == 'struct' else t
        return d[1]

    # ------------------------------------------------------------ constants / globals
    def resolve(self, g):
        while g in self.m.aliases:
            g = self.m.aliases[g]
        return g

    def const(self, t, v):
        k = v[0]
        if k == 'int':
            return v[1] & mask(t[1])
        if k == 'null':
            return 0
        if k == 'zero':
            if t[0] in ('int', 'ptr'):
                return 0
            if t[0] in ('struct', 'lit'):
                return tuple(self.const(f, v) for f in self.fields(t))
            if t[0] == 'arr':
                return tuple(self.const(t[2], v) for _ in range(t[1]))
        if k == 'undef':
            if t[0] in ('struct', 'lit'):
                return tuple(self.const(f, v) for f in self.fields(t))
            return 0
        if k == 'glob':
            g = self.resolve(v[1])
            if g in self.m.funcs or g in self.m.decls:
                return Fn(g)
            return Ptr(g, 0)
        if k == 'cgep':
            base = self.const(*v[2])
            off = self.constgep(v[1], v[3])
            return self.padd(base, off)
        if k == 'ccast':
            _, op, t1, a, t2 = v
            x = self.const(t1, a)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return x
            raise SymError('const cast ' + op)
        if k == 'agg':
            return tuple(self.const(tt, vv) for (tt, vv) in v[1])
        if k == 'fp':
            return float(v[1])
        if k == 'cbin':
            a, b = self.const(*v[2]), self.const(*v[3])
            if v[1] == 'sub':
                return self.bin_sub(v[2][0][1], a, b)
        raise SymError('constant %r' % (v,))

    def constgep(self, st, idx):
        off = 0
        t = st
        for i, (it, iv) in enumerate(idx):
            x = tm.sgn(iv[1] & mask(it[1]), it[1]) if iv[0] == 'int' else 0
            if i == 0:
                off += x * self.szal(st)[0]
            elif t[0] in ('struct', 'lit'):
                off += self.foff(t, x)
                t = self.fields(t)[x]
            else:
                off += x * self.szal(t[2])[0]
                t = t[2]
        return off

    def padd(self, p, off):
        if type(p) is Ptr:
            if isc(p.off) and isc(off):
                return Ptr(p.o, p.off + off)
            a = p.off if not isc(p.off) else p.off & mask(64)
            b = off if not isc(off) else off & mask(64)
            r = tm.add(64, a, b)
            if isc(r):
                r = tm.sgn(r, 64)
            return Ptr(p.o, r)
        if isc(off) and off == 0:
            return p
        if type(p) is int or type(p) is T:
            return tm.add(64, p, off & mask(64) if isc(off) else off)
        raise SymError('pointer arithmetic on %r' % (p,))

    def init_cells(self, t, v, out, off):
        k = v[0]
        n = self.szal(t)[0]
        if k == 'bytes':
            out[off:off + len(v[1])] = list(v[1])
        elif k == 'agg':
            if t[0] == 'arr':
                s = self.szal(t[2])[0]
                for i, (tt, vv) in enumerate(v[1]):
                    self.init_cells(tt, vv, out, off + i * s)
            else:
                for i, (tt, vv) in enumerate(v[1]):
                    self.init_cells(tt, vv, out, off + self.foff(t, i))
        elif k in ('zero', 'undef', 'null'):
            out[off:off + n] = [0] * n
        else:
            x = self.const(t, v)
            out[off:off + n] = self.tocells(t, x)

    def tocells(self, t, x):
        if type(x) in (Ptr, Fn):
            return [('p', x, i) for i in range(8)]
        if type(x) is tuple:
            n = self.szal(t)[0]
            out = [None] * n
            if t[0] == 'arr':
                s = self.szal(t[2])[0]
                for i, y in enumerate(x):
                    out[i * s:i * s + s] = self.tocells(t[2], y)
            else:
                for i, (f, y) in enumerate(zip(self.fields(t), x)):
                    o = self.foff(t, i)
                    c = self.tocells(f, y)
                    out[o:o + len(c)] = c
            return out
        if type(x) is float:
            import struct
            return list(struct.pack('<d' if t[1] == 'double' else '<f', x))
        n = self.szal(t)[0]
        if isc(x):
            return [(x >> (8 * i)) & 255 for i in range(n)]
        w = t[1] if t[0] == 'int' else 64
        if w == 8:
            return [x]
        if w < 8:
            return [tm.zext(w, 8, x)]
        return [tm.extract(w, 8 * i + 7, 8 * i, x) for i in range(n)]

    def fromcells(self, st, t, cells, what):
        if t[0] in ('struct', 'lit'):
            return tuple(self.fromcells(st, f, cells[self.foff(t, i):self.foff(t, i) + self.szal(f)[0]], what) for i, f in enumerate(self.fields(t)))
        if t[0] == 'arr':
            s = self.szal(t[2])[0]
            return tuple(self.fromcells(st, t[2], cells[i * s:i * s + s], what) for i in range(t[1]))
        c0 = cells[0]
        if len(cells) == 1:
            if type(c0) is int:
                r = c0
            elif c0 is None:
                r = self.fresh(8, 'undef')
            elif type(c0) is tuple:
                raise SymError('byte of a pointer read: ' + what)
            else:
                r = st.sub.get(c0.id, c0)
            w = t[1]
            return r if w == 8 else tm.trunc(8, w, r)
        if type(c0) is tuple:
            p = c0[1]
            for i, c in enumerate(cells):
                if type(c) is not tuple or c[2] != i or c[1] != p:
                    raise SymError('mixed pointer bytes read: ' + what)
            return p
        if all(type(c) is int for c in cells):
            r = 0
            for i, c in enumerate(cells):
                r |= c << (8 * i)
            if t[0] == 'fp':
                import struct
                return struct.unpack('<d' if t[1] == 'double' else '<f', bytes(cells))[0]
            return r
        r = None
        n = 0
        for c in cells:
            if c is None:
                c = self.fresh(8, 'undef')
            elif type(c) is tuple:
                raise SymError('mixed pointer bytes read: ' + what)
            elif type(c) is T:
                c = st.sub.get(c.id, c)
            r = c if r is None else tm.concat(n + 8, c, r, 8, n)
            n += 8
        if type(r) is T:
            r = st.sub.get(r.id, r)
        if t[0] == 'int' and t[1] < n:
            r = tm.trunc(n, t[1], r)
        return r

    def fresh(self, w, name='v'):
        v = tm.var(w, name)
        self.vars[v.a[0]] = v
        return v

    # ------------------------------------------------------------ memory
    def obj(self, st, o, write=False):
        ob = st.mem.get(o)
        if ob is None:
            if type(o) is str:
                ob = self.mkglobal(o)
                if write:
                    ob = self.cow(st, o, ob)
                else:
                    st.mem[o] = ob
                return ob
            return None
        if write and ob.own != st.sid:
            ob = self.cow(st, o, ob)
        return ob

    def cow(self, st, o, ob):
        x = Obj()
        x.n, x.c, x.kind, x.alive, x.own, x.name = ob.n, list(ob.c), ob.kind, ob.alive, st.sid, ob.name
        st.mem[o] = x
        return x

    def mkglobal(self, g):
        ob = self.gobj.get(g)
        if ob is None:
            if g not in self.m.globals:
                raise SymError('unknown global ' + g)
            t, v, const = self.m.globals[g]
            if v is None:
                raise SymError('external global ' + g)
            ob = Obj()
            ob.n = self.szal(t)[0]
            ob.c = [0] * ob.n
            self.init_cells(t, v, ob.c, 0)
            ob.kind = 'const' if const else 'global'
            ob.alive = True
            ob.own = 0
            ob.name = g
            self.gobj[g] = ob
        return ob

    def alloc(self, st, n, kind, name='', fill=None):
        st.nobj += 1
        ob = Obj()
        ob.n, ob.kind, ob.alive, ob.own, ob.name = n, kind, True, st.sid, name
        ob.c = [fill] * n
        st.mem[st.nobj] = ob
        return Ptr(st.nobj, 0)

    def where(self, st):
        fr = st.frames[-1]
        return '%s in %s' % (fr.cf.blocks[fr.blk][1][fr.ip][1] if fr.ip < len(fr.cf.blocks[fr.blk][1]) else '?', self.dem(fr.cf.name))

    def dem(self, n):
        return n[1:]

    def access(self, st, p, n, write, what):
        """bounds obligation; returns (objid, obj, offset int or T)"""
        if type(p) is not Ptr:
            if type(p) is T:
                raise SymError('dereference of computed address ' + what)
            self.fail_ob(st, 'mem', 'null or invalid pointer dereferenced: ' + what)
            raise Dead()
        ob = self.obj(st, p.o, write)
        if ob is None or not ob.alive:
            self.fail_ob(st, 'mem', 'use after free/return: ' + what)
            raise Dead()
        if write and ob.kind == 'const':
            self.fail_ob(st, 'mem', 'write to constant: ' + what)
            raise Dead()
        off = p.off
        if type(off) is T:
            off = st.sub.get(off.id, off)
        if isc(off):
            off = tm.sgn(off & mask(64), 64)
            self.memobs += 1
            if off < 0 or off + n > ob.n:
                self.fail_ob(st, 'mem', 'access outside the object (%s, offset %d size %d of %d): %s' % (ob.name or ob.kind, off, n, ob.n, what))
                raise Dead()
        else:
            if ob.n < n:
                self.fail_ob(st, 'mem', 'access outside the object: ' + what)
                raise Dead()
            self.prove(st, tm.ule(64, off, ob.n - n), 'mem', 'access inside the object (%s): %s' % (ob.name or ob.kind, what))
            off = st.sub.get(off.id, off)
        return p.o, ob, off

    def cand(self, st, off, n, size):
        """candidate concrete offsets of a symbolic in-bounds offset: (list, index term, stride) """
        tz = 0
        x = off
        if x.op == 'concat' and isc(x.a[1]) and x.a[1] == 0:
            pass
        while tz < 6:
            b = tm.extract(64, tz, tz, off)
            if isc(b) and b == 0:
                tz += 1
            else:
                break
        idx = tm.extract(64, 63, tz, off)
        hi = min((n - size) >> tz, tm.ub(idx))
        return idx, 64 - tz, tz, hi

    def rd(self, st, p, n, what):
        """list of n cells at p"""
        o, ob, off = self.access(st, p, n, False, what)
        if isc(off):
            return ob.c[off:off + n]
        idx, iw, tz, hi = self.cand(st, off, ob.n, n)
        words = [ob.c[(k << tz):(k << tz) + n] for k in range(hi + 1)]
        out = []
        for b in range(n):
            col = [w[b] for w in words]
            if all(type(c) is int for c in col):
                wb = max(1, hi.bit_length())
                out.append(tm.tbl(8, tm.extract(iw, wb - 1, 0, idx), tuple(col)))
                continue
            if hi + 1 > self.itelim or any(type(c) is tuple for c in col):
                v = self.conc(st, off)
                return ob.c[v:v + n]
            r = None
            for k in range(hi, -1, -1):
                c = col[k]
                if c is None:
                    c = self.fresh(8, 'undef')
                r = c if r is None else tm.ite(8, tm.eq(iw, idx, k), c, r)
            out.append(r)
        return out

    def wr(self, st, p, cells, what):
        n = len(cells)
        o, ob, off = self.access(st, p, n, True, what)
        if isc(off):
            ob.c[off:off + n] = cells
            return
        idx, iw, tz, hi = self.cand(st, off, ob.n, n)
        if hi + 1 > self.itelim or any(type(c) is tuple for c in cells) or any(type(c) is tuple for c in ob.c):
            v = self.conc(st, off)
            ob.c[v:v + n] = cells
            return
        for k in range(hi + 1):
            g = tm.eq(iw, idx, k)
            for b in range(n):
                i = (k << tz) + b
                old = ob.c[i]
                if old is None:
                    old = self.fresh(8, 'undef')
                ob.c[i] = tm.ite(8, g, cells[b], old)

    # ------------------------------------------------------------ solver
    def vs(self, t):
        r = self.vcache.get(t.id)
        if r is None:
            r = frozenset(v.a[0] for v in tm.variables([t]))
            self.vcache[t.id] = r
        return r

    def slice(self, pc, c):
        need = set(self.vs(c))
        rest = [(x, self.vs(x)) for x in pc]
        out = []
        ch = True
        while ch:
            ch = False
            nr = []
            for x, v in rest:
                if not v.isdisjoint(need):
                    out.append(x)
                    if not v <= need:
                        need |= v
                        ch = True
                else:
                    nr.append((x, v))
            rest = nr
        return out

    def solve(self, pc, c, full=False, feas=False):
        """('sat', {name: value}) | ('unsat', None) | ('unknown', None) for pc and c"""
        cs = (list(pc) if full else self.slice(pc, c)) + [c]
        key = frozenset(x.id for x in cs)
        r = self.cache.get(key)
        if r is not None and (feas or r[0] != 'unknown' or r[1] is None):
            return r
        t0 = time.time()
        if t0 > self.deadline:
            raise Limit('time')
        import z3
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(1000 * min(self.fqtimeout if feas else self.qtimeout, max(1, self.deadline - t0))))
        one = z3.BitVecVal(1, 1)
        for x in cs:
            s.add(tm.to_z3(x) == one)
        r = str(s.check())
        if r == 'sat':
            mo = s.model()
            env = {}
            names = set()
            for x in cs:
                names |= self.vs(x)
            for d in mo.decls():
                if d.name() in names:
                    env[d.name()] = mo[d].as_long()
            for n in names:
                env.setdefault(n, 0)
            r = ('sat', env)
        elif r == 'unsat':
            r = ('unsat', None)
        else:
            r = ('unknown', 'short' if feas else None)
        dt = time.time() - t0
        self.solver_time += dt
        self.nquery += 1
        if os.environ.get('VP_QLOG') and dt > float(os.environ['VP_QLOG']):
            print('query %.2fs %s %d constraints: %s' % (dt, r[0], len(cs), tm.show(c, 3)[:200]), flush=True)
        self.cache[key] = r
        return r

    def ev(self, st, t):
        if isc(t):
            return t
        memo = tm.evaluate([t], ModelEnv(st.model), st.model.setdefault('#memo', {}))
        return memo[t.id]

    def assume(self, st, c):
        """add c to the path condition; raises Dead when infeasible.  st.model is kept satisfying."""
        if isc(c):
            if not c:
                raise Dead()
            return
        if c.id in st.pcset:
            return
        if tm.not_(c).id in st.pcset if not isc(tm.not_(c)) else False:
            raise Dead()
        if self.ev(st, c) != 1:
            r, env = self.solve(st.pc, c, feas=True)
            if r == 'unsat':
                raise Dead()
            if r == 'sat':
                self.setmodel(st, env)
            # unknown: keep the path (sound), model may be wrong
            elif r == 'unknown':
                self.badmodel(st)
        self.push(st, c)

    def badmodel(self, st):
        """feasibility not decided: the path is kept (sound), its model no longer counts as a witness"""
        self.setmodel(st, {'#bad': 1})

    def setmodel(self, st, env):
        m = {k: v for k, v in st.model.items() if k != '#memo'}
        m.update(env)
        st.model = m

    def push(self, st, c):
        if c.op == 'and' and c.w == 1:
            self.push(st, c.a[0])
            self.push(st, c.a[1])
            return
        if c.op == 'not' and not isc(c.a[0]) and c.a[0].op == 'or':
            for x in c.a[0].a:
                n = tm.not_(x)
                if isc(n):
                    if not n:
                        raise Dead()
                else:
                    self.push(st, n)
            return
        if c.id in st.pcset:
            return
        st.pc = st.pc + [c]
        st.pcset = st.pcset | {c.id}
        if c.op == 'tbl':
            hit = [k for k in range(min(len(c.a) - 1, tm.ub(c.a[0]) + 1)) if c.a[1 + k]]
            if len(hit) == 1:
                st.sub = dict(st.sub)
                e = tm.eq(c.a[0].w, c.a[0], hit[0])
                if not isc(e):
                    self.implied.add((c.id, e.id))
                    self.push(st, e)
        if c.op == 'eq':
            a, b = c.a[0], c.a[1]
            if isc(b) and not isc(a):
                st.sub = dict(st.sub)
                self.learn(st, a, b)
        elif c.op == 'not' and not isc(c.a[0]):
            st.sub = dict(st.sub)
            st.sub[c.a[0].id] = 0
        st.sub = dict(st.sub) if c.id not in st.sub else st.sub
        st.sub[c.id] = 1
        n = tm.not_(c)
        if not isc(n):
            st.sub[n.id] = 0

    def learn(self, st, a, b):
        st.sub[a.id] = b
        if a.op == 'tbl':
            hit = [k for k in range(min(len(a.a) - 1, tm.ub(a.a[0]) + 1)) if a.a[1 + k] == b]
            if len(hit) == 1:
                e = tm.eq(a.a[0].w, a.a[0], hit[0])
                self.learn(st, a.a[0], hit[0])
                if not isc(e):
                    self.implied.add((tm.eq(a.w, a, b).id, e.id))
                    self.push(st, e)
        if a.op == 'zext':
            self.learn(st, a.a[0], b)
        elif a.op == 'concat':
            lw = a.a[3]
            if not isc(a.a[0]):
                self.learn(st, a.a[0], b >> lw)
            if not isc(a.a[1]):
                self.learn(st, a.a[1], b & mask(lw))

    def restr(self, st):
        r = self.restrc.get(st.pcset, 0)
        if r == 0:
            if len(self.restrc) > 500:
                self.restrc.clear()
            dom = {self.vars[n].id: b for n, b in self.domains(st.pc).items() if b > 0 and self.vars[n].w == 8}
            r = None
            if dom:
                R = lin.Restrict(dom)
                r = (R, {R.red(f) for f in st.pcforms()} - {0, 1})
            self.restrc[st.pcset] = r
        return r

    restrc = {}

    def linval(self, st, c):
        """truth of c from normal forms alone (1, 0 or None)"""
        if isc(c):
            return c
        if not self.opts.get('lin', True):
            return None
        s = st.sub.get(c.id)
        if s is not None:
            return s
        f = lin.form(c, 1)[0]
        if f < 2:
            return f
        k = st.pcforms()
        if f in k:
            return 1
        if f ^ 1 in k:
            return 0
        R = self.restr(st)
        if R is not None:
            g = R[0].red(f)
            if g < 2:
                return g
            if g in R[1]:
                return 1
            if g ^ 1 in R[1]:
                return 0
        if c.op in ('and', 'or') and c.w == 1:
            z = 0 if c.op == 'and' else 1
            a = self.linval(st, c.a[0])
            if a == z:
                return z
            b = self.linval(st, c.a[1])
            if b == z:
                return z
            if a is not None and b is not None:
                return 1 - z
        elif c.op == 'not':
            a = self.linval(st, c.a[0])
            return None if a is None else 1 - a
        elif c.op == 'ite' and c.w == 1:
            a = self.linval(st, c.a[0])
            if a is not None:
                return self.linval(st, c.a[1] if a else c.a[2])
        elif c.op == 'eq' and c.a[2] == 1:
            a, b = self.linval(st, c.a[0]), self.linval(st, c.a[1])
            if a is not None and b is not None:
                return int(a == b)
        return None

    def skeleton(self, st, c):
        """is c a propositional consequence of the path conditions, with conditions of equal normal form identified?"""
        if not self.opts.get('lin', True):
            return False
        import z3
        R = self.restr(st)
        memo, vars_ = {}, {}
        size = [0]

        def b(x):
            if isc(x):
                return z3.BoolVal(bool(x))
            r = memo.get(x.id)
            if r is not None:
                return r
            size[0] += 1
            if x.op in ('and', 'or', 'xor') and x.w == 1:
                p, q = b(x.a[0]), b(x.a[1])
                r = z3.And(p, q) if x.op == 'and' else z3.Or(p, q) if x.op == 'or' else z3.Xor(p, q)
            elif x.op == 'not':
                r = z3.Not(b(x.a[0]))
            elif x.op == 'ite' and x.w == 1:
                r = z3.If(b(x.a[0]), b(x.a[1]), b(x.a[2]))
            else:
                g = lin.form(x, 1)[0]
                if R is not None:
                    g = R[0].red(g)
                if g < 2:
                    r = z3.BoolVal(bool(g))
                else:
                    k = g & ~1
                    v = vars_.get(k)
                    if v is None:
                        v = vars_[k] = z3.Bool('a%d' % len(vars_))
                    r = z3.Not(v) if g & 1 else v
            memo[x.id] = r
            return r
        s = z3.Solver()
        s.set('timeout', 3000)
        for x in self.slice(st.pc, c):
            s.add(b(x))
        s.add(z3.Not(b(c)))
        return str(s.check()) == 'unsat'

    def decide(self, st, c):
        """truth of c on this path; splits the path if both are possible"""
        if isc(c):
            return bool(c)
        s = st.sub.get(c.id)
        if s is not None:
            return bool(s)
        f = flo.decide(c) if self.opts.get('flo') else self.linval(st, c)
        if f is not None:
            st.sub = dict(st.sub)
            st.sub[c.id] = f
            self.nlin += 1
            return bool(f)
        v = self.ev(st, c)
        other = tm.not_(c) if v else c
        r, env = self.solve(st.pc, other, feas=True)
        if r == 'unsat':
            st.sub = dict(st.sub)
            st.sub[c.id] = v
            return bool(v)
        raise Split(c)

    def conc(self, st, t):
        if isc(t):
            return t
        s = st.sub.get(t.id)
        if s is not None:
            return s
        v = self.ev(st, t)
        if self.decide(st, tm.eq(t.w, t, v)):
            st.sub = dict(st.sub)
            st.sub[t.id] = v
            return v
        return self.conc(st, t)

    # ------------------------------------------------------------ obligations
    memobs = 0
    npoly = 0

    def count(self, kind, text, status='SUCCESS'):
        k = (kind, text)
        e = self.obs.get(k)
        if e is None:
            self.obs[k] = [1, status]
        else:
            e[0] += 1
            if status != 'SUCCESS':
                e[1] = status

    def fail_ob(self, st, kind, text):
        """obligation false on every input of this path (the path is feasible by its model)"""
        if not self.confirm_model(st):
            self.count(kind, text, 'UNKNOWN')
            self.unknown.append(text)
            return
        self.count(kind, text, 'FAILURE')
        self.fails.append((kind, text, self.inputs(st.nd, st.model)))
        if len(self.fails) >= self.maxfail:
            raise Limit('failures')

    def confirm_model(self, st):
        for c in st.pc:
            if self.ev(st, c) != 1:
                import z3
                s = z3.SolverFor('QF_BV')
                s.set('timeout', 60000)
                for x in st.pc:
                    s.add(tm.to_z3(x) == z3.BitVecVal(1, 1))
                r = str(s.check())
                if r == 'unsat':
                    raise Dead()
                if r == 'sat':
                    mo = s.model()
                    st.model = {k: v for k, v in st.model.items() if k[0] != '#'}
                    st.model.update({d.name(): mo[d].as_long() for d in mo.decls()})
                    return True
                return False
        return True

    def inputs(self, nd, model):
        env = ModelEnv(model)
        out = []
        for x in nd:
            if isc(x):
                out.append(x)
            else:
                out.append(tm.evaluate([x], env)[x.id])
        return out

    def domains(self, pc):
        """what the conditions say about single byte variables: {name: bit set of possible values}"""
        dom = {}
        for x in pc:
            v = self.vs(x)
            if len(v) == 1:
                n, = v
                var = self.vars[n]
                if var.w > 8:
                    continue
                b = self.domc.get(x.id)
                if b is None:
                    b = 0
                    for k in range(1 << var.w):
                        if tm.evaluate([x], {var.id: k})[x.id]:
                            b |= 1 << k
                    self.domc[x.id] = b
                dom[n] = dom.get(n, -1) & b
        return dom

    def polyeq(self, st, c):
        if poly.equal(c.a[2], c.a[0], c.a[1], st.pc):
            return True
        # use what the path says about single byte variables (look-up tables, excluded characters)
        pc = self.slice(st.pc, c)
        dom = self.domains(pc)
        if not dom:
            return False
        single = {n: b.bit_length() - 1 for n, b in dom.items() if b > 0 and b & (b - 1) == 0}

        def leaf(x):
            if x.op == 'var':
                return single.get(x.a[0])
            if x.op == 'tbl' and x.a[0].op == 'var' and x.a[0].a[0] in dom:
                b = dom[x.a[0].a[0]]
                vals = x.a[1:]
                low = (b & -b).bit_length() - 1
                if low < 0 or low >= len(vals):
                    return None
                nv = tuple(v if b >> k & 1 else vals[low] for k, v in enumerate(vals))
                if nv != vals:
                    return tm.tbl(x.w, x.a[0], nv)
            return None
        memo = {}
        d = tm.rewrite(c, leaf, memo)
        if isc(d):
            return bool(d)
        return d.op == 'eq' and poly.equal(d.a[2], d.a[0], d.a[1], [tm.rewrite(x, leaf, memo) for x in pc if self.vs(x) and not isc(tm.rewrite(x, leaf, memo))])

    domc = {}

    def prove(self, st, c, kind, text):
        if isc(c):
            if c:
                self.count(kind, text)
                return
            self.fail_ob(st, kind, text)
            raise Dead()
        if st.sub.get(c.id) == 1:
            self.count(kind, text)
            return
        n = tm.not_(c)
        if self.ev(st, c) == 0 and '#bad' not in st.model:
            r, env = 'sat', {}
        elif self.opts.get('flo') and flo.decide(c) == 1:
            r, env = 'unsat', None
            self.npoly += 1
        elif self.opts.get('canon') and c.op == 'eq' and canon.equal(c.a[2], c.a[0], c.a[1]):
            r, env = 'unsat', None
        elif c.op == 'eq' and self.polyeq(st, c):
            r, env = 'unsat', None
            self.npoly += 1
        elif self.linval(st, c) == 1 or self.skeleton(st, c):
            r, env = 'unsat', None
            self.nlin += 1
        else:
            r, env = self.solve(st.pc, n)
            if r == 'sat' and '#bad' in st.model:
                r, env = self.solve(st.pc, n, full=True)
        if r == 'unsat':
            self.count(kind, text)
            st.sub = dict(st.sub)
            st.sub[c.id] = 1
            return
        if r == 'unknown':
            self.count(kind, text, 'UNKNOWN')
            self.unknown.append(text)
        else:
            m = {k: v for k, v in st.model.items() if k != '#memo'}
            m.update(env)
            self.count(kind, text, 'FAILURE')
            self.fails.append((kind, text, self.inputs(st.nd, m)))
            if len(self.fails) >= self.maxfail:
                raise Limit('failures')
        self.assume(st, c)

    # ------------------------------------------------------------ compile
    def compile(self, name):
        cf = self.cfs.get(name)
        if cf:
            return cf
        f = self.m.funcs[name]
        cf = CF()
        cf.name = name
        cf.params = [nm for (_, nm) in f.params]
        cf.byval = f.byval
        cf.contract = name in self.m.contract_funcs
        cf.index = {l: i for i, (l, _) in enumerate(f.blocks)}
        cf.labels = [l for (l, _) in f.blocks]
        cf.blocks = []
        succ = []
        for (l, ins) in f.blocks:
            phis = []
            code = []
            for I in ins:
                if I.op == 'phi':
                    phis.append((I.res, {cf.index[lb]: self.opd(I.ty, v) for (v, lb) in I.args}))
                else:
                    code.append((self.cinstr(I, cf), I.text))
            T_ = ins[-1]
            if T_.op == 'br':
                s = [cf.index[x] for x in T_.extra]
            elif T_.op == 'switch':
                s = [cf.index[T_.extra[0]]] + [cf.index[x] for (_, x) in T_.extra[1]]
            else:
                s = []
            succ.append(s)
            cf.blocks.append((phis, code))
        self.analyse(cf, succ)
        self.cfs[name] = cf
        return cf

    def analyse(self, cf, succ):
        n = len(succ)
        # immediate post-dominators (virtual exit n)
        exits = [i for i in range(n) if not succ[i]]
        full = (1 << (n + 1)) - 1
        pd = [full] * (n + 1)
        pd[n] = 1 << n
        pred = [[] for _ in range(n)]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                s = succ[i] or [n]
                x = full
                for j in s:
                    x &= pd[j]
                x |= 1 << i
                if x != pd[i]:
                    pd[i] = x
                    ch = True
        cf.ipdom = []
        for i in range(n):
            c = pd[i] & ~(1 << i)
            best = None
            # the immediate one is the post-dominator that all others post-dominate: largest pd set
            k = c
            bestn = -1
            while k:
                b = k & -k
                j = b.bit_length() - 1
                k ^= b
                cnt = bin(pd[j]).count('1')
                if cnt > bestn:
                    bestn, best = cnt, j
            cf.ipdom.append(None if best in (None, n) else best)
        # dominators and natural loops
        dom = [(1 << n) - 1] * n
        dom[0] = 1
        ch = True
        while ch:
            ch = False
            for i in range(1, n):
                x = (1 << n) - 1
                for j in pred[i]:
                    x &= dom[j]
                if not pred[i]:
                    x = 0
                x |= 1 << i
                if x != dom[i]:
                    dom[i] = x
                    ch = True
        loops = {}
        for i in range(n):
            for j in succ[i]:
                if dom[i] >> j & 1:
                    body = {j}
                    st = [i]
                    while st:
                        b = st.pop()
                        if b not in body:
                            body.add(b)
                            st += pred[b]
                    loops.setdefault(j, set()).update(body)
        cf.exits = set()
        for body in loops.values():
            for b in body:
                if any(s not in body for s in succ[b]):
                    cf.exits.add(b)

    def opd(self, t, v):
        if v[0] == 'loc':
            return (v[1], None)
        if v[0] == 'undef' and t[0] == 'int':
            return (None, 0)
        return (None, self.const(t, v))

    def cinstr(self, I, cf):
        op = I.op
        f = getattr(self, 'c_' + op, None)
        if f is None:
            if op in BINF:
                return self.c_bin(I)
            raise SymError('instruction ' + I.text)
        return f(I) if op not in ('br', 'switch') else f(I, cf)

    def c_bin(self, I):
        (ka, ca), (kb, cb) = self.opd(*I.args[0]), self.opd(*I.args[1])
        res = I.res
        if I.ty[0] == 'fp':
            import operator
            fo = {'fadd': operator.add, 'fsub': operator.sub, 'fmul': operator.mul, 'fdiv': operator.truediv}[I.op]

            def fq(st, fr):
                env = fr.env
                env[res] = fo(env[ka] if ka else ca, env[kb] if kb else cb)
            return fq
        w = I.ty[1]
        op = I.op
        m = mask(w)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            sf = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'and': tm.and_, 'or': tm.or_, 'xor': tm.xor}[op]
            import operator
            cfn = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'and': operator.and_, 'or': operator.or_, 'xor': operator.xor}[op]

            def q(st, fr):
                env = fr.env
                a = env[ka] if ka else ca
                b = env[kb] if kb else cb
                if type(a) is int and type(b) is int:
                    env[res] = cfn(a, b) & m
                elif type(a) in (int, T) and type(b) in (int, T):
                    env[res] = sf(w, a, b)
                else:
                    env[res] = self.ptrbin(op, w, a, b)
            return q
        if op in ('shl', 'lshr', 'ashr'):
            sf = {'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr}[op]

            def q2(st, fr):
                env = fr.env
                a = env[ka] if ka else ca
                b = env[kb] if kb else cb
                if (b if type(b) is int else tm.ub(b)) >= w:
                    # the value is undefined: any
                    v = self.fresh(w, 'shift')
                    env[res] = v if type(b) is int else tm.ite(w, tm.ult(w, b, w), sf(w, a, b), v)
                    return
                env[res] = sf(w, a, b)
            return q2
        sf = {'udiv': tm.udiv, 'urem': tm.urem, 'sdiv': tm.sdiv, 'srem': tm.srem}[op]

        def q3(st, fr):
            env = fr.env
            a = env[ka] if ka else ca
            b = env[kb] if kb else cb
            self.prove(st, tm.not_(tm.eq(w, b, 0)), 'div', 'division by non-zero: ' + I.text)
            env[res] = sf(w, a, b)
        return q3

    def ptrbin(self, op, w, a, b):
        if op == 'sub' and w == 64:
            return self.bin_sub(w, a, b)
        if op == 'add' and w == 64:
            if type(a) is Ptr:
                return self.padd(a, b if not isc(b) else tm.sgn(b, 64))
            return self.padd(b, a if not isc(a) else tm.sgn(a, 64))
        raise SymError('integer operation on pointers: ' + op)

    def bin_sub(self, w, a, b):
        if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
            return tm.sub(64, a.off if not isc(a.off) else a.off & mask(64), b.off if not isc(b.off) else b.off & mask(64))
        if type(a) is Ptr and type(b) in (int, T):
            return self.padd(a, tm.sub(64, 0, b))
        raise SymError('difference of unrelated pointers')

    def c_icmp(self, I):
        (ka, ca), (kb, cb) = self.opd(*I.args[0]), self.opd(*I.args[1])
        res = I.res
        pred = I.extra
        t = I.args[0][0]
        w = 64 if t[0] == 'ptr' else t[1]

        def q(st, fr):
            env = fr.env
            a = env[ka] if ka else ca
            b = env[kb] if kb else cb
            if type(a) in (int, T) and type(b) in (int, T):
                if type(a) is T:
                    a = st.sub.get(a.id, a)
                if type(b) is T:
                    b = st.sub.get(b.id, b)
                if pred == 'eq':
                    r = tm.eq(w, a, b)
                elif pred == 'ne':
                    r = tm.not_(tm.eq(w, a, b))
                elif pred == 'ult':
                    r = tm.ult(w, a, b)
                elif pred == 'ugt':
                    r = tm.ult(w, b, a)
                elif pred == 'ule':
                    r = tm.ule(w, a, b)
                elif pred == 'uge':
                    r = tm.ule(w, b, a)
                elif pred == 'slt':
                    r = tm.slt(w, a, b)
                elif pred == 'sgt':
                    r = tm.slt(w, b, a)
                elif pred == 'sle':
                    r = tm.sle(w, a, b)
                else:
                    r = tm.sle(w, b, a)
                env[res] = r
                return
            env[res] = self.pcmp(st, pred, a, b)
        return q

    def pcmp(self, st, pred, a, b):
        if type(a) is Ptr and type(b) is Ptr and a.o == b.o:
            x = a.off if not isc(a.off) else a.off & mask(64)
            y = b.off if not isc(b.off) else b.off & mask(64)
            f = {'eq': tm.eq, 'ult': tm.slt, 'ule': tm.sle, 'slt': tm.slt, 'sle': tm.sle}
            if pred == 'ne':
                return tm.not_(tm.eq(64, x, y))
            if pred in f:
                return f[pred](64, x, y)
            return f[{'ugt': 'ult', 'uge': 'ule', 'sgt': 'slt', 'sge': 'sle'}[pred]](64, y, x)
        if pred == 'eq':
            return int(a == b) if type(a) is Fn and type(b) is Fn else 0
        if pred == 'ne':
            return int(a != b) if type(a) is Fn and type(b) is Fn else 1
        if type(b) is int and b == 0:
            return {'ugt': 1, 'uge': 1, 'ult': 0, 'ule': 0}[pred]
        if type(a) is int and a == 0:
            return {'ugt': 0, 'uge': 0, 'ult': 1, 'ule': 1}[pred]
        raise SymError('comparison of unrelated pointers')

    def c_load(self, I):
        (kp, cp) = self.opd(*I.args[0])
        t, res, text = I.ty, I.res, I.text
        n = self.szal(t)[0]
        isb = t == ('int', 1)

        def q(st, fr):
            env = fr.env
            p = env[kp] if kp else cp
            cells = self.rd(st, p, n, text)
            env[res] = self.fromcells(st, t, cells, text)
        return q

    def c_store(self, I):
        (kv, cv) = self.opd(*I.args[0])
        (kp, cp) = self.opd(*I.args[1])
        t, text = I.args[0][0], I.text

        def q(st, fr):
            env = fr.env
            v = env[kv] if kv else cv
            p = env[kp] if kp else cp
            self.wr(st, p, self.tocells(t, v), text)
        return q

    def c_alloca(self, I):
        t, res = I.extra, I.res
        cnt = self.opd(*I.args[0]) if I.args else None
        sz = self.szal(t)[0]

        def q(st, fr):
            n = 1
            if cnt:
                n = self.conc(st, fr.env[cnt[0]] if cnt[0] else cnt[1])
            p = self.alloc(st, n * sz, 'stack', res)
            fr.allocas.append(p.o)
            fr.env[res] = p
        return q

    def c_getelementptr(self, I):
        st_, res = I.extra, I.res
        (kb, cb) = self.opd(*I.args[0])
        const = 0
        dyn = []
        t = st_
        for i, (it, iv) in enumerate(I.args[1:]):
            if i == 0:
                s = self.szal(st_)[0]
            elif t[0] in ('struct', 'lit'):
                const += self.foff(t, iv[1])
                t = self.fields(t)[iv[1]]
                continue
            else:
                s = self.szal(t[2])[0]
                t = t[2]
            if iv[0] == 'int':
                const += s * tm.sgn(iv[1] & mask(it[1]), it[1])
            else:
                dyn.append((iv[1], it[1], s))
        if not dyn:
            def q(st, fr):
                b = fr.env[kb] if kb else cb
                if type(b) is Ptr and type(b.off) is int:
                    fr.env[res] = Ptr(b.o, b.off + const)
                else:
                    fr.env[res] = self.padd(b, const)
            return q

        def q(st, fr):
            env = fr.env
            b = env[kb] if kb else cb
            off = const
            for (k, w, s) in dyn:
                x = env[k]
                if type(x) is T:
                    x = st.sub.get(x.id, x)
                if type(x) is int:
                    x = tm.sgn(x, w) * s
                    if type(off) is int:
                        off += x
                    else:
                        off = tm.add(64, off, x & mask(64))
                else:
                    x = tm.mul(64, tm.sext(w, 64, x), s)
                    off = tm.add(64, x, off & mask(64) if type(off) is int else off)
                    if isc(off):
                        off = tm.sgn(off, 64)
            env[res] = self.padd(b, off)
        return q

    def c_select(self, I):
        (kc, cc), (ka, ca), (kb, cb) = [self.opd(*a) for a in I.args]
        res, t = I.res, I.ty

        def q(st, fr):
            env = fr.env
            c = env[kc] if kc else cc
            a = env[ka] if ka else ca
            b = env[kb] if kb else cb
            if type(c) is T:
                c = st.sub.get(c.id, c)
            if isc(c):
                env[res] = a if c else b
                return
            if type(a) in (int, T) and type(b) in (int, T):
                env[res] = tm.ite(64 if t[0] == 'ptr' else t[1], c, a, b)
            else:
                env[res] = a if self.decide(st, c) else b
        return q

    def c_freeze(self, I):
        (ka, ca) = self.opd(*I.args[0])
        res = I.res

        def q(st, fr):
            fr.env[res] = fr.env[ka] if ka else ca
        return q

    def c_cast(self, I):
        (ka, ca) = self.opd(*I.args[0])
        res, op = I.res, I.op
        t1, t2 = I.args[0][0], I.ty
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            def q(st, fr):
                fr.env[res] = fr.env[ka] if ka else ca
            return q
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            def q(st, fr):
                a = fr.env[ka] if ka else ca
                if op in ('sitofp', 'uitofp'):
                    a = self.conc(st, a)
                    fr.env[res] = float(tm.sgn(a, t1[1]) if op == 'sitofp' else a)
                elif op in ('fptosi', 'fptoui'):
                    fr.env[res] = int(a) & mask(t2[1])
                else:
                    fr.env[res] = a
            return q
        w, w2 = t1[1], t2[1]
        if op == 'trunc':
            def q(st, fr):
                a = fr.env[ka] if ka else ca
                if type(a) is int:
                    fr.env[res] = a & mask(w2)
                elif type(a) is T:
                    fr.env[res] = tm.extract(w, w2 - 1, 0, a)
                else:
                    raise SymError('truncation of a pointer')
            return q
        f = tm.zext if op == 'zext' else tm.sext

        def q(st, fr):
            a = fr.env[ka] if ka else ca
            fr.env[res] = f(w, w2, a)
        return q
    c_trunc = c_zext = c_sext = c_ptrtoint = c_inttoptr = c_bitcast = c_sitofp = c_uitofp = c_fptosi = c_fptoui = c_fpext = c_fptrunc = c_cast

    def c_extractvalue(self, I):
        (ka, ca) = self.opd(*I.args[0])
        res, idx = I.res, I.extra

        def q(st, fr):
            a = fr.env[ka] if ka else ca
            for i in idx:
                a = a[i]
            fr.env[res] = a
        return q

    def c_insertvalue(self, I):
        (ka, ca) = self.opd(*I.args[0])
        (kb, cb) = self.opd(*I.args[1])
        res, idx = I.res, I.extra

        def ins(a, idx, b):
            l = list(a)
            l[idx[0]] = b if len(idx) == 1 else ins(l[idx[0]], idx[1:], b)
            return tuple(l)

        def q(st, fr):
            a = fr.env[ka] if ka else ca
            fr.env[res] = ins(a, idx, fr.env[kb] if kb else cb)
        return q

    def c_unreachable(self, I):
        def q(st, fr):
            self.fail_ob(st, 'mem', 'unreachable code reached (' + self.dem(fr.cf.name) + ')')
            raise Dead()
        return q

    def c_ret(self, I):
        o = self.opd(*I.args[0]) if I.args else None

        def q(st, fr):
            v = None
            if o:
                v = fr.env[o[0]] if o[0] else o[1]
            for a in fr.allocas:
                st.mem.pop(a, None)
            st.frames.pop()
            if st.frames:
                c = st.frames[-1]
                if fr.ret is not None:
                    c.env[fr.ret] = v
                c.ip += 1
            return ('ret',)
        return q

    def c_br(self, I, cf):
        if not I.args:
            t = cf.index[I.extra[0]]

            def q(st, fr):
                return ('jmp', t)
            return q
        (kc, cc) = self.opd(*I.args[0])
        t1, t2 = cf.index[I.extra[0]], cf.index[I.extra[1]]

        def q(st, fr):
            c = fr.env[kc] if kc else cc
            if type(c) is int:
                return ('jmp', t1 if c else t2)
            s = st.sub.get(c.id)
            if s is not None:
                return ('jmp', t1 if s else t2)
            return ('br', [(c, t1), (tm.not_(c), t2)])
        return q

    def c_switch(self, I, cf):
        (kv, cv) = self.opd(*I.args[0])
        w = I.args[0][0][1]
        d = cf.index[I.extra[0]]
        cases = [(c[1][1] & mask(w), cf.index[l]) for (c, l) in I.extra[1]]

        def q(st, fr):
            v = fr.env[kv] if kv else cv
            if type(v) is T:
                v = st.sub.get(v.id, v)
            if type(v) is int:
                for (c, l) in cases:
                    if c == v:
                        return ('jmp', l)
                return ('jmp', d)
            g = {}
            dn = 1
            for (c, l) in cases:
                e = tm.eq(w, v, c)
                g[l] = tm.or_(1, g[l], e) if l in g else e
                dn = tm.and_(1, dn, tm.not_(e))
            g[d] = tm.or_(1, g[d], dn) if d in g else dn
            return ('br', [(c, l) for l, c in g.items()])
        return q

    def c_call(self, I):
        callee, byv = I.extra
        args = [self.opd(*a) if a[0][0] != 'metadata' else (None, 0) for a in I.args]
        res = I.res
        if callee[0] == 'glob':
            g = self.resolve(callee[1])
            if g.startswith('@llvm.') or g not in self.m.funcs or g in MODELS:
                f = self.model(g, I)
                if f is None:
                    raise SymError('no model for external function ' + g)

                def q(st, fr):
                    env = fr.env
                    r = f(st, [env[k] if k else c for (k, c) in args])
                    if res is not None:
                        env[res] = r
                return q

            def q(st, fr):
                env = fr.env
                return self.enter(st, fr, g, [env[k] if k else c for (k, c) in args], res, byv)
            return q
        kf = callee[1]

        def q(st, fr):
            env = fr.env
            p = env[kf]
            if type(p) is not Fn:
                self.fail_ob(st, 'mem', 'call through an invalid function pointer')
                raise Dead()
            g = self.resolve(p.name)
            a = [env[k] if k else c for (k, c) in args]
            if g in self.m.funcs and g not in MODELS:
                return self.enter(st, fr, g, a, res, byv)
            r = self.model(g, I)(st, a)
            if res is not None:
                env[res] = r
        return q

    def enter(self, st, fr, g, args, res, byv):
        cf = self.compile(g)
        if not cf.contract:
            self.funcs_run.add(g)
        nf = Frame()
        nf.cf = cf
        nf.env = {}
        nf.allocas = []
        for i, nm in enumerate(cf.params):
            a = args[i]
            if i in cf.byval:
                t = cf.byval[i]
                n = self.szal(t)[0]
                p = self.alloc(st, n, 'stack', 'byval')
                self.wr(st, p, self.rd(st, a, n, 'byval argument of ' + g), 'byval')
                nf.allocas.append(p.o)
                a = p
            nf.env[nm] = a
        nf.blk = 0
        nf.ip = 0
        nf.ret = res
        if len(st.frames) > 400:
            raise Limit('call depth')
        st.frames.append(nf)
        return ('call',)

    # ------------------------------------------------------------ library models
    def model(self, g, I):
        n = g[1:]
        if n.startswith('llvm.'):
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.donothing')):
                return lambda st, a: None
            if n.startswith('llvm.stacksave'):
                return lambda st, a: 0
            if n.startswith('llvm.stackrestore'):
                return lambda st, a: None
            if n.startswith('llvm.memcpy'):
                return self.m_memcpy
            if n.startswith('llvm.memmove'):
                return self.m_memcpy
            if n.startswith('llvm.memset'):
                return self.m_memset
            if n.startswith('llvm.umul.with.overflow'):
                w = I.args[0][0][1]

                def f(st, a):
                    x, y = a
                    p = tm.mul(2 * w, tm.zext(w, 2 * w, x), tm.zext(w, 2 * w, y))
                    return (tm.mul(w, x, y), tm.not_(tm.eq(w, tm.extract(2 * w, 2 * w - 1, w, p), 0)))
                return f
            if n.startswith('llvm.uadd.with.overflow'):
                w = I.args[0][0][1]

                def f(st, a):
                    s = tm.add(w, a[0], a[1])
                    return (s, tm.ult(w, s, a[0]))
                return f
            if n.startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
                w = I.args[0][0][1]
                lt = tm.ult if n[5] == 'u' else tm.slt

                def f(st, a):
                    c = lt(w, a[0], a[1])
                    return tm.ite(w, c, a[0], a[1]) if 'min' in n else tm.ite(w, c, a[1], a[0])
                return f
            if n.startswith('llvm.bswap'):
                w = I.args[0][0][1]

                def f(st, a):
                    r = 0
                    for i in range(w // 8):
                        r = tm.or_(w, r, tm.shl(w, tm.zext(8, w, tm.extract(w, 8 * i + 7, 8 * i, a[0])), w - 8 - 8 * i))
                    return r
                return f
            if n.startswith(('llvm.fshl', 'llvm.fshr')):
                w = I.args[0][0][1]

                def f(st, a):
                    k = self.conc(st, a[2]) % w
                    if n.startswith('llvm.fshr'):
                        k = (w - k) % w if k else 0
                        if k == 0:
                            return a[1]
                    if k == 0:
                        return a[0]
                    return tm.or_(w, tm.shl(w, a[0], k), tm.lshr(w, a[1], w - k))
                return f
            if n.startswith('llvm.ctlz'):
                w = I.args[0][0][1]

                def f(st, a):
                    if isc(a[0]):
                        return w - a[0].bit_length()
                    r = w
                    for i in range(w):
                        r = tm.ite(w, tm.extract(w, i, i, a[0]), w - 1 - i, r)
                    return r
                return f
            raise SymError('intrinsic ' + n)
        return getattr(self, 'm_' + n, None)

    def bytes_at(self, st, p, n, what):
        return self.rd(st, p, n, what) if n else []

    def m_memcpy(self, st, a):
        n = self.conc(st, a[2])
        if n:
            if n > 1 << 24:
                self.fail_ob(st, 'mem', 'copy of %d bytes' % n)
                raise Dead()
            cells = self.rd(st, a[1], n, 'memcpy source')
            self.wr(st, a[0], cells, 'memcpy destination')
        return a[0]
    m_memmove = m_memcpy

    def m_memset(self, st, a):
        n = self.conc(st, a[2])
        if n:
            if n > 1 << 24:
                self.fail_ob(st, 'mem', 'fill of %d bytes' % n)
                raise Dead()
            v = a[1]
            if type(v) is int:
                v &= 255
            elif v.w > 8:
                v = tm.trunc(v.w, 8, v)
            self.wr(st, a[0], [v] * n, 'memset')
        return a[0]

    def m_malloc(self, st, a, kind='malloc', fill=None):
        n = self.conc(st, a[0])
        if n > self.opts.get('maxalloc', 1 << 20):
            self.fail_ob(st, 'mem', 'allocation of %d bytes' % n) if self.opts.get('bigalloc') else None
            return 0
        return self.alloc(st, n, kind, kind + '(%d)' % n, fill)

    def m_calloc(self, st, a):
        n = self.conc(st, a[0]) * self.conc(st, a[1])
        return self.m_malloc(st, [n], 'malloc', 0)

    def m_realloc(self, st, a):
        if a[0] == 0 and type(a[0]) is int:
            return self.m_malloc(st, [a[1]])
        n = self.conc(st, a[1])
        p = a[0]
        self.freecheck(st, p, 'malloc', 'realloc')
        ob = self.obj(st, p.o, True)
        if n > self.opts.get('maxalloc', 1 << 20):
            return 0
        q = self.alloc(st, n, 'malloc', 'realloc(%d)' % n)
        k = min(n, ob.n)
        st.mem[q.o].c[:k] = ob.c[:k]
        ob.alive = False
        return q

    def freecheck(self, st, p, kind, fn):
        if type(p) is not Ptr:
            self.fail_ob(st, 'mem', fn + ' of an invalid pointer')
            raise Dead()
        ob = self.obj(st, p.o, True)
        if ob is None or not ob.alive:
            self.fail_ob(st, 'mem', 'memory released twice (' + fn + ')')
            raise Dead()
        if ob.kind not in ('malloc', 'new', 'new[]') or not isc(p.off) or p.off != 0:
            self.fail_ob(st, 'mem', fn + ' of a pointer that was not allocated')
            raise Dead()
        if ob.kind != kind:
            self.fail_ob(st, 'mem', 'memory from %s released with %s' % (ob.kind, fn))
            raise Dead()
        self.memobs += 1
        return ob

    def m_free(self, st, a, kind='malloc', fn='free'):
        if type(a[0]) is int and a[0] == 0:
            return None
        self.freecheck(st, a[0], kind, fn).alive = False
        return None

    def m__Znam(self, st, a):
        return self.m_malloc(st, a, 'new[]')

    def m__Znwm(self, st, a):
        return self.m_malloc(st, a, 'new')

    def m__ZdaPv(self, st, a):
        return self.m_free(st, a, 'new[]', 'delete[]')

    def m__ZdlPv(self, st, a):
        return self.m_free(st, a, 'new', 'delete')
    m__ZdaPvm = m__ZdaPv
    m__ZdlPvm = m__ZdlPv

    def m_memcmp(self, st, a):
        n = self.conc(st, a[2])
        if not n:
            return 0
        x = self.plain(st, self.rd(st, a[0], n, 'memcmp'))
        y = self.plain(st, self.rd(st, a[1], n, 'memcmp'))
        r = 0
        for i in range(n - 1, -1, -1):
            e = tm.eq(8, x[i], y[i])
            if isc(e) and e:
                continue
            r = tm.ite(32, e, r, tm.ite(32, tm.ult(8, x[i], y[i]), mask(32), 1))
        return r

    def plain(self, st, cells):
        out = []
        for c in cells:
            if c is None:
                c = self.fresh(8, 'undef')
            elif type(c) is tuple:
                raise SymError('pointer bytes used as data')
            elif type(c) is T:
                c = st.sub.get(c.id, c)
            out.append(c)
        return out

    def m_strchr(self, st, a):
        p, c = a
        c = tm.trunc(32, 8, c)
        if type(c) is T:
            c = st.sub.get(c.id, c)
        if type(p) is Ptr and isc(p.off):
            ob = self.obj(st, p.o)
            i = p.off
            seq = []
            while ob is not None and ob.alive and 0 <= i < ob.n and type(ob.c[i]) is int:
                seq.append(ob.c[i])
                if ob.c[i] == 0:
                    break
                i += 1
            if seq and seq[-1] == 0:
                tab = {}
                for j, x in enumerate(seq):
                    tab.setdefault(x, j)
                if isc(c):
                    return Ptr(p.o, p.off + tab[c]) if c in tab else 0
                if not self.decide(st, tm.tbl(1, c, tuple(int(x in tab) for x in range(256)))):
                    return 0
                return Ptr(p.o, tm.add(64, tm.tbl(64, c, tuple(tab.get(x, 0) for x in range(256))), p.off))
        i = 0
        while True:
            x = self.plain(st, self.rd(st, self.padd(p, i), 1, 'strchr'))[0]
            if self.decide(st, tm.eq(8, x, c)):
                return self.padd(p, i)
            if self.decide(st, tm.eq(8, x, 0)):
                return 0
            i += 1

    def m_strlen(self, st, a):
        i = 0
        while True:
            x = self.plain(st, self.rd(st, self.padd(a[0], i), 1, 'strlen'))[0]
            if self.decide(st, tm.eq(8, x, 0)):
                return i
            i += 1

    def m_rand(self, st, a):
        return self.fresh(32, 'rand')

    def m___assert_fail(self, st, a):
        self.fail_ob(st, 'assert', 'assert() in the code')
        raise Dead()

    def m___cxa_pure_virtual(self, st, a):
        self.fail_ob(st, 'mem', 'pure virtual call')
        raise Dead()

    # contract vocabulary
    def cstr(self, st, p):
        ob = self.obj(st, p.o)
        s = bytearray()
        i = p.off
        while ob.c[i]:
            s.append(ob.c[i])
            i += 1
        return s.decode()

    def m_vp_check(self, st, a):
        self.prove(st, self.bit(a[0]), 'OB', self.cstr(st, a[1]))

    def bit(self, x):
        return x if isc(x) or x.w == 1 else tm.trunc(x.w, 1, x)

    def m_vp_assume(self, st, a):
        self.assume(st, self.bit(a[0]))

    def m_vp_reached(self, st, a):
        self.reached.add(self.cstr(st, a[0]))

    def m_nd_u64(self, st, a):
        v = self.fresh(64, 'nd')
        st.nd = st.nd + [v]
        return v

    def m_nd_u8(self, st, a):
        v = self.fresh(8, 'nd')
        st.nd = st.nd + [v]
        return v

    def m_nd_range(self, st, a):
        lo, hi = self.conc(st, a[0]), self.conc(st, a[1])
        if lo > hi:
            raise Dead()
        if lo == hi:
            st.nd = st.nd + [lo]
            return lo
        w = max(1, (hi - lo).bit_length())
        v = self.fresh(w, 'nr')
        x = tm.add(64, tm.zext(w, 64, v), lo)
        st.nd = st.nd + [x]
        if hi - lo != mask(w):
            self.assume(st, tm.ule(w, v, hi - lo))
        return x

    def m_nd_pick(self, st, a):
        """like nd_range, but split into one path per value"""
        return self.conc(st, self.nd_pick_cached(st, a))

    def nd_pick_cached(self, st, a):
        fr = st.frames[-1]
        k = ('pick', len(st.frames), fr.ip, len(st.nd))
        v = st.ghost.get('pick')
        if v is None:
            v = self.m_nd_range(st, a)
            st.ghost = dict(st.ghost)
            st.ghost['pick'] = v
        try:
            x = self.conc(st, v)
        except Split:
            raise
        st.ghost = dict(st.ghost)
        st.ghost.pop('pick')
        return x

    def m_vp_same(self, st, a):
        """bytes equal, as one condition (no branching)"""
        n = self.conc(st, a[2])
        if not n:
            return 1
        x = self.plain(st, self.rd(st, a[0], n, 'vp_same'))
        y = self.plain(st, self.rd(st, a[1], n, 'vp_same'))
        r = 1
        cn = self.opts.get('canon')
        for p, q in zip(x, y):
            if cn and not isc(p) and not isc(q) and canon.equal(8, p, q):
                continue
            r = tm.and_(1, r, tm.eq(8, p, q))
            if isc(r) and not r:
                return 0
        return r

    def m_vp_case(self, st, a):
        """truth of a condition, one path per value"""
        return self.conc(st, self.bit(a[0]))

    def m_vp_uf(self, st, a):
        """uninterpreted function: out[0..m) = tag(in[0..n)); equal inputs give equal outputs"""
        tag = self.cstr(st, a[0])
        n = self.conc(st, a[2])
        m = self.conc(st, a[4])
        cells = self.plain(st, self.rd(st, a[1], n, 'input of ' + tag)) if n else []
        key = (tag, m, tuple(c if isc(c) else ('t', c.id) for c in cells))
        out = st.uf.get(key)
        if out is None:
            vs = [self.fresh(8, tag) for _ in range(m)]
            st.nd = st.nd + vs
            st.uf = dict(st.uf)
            out = vs
            st.uf[key] = out
        if m:
            self.wr(st, a[3], list(out), 'output of ' + tag)

    def m_vp_rep_put(self, st, a):
        """ghost table: value attached to a byte string (found again for syntactically the same bytes only)"""
        n = self.conc(st, a[1])
        m = self.conc(st, a[3])
        cells = self.plain(st, self.rd(st, a[0], n, 'ghost key'))
        st.uf = dict(st.uf)
        st.uf[('rep!', m, tuple(c if isc(c) else ('t', c.id) for c in cells))] = list(self.rd(st, a[2], m, 'ghost value'))

    def m_vp_rep_get(self, st, a):
        n = self.conc(st, a[1])
        m = self.conc(st, a[3])
        cells = self.plain(st, self.rd(st, a[0], n, 'ghost key'))
        out = st.uf.get(('rep!', m, tuple(c if isc(c) else ('t', c.id) for c in cells)))
        if out is None:
            return 0
        self.wr(st, a[2], list(out), 'ghost value')
        return 1

    def quick_valid(self, st, c):
        if self.ev(st, c) != 1:
            return False
        if self.linval(st, c) == 1:
            return True
        return self.solve(st.pc, tm.not_(c), feas=True)[0] == 'unsat'

    def m_vp_ufx(self, st, a):
        """uninterpreted function standing for a function under its own contract; natively the real function runs"""
        tag = self.cstr(st, a[0])
        n = self.conc(st, a[2])
        m = self.conc(st, a[4])
        cells = self.plain(st, self.rd(st, a[1], n, 'input of ' + tag)) if n else []
        key = (tag, m, tuple(c if isc(c) else ('t', c.id) for c in cells))
        out = st.uf.get(key)
        if out is None:
            for k, (ins, o) in st.ghost.get('ufx', {}).items():
                if k[0] != tag or k[1] != m or len(ins) != n:
                    continue
                e = 1
                for p, q in zip(ins, cells):
                    e = tm.and_(1, e, tm.eq(8, p, q))
                    if isc(e) and not e:
                        break
                if isc(e) and not e:
                    continue
                if isc(e) or self.quick_valid(st, e):
                    out = o
                    break
        if out is None:
            out = [self.fresh(8, tag) for _ in range(m)]
        if key not in st.uf:
            st.uf = dict(st.uf)
            st.uf[key] = out
            st.ghost = dict(st.ghost)
            st.ghost['ufx'] = dict(st.ghost.get('ufx', {}))
            st.ghost['ufx'][key] = (tuple(cells), out)
        if m:
            self.wr(st, a[3], list(out), 'output of ' + tag)

    def m_vp_fld(self, st, a):
        """normal forms of field elements (fld.py); arguments are concrete"""
        if not hasattr(self, 'fldt'):
            import fld
            self.fldt = fld.Fld()
        f = self.fldt
        f.nz, f.sq = st.ghost.get('fld', ((), {}))
        r = f.op(self.conc(st, a[0]), self.conc(st, a[1]), self.conc(st, a[2]))
        st.ghost = dict(st.ghost)
        st.ghost['fld'] = (f.nz, f.sq)
        return r

    def m_vp_heap(self, st, a):
        """number of heap objects currently allocated"""
        return sum(1 for o in st.mem.values() if o.alive and o.kind in ('malloc', 'new', 'new[]'))

    def m_vp_heap_delta_ok(self, st, a):
        return 1

    # ------------------------------------------------------------ execution
    def fork(self, st):
        s = State()
        s.frames = [f.copy() for f in st.frames]
        s.mem = dict(st.mem)
        s.pc, s.pcset, s.model, s.nd, s.sub = st.pc, st.pcset, st.model, st.nd, dict(st.sub)
        s.nobj, s.uf, s.steps, s.ghost = st.nobj, st.uf, st.steps, st.ghost
        s.sid = newsid()
        st.sid = newsid()
        return s

    def jump(self, st, fr, t):
        cur = fr.blk
        phis = fr.cf.blocks[t][0]
        if phis:
            env = fr.env
            vals = []
            for (res, inc) in phis:
                k, c = inc[cur]
                vals.append((res, env[k] if k else c))
            for (r, v) in vals:
                env[r] = v
        fr.blk = t
        fr.ip = 0

    def run(self, st, stop):
        """explore st until frame depth stop[0] reaches block stop[1] (None: returns); list of states there"""
        work = [st]
        out = []
        sd, sb = stop
        while work:
            st = work.pop()
            try:
                fr = st.frames[-1]
                code = fr.cf.blocks[fr.blk][1]
                while True:
                    self.stepcount += 1
                    st.steps += 1
                    if st.steps > self.maxsteps:
                        raise Limit('steps on one path')
                    if (self.stepcount & 1023) == 0 and time.time() > self.deadline:
                        raise Limit('time')
                    r = code[fr.ip][0](st, fr)
                    if r is None:
                        fr.ip += 1
                        continue
                    k = r[0]
                    if k == 'jmp':
                        self.jump(st, fr, r[1])
                        if len(st.frames) == sd and r[1] == sb:
                            out.append(st)
                            break
                        code = fr.cf.blocks[fr.blk][1]
                    elif k == 'call':
                        fr = st.frames[-1]
                        code = fr.cf.blocks[fr.blk][1]
                    elif k == 'ret':
                        if sb is None and len(st.frames) == sd - 1:
                            out.append(st)
                            break
                        fr = st.frames[-1]
                        code = fr.cf.blocks[fr.blk][1]
                    else:
                        self.branch(st, fr, r[1], stop, work, out)
                        break
            except Split as sp:
                self.newpath()
                s2 = self.fork(st)
                try:
                    self.assume(s2, tm.not_(sp.c))
                    work.append(s2)
                except Dead:
                    pass
                try:
                    self.assume(st, sp.c)
                    work.append(st)
                except Dead:
                    pass
            except Dead:
                pass
        return out

    def newpath(self):
        self.paths += 1
        if self.paths > self.maxpaths:
            raise Limit('paths')

    def branch(self, st, fr, targets, stop, work, out):
        feas = []
        targets = [(c, l) for (c, l) in targets if not (isc(c) and not c)]
        for (c, l) in targets:
            if isc(c):
                self.jump(st, fr, l)
                (out if len(st.frames) == stop[0] and l == stop[1] else work).append(st)
                return
        v = [(c, l, self.ev(st, c)) for (c, l) in targets]
        for (c, l, x) in v:
            if x == 1:
                feas.append((c, l, None))
            elif self.opts.get('flo') and flo.decide(c) == 0:
                continue
            else:
                r, env = self.solve(st.pc, c, feas=True)
                if r == 'unsat':
                    continue
                feas.append((c, l, env if r == 'sat' else {'#bad': 1}))
        if len(feas) == 1:
            c, l, env = feas[0]
            if env is not None:
                self.setmodel(st, env)
            st.sub = dict(st.sub)
            st.sub[c.id] = 1
            n = tm.not_(c)
            if not isc(n):
                st.sub[n.id] = 0
            self.jump(st, fr, l)
            if len(st.frames) == stop[0] and l == stop[1]:
                out.append(st)
            else:
                work.append(st)
            return
        states = []
        for i, (c, l, env) in enumerate(feas):
            s = st if i == len(feas) - 1 else self.fork(st)
            if env is not None:
                self.setmodel(s, env)
            self.push(s, c)
            states.append((s, l))
        depth = len(st.frames)
        blk = fr.blk
        ip = fr.cf.ipdom[blk]
        merge = self.opts.get('merge', True) and blk not in fr.cf.exits
        if not merge:
            for (s, l) in states:
                self.newpath()
                self.jump(s, s.frames[-1], l)
                if len(s.frames) == stop[0] and l == stop[1]:
                    out.append(s)
                else:
                    work.append(s)
            return
        inner = (depth, ip)
        ends = []
        for (s, l) in states:
            self.jump(s, s.frames[-1], l)
            if l == ip:
                ends.append(s)
            else:
                ends += self.run(s, inner)
        # merge greedily
        res = []
        for s in ends:
            done = False
            for i, r in enumerate(res):
                mm = self.merge(r, s)
                if mm is not None:
                    res[i] = mm
                    done = True
                    break
            if not done:
                res.append(s)
        for i, s in enumerate(res):
            if i:
                self.newpath()
            if inner == stop:
                out.append(s)
            else:
                work.append(s)

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is int and type(b) is int:
            return a == b
        if type(a) in (Ptr, Fn, tuple, float) and type(a) is type(b):
            return a == b
        return False

    def merge(self, a, b):
        if len(a.nd) != len(b.nd) or any(not self.same(x, y) for x, y in zip(a.nd, b.nd)):
            return None
        if a.ghost is not b.ghost and a.ghost != b.ghost:
            return None
        if len(a.frames) != len(b.frames):
            return None
        if len(a.uf) != len(b.uf):
            return None
        ints = (int, T)
        diffs = 0
        # memory
        if a.mem.keys() != b.mem.keys():
            ka = {k for k, o in a.mem.items() if not (type(k) is str)}
            kb = {k for k, o in b.mem.items() if not (type(k) is str)}
            if ka != kb:
                return None
            for k in a.mem.keys() - b.mem.keys():
                b.mem[k] = self.mkglobal(k)
            for k in b.mem.keys() - a.mem.keys():
                a.mem[k] = self.mkglobal(k)
        mdiff = []
        for k, oa in a.mem.items():
            ob = b.mem[k]
            if oa is ob:
                continue
            if oa.n != ob.n or oa.alive != ob.alive or oa.kind != ob.kind:
                return None
            if not oa.alive:
                continue
            ca, cb = oa.c, ob.c
            if ca == cb:
                continue
            for i in range(oa.n):
                x, y = ca[i], cb[i]
                if x is y or (type(x) is int and type(y) is int and x == y):
                    continue
                if type(x) is tuple or type(y) is tuple:
                    if x == y:
                        continue
                    return None
                if type(x) is int and type(y) is int and (x > 1 or y > 1) and not self.opts.get('mergeconst'):
                    return None
                mdiff.append((k, i, x, y))
                if len(mdiff) > self.mergemax:
                    return None
        ediff = []
        for j, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            if fa.cf is not fb.cf or fa.blk != fb.blk or fa.ip != fb.ip or fa.allocas != fb.allocas:
                return None
            ea, eb = fa.env, fb.env
            for k, x in ea.items():
                if k not in eb:
                    continue
                y = eb[k]
                if self.same(x, y):
                    continue
                if type(x) in ints and type(y) in ints:
                    if type(x) is int and type(y) is int and (x > 1 or y > 1) and not self.opts.get('mergeconst') and self.live(fa, k):
                        return None
                    ediff.append((j, k, x, y))
                elif not self.live(fa, k):
                    ediff.append((j, k, None, None))
                else:
                    return None
        if '#bad' in a.model and '#bad' not in b.model:
            a.model = b.model
        # common prefix of path conditions
        n = 0
        pa, pb = a.pc, b.pc
        while n < len(pa) and n < len(pb) and pa[n] is pb[n]:
            n += 1
        if self.implied:
            sa, sb = pa[n:], pb[n:]
            pa = pa[:n] + [c for c in sa if not any((d.id, c.id) in self.implied for d in sa)]
            pb = pb[:n] + [c for c in sb if not any((d.id, c.id) in self.implied for d in sb)]
        ga = 1
        for c in pa[n:]:
            ga = tm.and_(1, ga, c)
        gb = 1
        for c in pb[n:]:
            gb = tm.and_(1, gb, c)
        if not self.opts.get('mergeor') and not self.excl(ga, gb):
            # only branches that rejoin completely: no disjunction enters the path condition
            if not (len(pa) == len(pb) and len(pa) > n and not isc(tm.not_(pa[n])) and tm.not_(pa[n]) is pb[n] and
                    {c.id for c in pa[n + 1:]} == {c.id for c in pb[n + 1:]}):
                return None
            ga = pa[n]
            a.pc = pa = pa[:n] + pa[n + 1:]
            b.pc = pb = pb[:n] + pb[n + 1:]
            n = len(pa)
            gb = tm.not_(ga)
        if isc(ga):
            # a's path is unconstrained relative to b: overlapping (cannot happen for exclusive branches)
            return None
        for (k, i, x, y) in mdiff:
            o = self.obj(a, k, True)
            if x is None:
                x = self.fresh(8, 'undef')
            if y is None:
                y = self.fresh(8, 'undef')
            o.c[i] = tm.ite(8, ga, x, y)
        for (j, k, x, y) in ediff:
            e = a.frames[j].env
            if x is None:
                e.pop(k)
                continue
            w = x.w if type(x) is T else y.w if type(y) is T else None
            if w is None:
                w = self.width(a.frames[j].cf, k)
            e[k] = tm.ite(w, ga, x, y)
        for j, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            for k in [k for k in fa.env if k not in fb.env]:
                del fa.env[k]
        a.pc = pa[:n]
        a.pcset = frozenset(c.id for c in a.pc)
        d = tm.or_(1, ga, gb)
        a.sub = {k: v for k, v in a.sub.items() if k in b.sub and b.sub[k] == v}
        if not isc(d) and not self.excl(ga, gb):
            self.push(a, d)
        a.steps = max(a.steps, b.steps)
        a.nobj = max(a.nobj, b.nobj)
        self.nmerge += 1
        return a

    def excl(self, ga, gb):
        return tm.not_(ga) is gb

    def live(self, fr, k):
        """may register k still be read from the current position before it is assigned again"""
        key = (fr.cf.name, fr.blk, fr.ip)
        r = self.livec.get(key)
        if r is None:
            r = self.liveset(fr)
            self.livec[key] = r
        return k in r

    livec = {}
    liveb = {}

    @staticmethod
    def iuses(I):
        for a in I.args:
            if a[1][0] == 'loc':
                yield a[1][1]
        if I.op == 'call' and I.extra[0][0] == 'loc':
            yield I.extra[0][1]

    def livein(self, cf):
        """live-in registers of each block (phi uses are live out of the predecessor)"""
        r = self.liveb.get(cf.name)
        if r is not None:
            return r
        f = self.m.funcs[cf.name]
        idx = cf.index
        n = len(f.blocks)
        gen, kill, succ, phiuse = [], [], [], [set() for _ in range(n)]
        for (_, ins) in f.blocks:
            g, k = set(), set()
            for I in ins:
                if I.op != 'phi':
                    for u in self.iuses(I):
                        if u not in k:
                            g.add(u)
                else:
                    for (v, l) in I.args:
                        if v[0] == 'loc':
                            phiuse[idx[l]].add(v[1])
                if I.res is not None:
                    k.add(I.res)
            gen.append(g)
            kill.append(k)
            T_ = ins[-1]
            if T_.op == 'br':
                succ.append([idx[x] for x in T_.extra])
            elif T_.op == 'switch':
                succ.append([idx[T_.extra[0]]] + [idx[x] for (_, x) in T_.extra[1]])
            else:
                succ.append([])
        lin = [set(g) for g in gen]
        lout = [set(p) for p in phiuse]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set(phiuse[i])
                for s_ in succ[i]:
                    o |= lin[s_]
                x = gen[i] | (o - kill[i])
                if o != lout[i] or x != lin[i]:
                    lout[i], lin[i] = o, x
                    ch = True
        self.liveb[cf.name] = (lin, lout)
        return lin, lout

    def liveset(self, fr):
        lin, lout = self.livein(fr.cf)
        ins = self.m.funcs[fr.cf.name].blocks[fr.blk][1]
        nph = sum(1 for I in ins if I.op == 'phi')
        out = set(lout[fr.blk])
        for I in reversed(ins[nph + fr.ip:]):
            if I.res is not None:
                out.discard(I.res)
            out.update(self.iuses(I))
        return out

    def width(self, cf, k):
        key = (cf.name, k)
        w = self.widths.get(key)
        if w is None:
            f = self.m.funcs[cf.name]
            for (t, nm) in f.params:
                if nm == k:
                    w = t[1] if t[0] == 'int' else 64
            for (_, ins) in f.blocks:
                for I in ins:
                    if I.res == k and I.ty is not None:
                        w = I.ty[1] if I.ty[0] == 'int' else 64
            if w is None:
                w = 1     # with.overflow flag
            self.widths[key] = w
        return w
    widths = {}

    def start(self, entry):
        st = State()
        st.frames = []
        st.mem = {}
        st.pc, st.pcset, st.model, st.nd, st.sub = [], frozenset(), {}, [], {}
        st.nobj, st.sid, st.uf, st.steps, st.ghost = 0, newsid(), {}, 0, {}
        if self.opts.get('staticinit'):
            for c in self.m.ctors:
                self.enter(st, None, self.resolve(c), [], None, {})
                r = self.run_root(st)
                st = r[0]
                st.frames = []
        self.enter(st, None, '@' + entry, [], None, {})
        return st

    def run_root(self, st):
        # a dummy caller frame is not needed: 'ret' with an empty frame list stops
        return self.run(st, (len(st.frames), None))

    def verify(self, entry):
        """explore all paths of the harness; returns status string"""
        try:
            st = self.start(entry)
            ends = self.run_root(st)
            self.nends = len(ends)
            for s in ends:
                if self.opts.get('leak'):
                    live = [o.name for k, o in s.mem.items() if type(k) is int and o.alive and o.kind in ('malloc', 'new', 'new[]')]
                    if live:
                        self.fail_ob(s, 'leak', 'memory is released by the end: ' + ', '.join(live[:3]))
                    else:
                        self.count('leak', 'memory is released by the end')
            self.limit = None
        except Limit as e:
            self.limit = str(e)
            self.nends = 0
        if self.fails:
            return 'violated'
        if self.limit:
            return 'timeout' if self.limit == 'time' else 'incomplete'
        if any(e[1] == 'UNKNOWN' for e in self.obs.values()):
            return 'timeout'
        return 'ok'


class ModelEnv:
    def __init__(self, m):
        self.m = m

    def get(self, i, d=0):
        raise Exception


BINF = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv'.split())
MODELS = {'@strlen', '@strchr'}
# override variable evaluation to go through names
_ev0 = tm._ev


def _evn(t, g, env):
    if t.op == 'var':
        return env.m.get(t.a[0], 0) & mask(t.w) if type(env) is ModelEnv else env.get(t.id, 0) & mask(t.w)
    return _ev0(t, g, env)


tm._ev = _evn


def run_job(mod, entry, opts):
    """in a worker process: verify one harness, return a plain dict"""
    import threading
    res = {}
    tm.PUSH[0] = not (opts.get('canon') or opts.get('flo'))
    flo.reset()

    def go():
        s = Sym(mod, opts)
        t0 = time.time()
        try:
            status = s.verify(entry)
            res['detail'] = s.limit or ''
        except (IRError, NotImplementedError) as ex:
            status = 'error'
            res['detail'] = str(ex)
        except RecursionError:
            status = 'error'
            res['detail'] = 'recursion limit'
        res.update(status=status, props=[('%s' % k, d, v[1]) for (k, d), v in s.obs.items()], instances=sum(v[0] for v in s.obs.values()),
                   fails=s.fails, reached=sorted(s.reached), funcs=sorted(f[1:] for f in s.funcs_run), time=time.time() - t0,
                   solver=s.solver_time, queries=s.nquery, paths=s.paths + 1, memobs=s.memobs, merges=s.nmerge,
                   unknown=s.unknown[:5], steps=s.stepcount)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    if 'status' not in res:
        res.update(status='error', detail='worker crashed', props=[], instances=0, fails=[], reached=[], funcs=[], time=0, solver=0, queries=0, paths=0, memobs=0, merges=0, unknown=[], steps=0)
    return res
