"""Mechanical translation LLVM IR -> C (one C statement per IR instruction) for CBMC.

Nothing is rewritten: each IR instruction becomes the C expression with the same
semantics on fixed-width unsigned integers; pointers are `unsigned char *`.
What is dropped: attributes/metadata, nsw/nuw/inbounds flags (wrapping semantics is
used), debug/lifetime/stacksave intrinsics.
"""
import re, sys
from irparse import *

KEEP = set()


def cid(name):
    s = name[1:]
    if s[:1] == '"':
        s = s[1:-1]
    s = re.sub(r'[^A-Za-z0-9_]', lambda m: '_%02x' % ord(m.group()) if m.group() not in '.' else '_d', s)
    return s


class Emitter:
    def __init__(self, mod, roots, drop=(), loops=None, extern_ok=None):
        self.m = mod
        self.drop = set(drop)          # functions whose body is not emitted (contract stubs supply it)
        self.loops = loops or []       # (function regex, loop index, tag)
        self.cutdone = set()
        self.frame = bool(self.loops)
        self.types = []                # emitted type decls
        self.tnames = {}
        self.roots = roots
        self.loopinfo = []
        self.reach()

    # ------------------------------------------------------------ reachability
    def resolve(self, g):
        seen = set()
        while g in self.m.aliases and g not in seen:
            seen.add(g)
            g = self.m.aliases[g]
        return g

    def vglobs(self, v, out):
        k = v[0]
        if k == 'glob':
            out.append(self.resolve(v[1]))
        elif k == 'agg':
            for (_, x) in v[1]:
                self.vglobs(x, out)
        elif k == 'cgep':
            self.vglobs(v[2][1], out)
            for (_, x) in v[3]:
                self.vglobs(x, out)
        elif k == 'ccast':
            self.vglobs(v[3], out)
        elif k in ('cbin', 'cicmp'):
            self.vglobs(v[2][1], out)
            self.vglobs(v[3][1], out)

    def reach(self):
        work = [self.resolve(r) for r in self.roots]
        seen = set(work)
        self.rf, self.rg, self.rd = [], [], []
        while work:
            g = work.pop()
            outs = []
            if g in self.m.funcs:
                self.rf.append(g)
                if g not in self.drop:
                    for (_, ins) in self.m.funcs[g].blocks:
                        for I in ins:
                            if I.op == 'phi':
                                for (v, _) in I.args:
                                    self.vglobs(v, outs)
                            else:
                                for a in I.args:
                                    self.vglobs(a[1], outs)
                            if I.op == 'call':
                                self.vglobs(I.extra[0], outs)
            elif g in self.m.globals:
                self.rg.append(g)
                if self.m.globals[g][1] is not None:
                    self.vglobs(self.m.globals[g][1], outs)
            elif g in self.m.decls:
                self.rd.append(g)
            else:
                raise IRError('unknown symbol ' + g)
            for o in outs:
                if o.startswith('@llvm.'):
                    continue
                if o not in seen:
                    seen.add(o)
                    work.append(o)

    # ------------------------------------------------------------ types
    def ct(self, t):
        k = t[0]
        if k == 'int':
            n = t[1]
            if n == 1:
                return '_Bool'
            if n in (8, 16, 32, 64):
                return 'uint%d_t' % n
            if n == 128:
                return 'unsigned __int128'
            return 'unsigned __CPROVER_bitvector[%d]' % n
        if k == 'ptr':
            return 'ptr_t'
        if k == 'void':
            return 'void'
        if t in self.tnames:
            return self.tnames[t]
        if k == 'arr':
            e = self.ct(t[2])
            nm = 'arr_%d_%d' % (len(self.tnames), t[1])
            self.types.append('typedef %s %s[%d];' % (e, nm, t[1]))
            self.tnames[t] = nm
            return nm
        if k == 'struct':
            d = self.m.structs.get(t[1])
            if d is None or d[0] != 'lit':
                raise IRError('opaque struct ' + t[1])
            nm = 'struct S_' + cid(t[1])
            self.tnames[t] = nm
            self.emit_struct(nm, d)
            return nm
        if k == 'lit':
            nm = 'struct L_%d' % len(self.tnames)
            self.tnames[t] = nm
            self.emit_struct(nm, t)
            return nm
        if k == 'fp':
            return {'double': 'double', 'float': 'float'}.get(t[1], 'double')
        raise IRError('type %r' % (t,))

    def emit_struct(self, nm, d):
        fs = [self.ct(f) for f in d[1]]
        s = nm + ' {' + ' '.join('%s f%d;' % (f, i) for i, f in enumerate(fs)) + '}'
        if d[2]:
            s += ' __attribute__((packed))'
        self.types.append(s + ';')

    def st(self, n):   # signed C type
        return 'int%d_t' % n if n in (8, 16, 32, 64) else '__int128'

    def fields(self, t):
        if t[0] == 'struct':
            t = self.m.structs[t[1]]
        return t

    # ------------------------------------------------------------ values
    def val(self, t, v):
        k = v[0]
        if k == 'loc':
            return 'v_' + cid(v[1])
        if k == 'int':
            n = t[1]
            x = v[1] & ((1 << n) - 1)
            if n == 1:
                return str(x)
            if n > 64:
                return '(((unsigned __int128)%dULL << 64) | %dULL)' % (x >> 64, x & (2**64-1))
            return '(%s)%d%s' % (self.ct(t), x, 'ULL' if n > 31 else '')
        if k == 'null':
            return '(ptr_t)0'
        if k == 'undef':
            if t[0] in ('struct', 'lit', 'arr'):
                return 'nondet_%s()' % self.ndname(t)
            return '((%s)nondet_u64())' % self.ct(t) if t[0] != 'ptr' else '(ptr_t)nondet_u64()'
        if k == 'zero':
            if t[0] == 'int':
                return '(%s)0' % self.ct(t)
            return '(ptr_t)0'
        if k == 'glob':
            g = self.resolve(v[1])
            if g in self.m.funcs or g in self.m.decls:
                return '(ptr_t)' + self.fn(g)
            return '(ptr_t)&' + 'g_' + cid(g)
        if k == 'cgep':
            return self.gep(v[1], [v[2]] + list(v[3]))
        if k == 'ccast':
            _, op, t1, a, t2 = v
            return self.cast(op, t1, self.val(t1, a), t2)
        if k == 'cbin':
            return self.binop(v[1], v[2][0], self.val(*v[2]), self.val(*v[3]))
        if k == 'cicmp':
            return self.icmp(v[1], v[2][0], self.val(*v[2]), self.val(*v[3]))
        if k == 'fp':
            return v[1]
        raise IRError('value %r' % (v,))

    ndtypes = None

    def ndname(self, t):
        c = self.ct(t)
        nm = re.sub(r'\W', '_', c)
        if self.ndtypes is None:
            self.ndtypes = {}
        self.ndtypes[nm] = c
        return nm

    def fn(self, g):
        return cid(g)

    def init(self, t, v):
        """C initialiser"""
        k = v[0]
        if k == 'bytes':
            return '{' + ','.join(str(b) for b in v[1]) + '}'
        if k == 'agg':
            return '{' + ','.join(self.init(tt, vv) for (tt, vv) in v[1]) + '}'
        if k in ('zero', 'undef'):
            if t[0] in ('arr', 'struct', 'lit'):
                return '{0}' if self.scalar_first(t) else '{}'
            return '0'
        return self.val(t, v)

    def scalar_first(self, t):
        return True

    # ------------------------------------------------------------ expressions
    def idx(self, t, v):
        if v[0] == 'int':
            n = t[1]
            x = v[1] & ((1 << n) - 1)
            if x >> (n - 1):
                x -= 1 << n
            return str(x) if x >= 0 else '(%d)' % x
        e = self.val(t, v)
        n = t[1]
        if n == 64:
            return '(int64_t)' + e
        return '(int64_t)(%s)%s' % (self.st(n), e)

    def gep(self, st, args):
        base = self.val(*args[0])
        cur = base
        i0 = self.idx(*args[1])
        if i0 != '0':
            cur = '(ptr_t)((%s *)%s + %s)' % (self.ct(st), cur, i0)
        t = st
        for a in args[2:]:
            if t[0] in ('struct', 'lit'):
                f = a[1][1]
                cur = '(ptr_t)&((%s *)%s)->f%d' % (self.ct(t), self.par(cur), f)
                t = self.fields(t)[1][f]
            elif t[0] == 'arr':
                e = t[2]
                ii = self.idx(*a)
                if ii != '0':
                    cur = '(ptr_t)((%s *)%s + %s)' % (self.ct(e), self.par(cur), ii)
                t = e
            else:
                raise IRError('gep into %r' % (t,))
        return cur

    def par(self, e):
        return '(' + e + ')'

    def cast(self, op, t1, e, t2):
        if op == 'ptrtoint':
            return '(%s)(uint64_t)(%s)' % (self.ct(t2), e)
        if op == 'inttoptr':
            return '(ptr_t)(uint64_t)(%s)' % e
        if op == 'bitcast':
            return e
        if op == 'trunc':
            if t2[1] == 1:
                return '(_Bool)((%s) & 1)' % e
            return '(%s)(%s)' % (self.ct(t2), e)
        if op == 'zext':
            return '(%s)(%s)' % (self.ct(t2), e)
        if op == 'sext':
            if t1[1] == 1:
                return '((%s) ? (%s)-1 : (%s)0)' % (e, self.ct(t2), self.ct(t2))
            return '(%s)(%s)(%s)(%s)' % (self.ct(t2), self.st(t2[1]), self.st(t1[1]), e)
        if op in ('sitofp',):
            return '(%s)(%s)(%s)' % (self.ct(t2), self.st(t1[1]), e)
        if op in ('uitofp', 'fptoui', 'fpext', 'fptrunc'):
            return '(%s)(%s)' % (self.ct(t2), e)
        if op == 'fptosi':
            return '(%s)(%s)(%s)' % (self.ct(t2), self.st(t2[1]), e)
        raise IRError('cast ' + op)

    def binop(self, op, t, a, b):
        if t[0] == 'fp':
            return '((%s) %s (%s))' % (a, {'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/'}[op], b)
        n = t[1]
        C = self.ct(t)
        if n == 1:
            o = {'and': '&', 'or': '|', 'xor': '^', 'add': '^', 'sub': '^'}[op]
            return '(_Bool)((%s) %s (%s))' % (a, o, b)
        ops = {'add': '+', 'sub': '-', 'mul': '*', 'udiv': '/', 'urem': '%', 'shl': '<<', 'lshr': '>>',
               'and': '&', 'or': '|', 'xor': '^'}
        if op in ('shl', 'lshr', 'ashr') and not b.strip('()uUlL').isdigit():
            # a shift by the width or more has no defined value
            e = ops[op] if op in ops else None
            x = '(%s)(%s(%s) %s (%s))' % (C, '(uint32_t)' if n < 32 else '', a, e, b) if e else '(%s)((%s)(%s) >> (%s))' % (C, self.st(n), a, b)
            return '((%s) < %d ? %s : (%s)nondet_u64())' % (b, n, x, C)
        if op in ops:
            if n < 32:
                return '(%s)((uint32_t)(%s) %s (uint32_t)(%s))' % (C, a, ops[op], b)
            return '(%s)((%s) %s (%s))' % (C, a, ops[op], b)
        S = self.st(n)
        if op == 'sdiv':
            return '(%s)((%s)(%s) / (%s)(%s))' % (C, S, a, S, b)
        if op == 'srem':
            return '(%s)((%s)(%s) %% (%s)(%s))' % (C, S, a, S, b)
        if op == 'ashr':
            return '(%s)((%s)(%s) >> (%s))' % (C, S, a, b)
        raise IRError(op)

    def icmp(self, pred, t, a, b):
        o = {'eq': '==', 'ne': '!=', 'ugt': '>', 'uge': '>=', 'ult': '<', 'ule': '<=',
             'sgt': '>', 'sge': '>=', 'slt': '<', 'sle': '<='}[pred]
        if pred[0] == 's' and t[0] == 'int':
            S = self.st(t[1])
            return '((%s)(%s) %s (%s)(%s))' % (S, a, o, S, b)
        return '((%s) %s (%s))' % (a, o, b)

    # ------------------------------------------------------------ functions
    def proto(self, f, name=None):
        name = name or self.fn(f.name)
        ps = []
        for i, (t, nm) in enumerate(f.params):
            ps.append('%s %s' % (self.ct(t), ('v_' + cid(nm)) if nm else 'p%d' % i))
        if f.vararg:
            ps.append('...')
        if not ps:
            ps = ['void']
        return '%s %s(%s)' % (self.ct(f.ret), name, ', '.join(ps))

    def vtype(self, f, I, types):
        if I.op == 'extractvalue':
            t = self.opty(I.args[0], types)
            for i in I.extra:
                t = self.fields(t)[1][i] if t[0] != 'arr' else t[2]
            return t
        return I.ty

    def opty(self, a, types):
        return a[0]

    def emit_func(self, f):
        out = []
        w = out.append
        w(self.proto(f) + '\n{')
        body = []
        b = body.append
        decl = []
        nphi = 0
        phis = {}     # label -> [Instr]
        for (lab, ins) in f.blocks:
            phis[lab] = [I for I in ins if I.op == 'phi']
        for i, t in f.byval.items():
            nm = 'v_' + cid(f.params[i][1])
            decl.append('%s bv_%d; bv_%d = *(%s *)%s; %s = (ptr_t)&bv_%d;' % (self.ct(t), i, i, self.ct(t), nm, nm, i))

        headers = self.find_loops(f)
        cuts = {}
        bodies = []
        for (pat, idx, tag) in self.loops:
            if re.fullmatch(pat, self.fn(f.name)):
                if idx < len(headers):
                    h, latches, lbody = headers[idx]
                    cuts[h] = (tag, latches)
                    bodies.append(lbody)
                    self.cutdone.add((pat, idx, tag))
                    decl.append('uint64_t lk_%s;' % tag)
        defs = {I.res: I for (_, ins) in f.blocks for I in ins if I.res}

        def affine(I, latches):
            """phi stepping by a constant on every back edge -> (kind, step)"""
            step = None
            for (v, l) in I.args:
                if l not in latches:
                    continue
                if v[0] != 'loc' or v[1] not in defs:
                    return None
                D = defs[v[1]]
                st = None
                if D.op in ('add', 'sub') and D.args[0][1] == ('loc', I.res) and D.args[1][1][0] == 'int':
                    st = ('i', D.args[1][1][1] if D.op == 'add' else -D.args[1][1][1])
                elif D.op == 'getelementptr' and D.args[0][1] == ('loc', I.res) and len(D.args) == 2 and D.args[1][1][0] == 'int':
                    st = ('p', '%d * (int64_t)sizeof(%s)' % (self.sx(D.args[1]), self.ct(D.extra)))
                if st is None or (step is not None and step != st):
                    return None
                step = st
            return step

        def auto_inv(h, tag, latches):
            cs = []
            for I in phis[h]:
                st = affine(I, latches)
                r = 'v_' + cid(I.res)
                if st and st[0] == 'i':
                    C = self.ct(I.ty)
                    cs.append('%s == (%s)(%s_i + (%s)lk_%s * (%s)(%d))' % (r, C, r, C, tag, C, st[1]))
                elif st:
                    cs.append('%s == %s_i + (int64_t)lk_%s * (%s)' % (r, r, tag, st[1]))
            return cs

        def edge(frm, to):
            if to in cuts:
                return cut_edge(frm, to)
            e = edge0(frm, to)
            if any(frm in B and to not in B for B in bodies):
                e = e.replace('goto ', 'vp_frame_end(); goto ')
            return e

        def cut_edge(frm, to):
            tag, latches = cuts[to]
            e = edge0(frm, to)
            assert e.startswith('{') and e.endswith('}')
            pre, g = e[1:-1].rsplit('goto', 1)
            go = 'goto' + g
            auto = auto_inv(to, tag, latches)
            inv = lambda what: ' '.join('__CPROVER_assert(%s, "OB loop contract %s: induction variable (%s)");' % (a, tag, what) for a in auto) + \
                ' __CPROVER_assert(INV_%s(lk_%s), "OB loop contract %s: invariant (%s)");' % (tag, tag, tag, what)
            if frm in latches:
                return '{%s lk_%s++; %s __CPROVER_assume(0); }' % (pre, tag, inv('preserved'))
            s = pre + ' lk_%s = 0; ' % tag
            for I in phis[to]:
                if affine(I, latches):
                    r = 'v_' + cid(I.res)
                    s += '%s_i = %s; ' % (r, r)
            s += inv('established')
            s += ' FRAME_%s(); vp_frame_on = 1; lk_%s = nondet_u64(); ' % (tag, tag)
            for I in phis[to]:
                st = affine(I, latches)
                r = 'v_' + cid(I.res)
                if st and st[0] == 'p':
                    s += '%s = %s_i + (int64_t)lk_%s * (%s); ' % (r, r, tag, st[1])
                elif I.ty == PTR:
                    s += '%s = (ptr_t)nondet_u64(); ' % r
                else:
                    s += '%s = (%s)nondet_u64(); ' % (r, self.ct(I.ty))
            for a in auto:
                s += '__CPROVER_assume(%s); ' % a
            s += '__CPROVER_assume(INV_%s(lk_%s)); ' % (tag, tag)
            return '{ %s %s }' % (s, go)

        def edge0(frm, to):
            ps = phis.get(to, [])
            s = ''
            if len(ps) == 1:
                I = ps[0]
                v = [x for (x, l) in I.args if l == frm][0]
                s = '%s = %s; ' % ('v_' + cid(I.res), self.val(I.ty, v))
            elif ps:
                for I in ps:
                    v = [x for (x, l) in I.args if l == frm][0]
                    s += '%s_n = %s; ' % ('v_' + cid(I.res), self.val(I.ty, v))
                for I in ps:
                    s += '%s = %s_n; ' % ('v_' + cid(I.res), 'v_' + cid(I.res))
            return '{ %sgoto L_%s; }' % (s, cid('%' + to))

        for (lab, ins) in f.blocks:
            b(' L_%s: ;' % cid('%' + lab))
            for I in ins:
                r = 'v_' + cid(I.res) if I.res else None
                op = I.op
                if op == 'phi':
                    decl.append('%s %s;' % (self.ct(I.ty), r))
                    if lab in cuts:
                        decl.append('%s %s_i;' % (self.ct(I.ty), r))
                    if len(phis[lab]) > 1:
                        decl.append('%s %s_n;' % (self.ct(I.ty), r))
                    continue
                if op == 'alloca':
                    T = self.ct(I.extra)
                    if I.args:
                        decl.append('ptr_t %s;' % r)
                        b('  %s = (ptr_t)vla_alloc(sizeof(%s) * (%s));' % (r, T, self.val(*I.args[0])))
                    else:
                        decl.append('%s %s_o; ptr_t %s = (ptr_t)&%s_o;' % (T, r, r, r))
                    continue
                if op == 'store':
                    (t, v), p = I.args
                    if self.frame and not (p[1][0] == 'loc' and p[1][1] in defs and defs[p[1][1]].op == 'alloca'):
                        b('  if(vp_frame_on) __CPROVER_assert(vp_in_frame(%s), "OB loop contract: store inside the frame");' % self.val(*p))
                    b('  *(%s *)%s = %s;' % (self.ct(t), self.par(self.val(*p)), self.val(t, v)))
                    continue
                if op == 'br':
                    if not I.args:
                        b('  ' + edge(lab, I.extra[0]))
                    else:
                        b('  if(%s) %s else %s' % (self.val(*I.args[0]), edge(lab, I.extra[0]), edge(lab, I.extra[1])))
                    continue
                if op == 'switch':
                    d, cases = I.extra
                    v = self.val(*I.args[0])
                    for (c, l) in cases:
                        b('  if(%s == %s) %s' % (v, self.val(*c), edge(lab, l)))
                    b('  ' + edge(lab, d))
                    continue
                if op == 'ret':
                    if any(lab in B for B in bodies):
                        b('  vp_frame_end();')
                    b('  return%s;' % (' ' + self.val(*I.args[0]) if I.args else ''))
                    continue
                if op == 'unreachable':
                    b('  __CPROVER_assert(0, "unreachable code reached"); __CPROVER_assume(0);')
                    continue
                if op == 'call':
                    s = self.call(f, I, r, decl)
                    if s:
                        b('  ' + s)
                    continue
                t = self.vtype(f, I, None)
                decl.append('%s %s;' % (self.ct(t), r))
                if op == 'insertvalue':
                    if I.args[0][1][0] not in ('undef',):
                        b('  %s = %s;' % (r, self.val(*I.args[0])))
                    acc = r
                    for i in I.extra:
                        acc += '.f%d' % i
                    b('  %s = %s;' % (acc, self.val(*I.args[1])))
                    continue
                b('  %s = %s;' % (r, self.expr(I)))
        out += ['  ' + d for d in decl]
        out += body
        w('}')
        return '\n'.join(out)

    def sx(self, tv):
        n = tv[0][1]
        x = tv[1][1] & ((1 << n) - 1)
        return x - (1 << n) if x >> (n - 1) else x

    def find_loops(self, f):
        """[(header, [latches])] of natural loops, headers in block order"""
        succ = {}
        labs = [l for l, _ in f.blocks]
        for (l, ins) in f.blocks:
            T = ins[-1]
            if T.op == 'br':
                succ[l] = list(T.extra)
            elif T.op == 'switch':
                succ[l] = [T.extra[0]] + [x for _, x in T.extra[1]]
            else:
                succ[l] = []
        # dominators (iterative)
        entry = labs[0]
        pred = {l: [] for l in labs}
        for l in labs:
            for x in succ[l]:
                pred[x].append(l)
        full = set(labs)
        dom = {l: set(full) for l in labs}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for l in labs[1:]:
                ps = [dom[p] for p in pred[l]]
                d = (set.intersection(*ps) if ps else set()) | {l}
                if d != dom[l]:
                    dom[l] = d
                    ch = True
        res = {}
        for l in labs:
            for x in succ[l]:
                if x in dom[l]:
                    res.setdefault(x, []).append(l)
        out = []
        for h in labs:
            if h in res:
                body = {h}
                work = list(res[h])
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += pred[x]
                out.append((h, res[h], body))
        return out

    def expr(self, I):
        op = I.op
        if op in BIN:
            return self.binop(op, I.ty, self.val(*I.args[0]), self.val(*I.args[1]))
        if op in CASTS:
            return self.cast(op, I.args[0][0], self.val(*I.args[0]), I.ty)
        if op == 'icmp':
            return self.icmp(I.extra, I.args[0][0], self.val(*I.args[0]), self.val(*I.args[1]))
        if op == 'load':
            return '*(%s *)%s' % (self.ct(I.ty), self.par(self.val(*I.args[0])))
        if op == 'getelementptr':
            return self.gep(I.extra, I.args)
        if op == 'select':
            return '(%s) ? (%s) : (%s)' % tuple(self.val(*a) for a in I.args)
        if op == 'freeze':
            return self.val(*I.args[0])
        if op == 'extractvalue':
            e = self.val(*I.args[0])
            for i in I.extra:
                e += '.f%d' % i
            return e
        raise IRError('expr ' + I.text)

    def call(self, f, I, r, decl):
        callee, byv = I.extra
        if callee[0] == 'glob':
            g = self.resolve(callee[1])
            nm = g[1:]
            if nm.startswith('llvm.'):
                return self.intrinsic(nm, I, r, decl)
            if nm in ('vp_check', 'vp_reached'):
                msg = self.strlit(I.args[-1][1])
                if nm == 'vp_check':
                    return '__CPROVER_assert(%s, "OB %s");' % (self.val(*I.args[0]), msg)
                return '__CPROVER_assert(0, "VACUITY %s");' % msg
            if nm == 'vp_havoc_frame':
                return 'vp_add_frame(%s, %s); __CPROVER_havoc_slice(%s, %s);' % (self.val(*I.args[0]), self.val(*I.args[1]), self.val(*I.args[0]), self.val(*I.args[1]))
            if nm == 'vp_assume':
                return '__CPROVER_assume(%s);' % self.val(*I.args[0])
            args = ', '.join(self.val(*a) for a in I.args)
            s = '%s(%s);' % (self.fn(g), args)
        else:
            sig = ', '.join(self.ct(a[0]) for a in I.args) or 'void'
            args = ', '.join(self.val(*a) for a in I.args)
            s = '((%s (*)(%s))%s)(%s);' % (self.ct(I.ty), sig, self.val(PTR, callee), args)
        if r:
            decl.append('%s %s;' % (self.ct(I.ty), r))
            s = '%s = %s' % (r, s)
        return s

    def strlit(self, v):
        if v[0] == 'glob':
            g = self.m.globals[self.resolve(v[1])]
            return g[1][1].rstrip(b'\0').decode().replace('"', "'")
        raise IRError('message is not a literal')

    def intrinsic(self, nm, I, r, decl):
        if re.match(r'llvm\.(lifetime|dbg|assume|experimental|stacksave|stackrestore|donothing|invariant|prefetch)', nm):
            if r:
                decl.append('ptr_t %s;' % r)
            return None
        a = [self.val(*x) if x[0][0] != 'metadata' else None for x in I.args]
        if nm.startswith('llvm.memcpy'):
            n = I.args[2][1]
            return 'X_memcpy(%s, %s, %s);' % (a[0], a[1], a[2])
        if nm.startswith('llvm.memmove'):
            return 'X_memmove(%s, %s, %s);' % (a[0], a[1], a[2])
        if nm.startswith('llvm.memset'):
            return 'X_memset(%s, %s, %s);' % (a[0], a[1], a[2])
        if nm.startswith('llvm.trap'):
            return '__CPROVER_assert(0, "trap reached"); __CPROVER_assume(0);'
        m = re.match(r'llvm\.(umul|uadd|usub)\.with\.overflow\.i(\d+)', nm)
        if m:
            n = int(m.group(2))
            T = self.ct(I.ty)
            decl.append('%s %s;' % (T, r))
            o = {'umul': '*', 'uadd': '+', 'usub': '-'}[m.group(1)]
            ck = {'umul': '__CPROVER_overflow_mult', 'uadd': '__CPROVER_overflow_plus',
                  'usub': '__CPROVER_overflow_minus'}[m.group(1)]
            return '%s.f0 = %s %s %s; %s.f1 = %s(%s, %s);' % (r, a[0], o, a[1], r, ck, a[0], a[1])
        m = re.match(r'llvm\.(umax|umin|smax|smin)\.i(\d+)', nm)
        if m:
            n = int(m.group(2))
            C = self.ct(I.ty)
            decl.append('%s %s;' % (C, r))
            T = C if m.group(1)[0] == 'u' else self.st(n)
            cmp = '>' if m.group(1).endswith('max') else '<'
            return '%s = ((%s)(%s) %s (%s)(%s)) ? (%s) : (%s);' % (r, T, a[0], cmp, T, a[1], a[0], a[1])
        m = re.match(r'llvm\.bswap\.i(\d+)', nm)
        if m:
            n = int(m.group(1))
            decl.append('%s %s;' % (self.ct(I.ty), r))
            return '%s = __builtin_bswap%d(%s);' % (r, n, a[0])
        m = re.match(r'llvm\.(fshl|fshr)\.i(\d+)', nm)
        if m:
            n = int(m.group(2))
            decl.append('%s %s;' % (self.ct(I.ty), r))
            sh = '((%s) %% %d)' % (a[2], n)
            if m.group(1) == 'fshl':
                return '%s = %s == 0 ? (%s) : (((%s) << %s) | ((%s) >> (%d - %s)));' % (r, sh, a[0], a[0], sh, a[1], n, sh)
            return '%s = %s == 0 ? (%s) : (((%s) >> %s) | ((%s) << (%d - %s)));' % (r, sh, a[1], a[1], sh, a[0], n, sh)
        m = re.match(r'llvm\.(ctlz|cttz)\.i32', nm)
        if m:
            decl.append('%s %s;' % (self.ct(I.ty), r))
            return '%s = (%s) ? __builtin_%s(%s) : 32;' % (r, a[0], {'ctlz': 'clz', 'cttz': 'ctz'}[m.group(1)], a[0])
        m = re.match(r'llvm\.fmuladd', nm)
        if m:
            decl.append('%s %s;' % (self.ct(I.ty), r))
            return '%s = (%s) * (%s) + (%s);' % (r, a[0], a[1], a[2])
        raise IRError('intrinsic ' + nm)

    # ------------------------------------------------------------ module
    def emit(self):
        protos, gl, glinit, fns = [], [], [], []
        defined = []
        for g in sorted(self.rf):
            f = self.m.funcs[g]
            protos.append(self.proto(f) + ';')
            if g in self.drop:
                continue
            fns.append(self.emit_func(f))
            defined.append(g)
        for g in sorted(self.rd):
            f = self.m.decls[g]
            if g[1:] in LIBC:
                continue
            if f.vararg:
                continue
            protos.append(self.proto(f) + ';')
        for g in sorted(self.rg):
            t, v, const = self.m.globals[g]
            T = self.ct(t)
            gl.append('extern %s g_%s;' % (T, cid(g)))
            if v is None:
                gl[-1] = '%s g_%s; /* external */' % (T, cid(g))
            else:
                q = 'const ' if const and False else ''
                glinit.append('%s%s g_%s = %s;' % (q, T, cid(g), self.init(t, v)))
        nds = ['%s nondet_%s(void);' % (c, n) for n, c in (self.ndtypes or {}).items()]
        self.defined = defined
        frames = []
        for (pat, idx, tag) in self.loops:
            frames.append('_Bool INV_%s(uint64_t); void FRAME_%s(void);' % (tag, tag))
        return '\n'.join(['#include "rt.h"'] + frames + self.types + nds + protos + gl + glinit + fns) + '\n'


LIBC = set('''malloc calloc realloc free memcpy memmove memset memcmp strlen strcmp strncmp strchr strcpy
 strncpy strcat abort exit printf snprintf sprintf fprintf puts putchar memchr strstr abs alloca vp_check vp_assume vp_reached vp_havoc_frame rand'''.split())


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('ll')
    ap.add_argument('--root', action='append', default=[])
    ap.add_argument('-o')
    a = ap.parse_args()
    m = parse_module(open(a.ll).read())
    e = Emitter(m, ['@' + r for r in a.root])
    s = e.emit()
    open(a.o, 'w').write(s)
    print('functions: %d, undefined: %s' % (len(e.defined), ' '.join(sorted(e.rd))))


if __name__ == '__main__':
    main()
