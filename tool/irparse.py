"""Parser for the textual LLVM-18 IR that clang emits for /repo's sources.

Only the subset that `clang -O0` + mem2reg/simplifycfg/loop-simplify produces is
accepted; anything else raises IRError (an extraction error, never a verdict).
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
# ('int',n) | ('ptr',) | ('void',) | ('arr',n,T) | ('struct',name) |
# ('lit',(T,..),packed) | ('func',ret,(T..),vararg) | ('label',) | ('metadata',)
PTR = ('ptr',)
VOID = ('void',)

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"\\]|\\.)*")
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][-a-zA-Z_0-9.]*)
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


class TS:
    def __init__(self, toks, src=''):
        self.t = toks
        self.i = 0
        self.src = src

    def peek(self, o=0):
        return self.t[self.i + o][1] if self.i + o < len(self.t) else None

    def kind(self, o=0):
        return self.t[self.i + o][0] if self.i + o < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def acc(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            raise IRError('expected %r got %r in: %s' % (v, self.peek(), self.src))

    def end(self):
        return self.i >= len(self.t)


ATTRW = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly
 returned nofree immarg nest noinline dso_local unnamed_addr local_unnamed_addr internal private
 linkonce_odr linkonce weak weak_odr external available_externally appending common constant hidden protected
 default swiftself allocalign allocptr tail musttail notail fastcc coldcc ccc inbounds
 nuw nsw exact volatile disjoint nneg writable dead_on_unwind thread_local'''.split())


def skip_attrs(ts, rec=None):
    """skip parameter/return attributes; records byval/sret types."""
    while True:
        p = ts.peek()
        k = ts.kind()
        if p in ATTRW:
            ts.next()
        elif p == 'align' :
            ts.next()
            if ts.acc('('):
                ts.next(); ts.exp(')')
            else:
                ts.next()
        elif p in ('dereferenceable', 'dereferenceable_or_null', 'alignstack', 'memory', 'allockind', 'allocsize'):
            ts.next(); ts.exp('(')
            d = 1
            while d:
                x = ts.next()
                d += (x == '(') - (x == ')')
        elif p in ('sret', 'byval', 'elementtype', 'byref', 'preallocated', 'inalloca'):
            ts.next(); ts.exp('(')
            t = parse_type(ts)
            ts.exp(')')
            if rec is not None:
                rec[p] = t
        elif k == 'attr':
            ts.next()
        else:
            return


def parse_type(ts):
    t = _ptype(ts)
    while ts.peek() == '(' :
        # function type
        ts.next()
        args = []
        va = False
        while not ts.acc(')'):
            if ts.acc('...'):
                va = True
            else:
                args.append(parse_type(ts))
                skip_attrs(ts)
            ts.acc(',')
        t = ('func', t, tuple(args), va)
    return t


def _ptype(ts):
    k, v = ts.kind(), ts.next()
    if k == 'word':
        if re.fullmatch(r'i\d+', v):
            return ('int', int(v[1:]))
        if v == 'ptr':
            return PTR
        if v == 'void':
            return VOID
        if v in ('label', 'metadata', 'token'):
            return (v,)
        if v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
            return ('fp', v)
        if v == 'opaque':
            return ('opaque',)
    if k == 'loc':
        return ('struct', v)
    if v == '[':
        n = int(ts.next())
        ts.exp('x')
        t = parse_type(ts)
        ts.exp(']')
        return ('arr', n, t)
    if v == '{':
        fs = []
        while not ts.acc('}'):
            fs.append(parse_type(ts))
            ts.acc(',')
        return ('lit', tuple(fs), False)
    if v == '<':
        if ts.acc('{'):
            fs = []
            while not ts.acc('}'):
                fs.append(parse_type(ts))
                ts.acc(',')
            ts.exp('>')
            return ('lit', tuple(fs), True)
        raise IRError('vector type: ' + ts.src)
    raise IRError('bad type at %r in %s' % (v, ts.src))


# ---------------------------------------------------------------- values
# ('loc',name) ('glob',name) ('int',v) ('null',) ('undef',) ('zero',)
# ('agg',[(T,V)..]) ('bytes',b) ('cgep',srcT,(T,V) base,[(T,V)]) ('ccast',op,T,V,T2) ('cbin',op,(T,a),(T,b))
def cstr_bytes(s):
    s = s[2:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i:i + 2] == '\\\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_value(ts, ty):
    k, v = ts.kind(), ts.next()
    if k == 'loc':
        return ('loc', v)
    if k == 'glob':
        return ('glob', v)
    if k == 'num':
        if '.' in v:
            return ('fp', v)
        return ('int', int(v))
    if k == 'cstr':
        return ('bytes', cstr_bytes(v))
    if k == 'word':
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'getelementptr':
            while ts.peek() in ('inbounds', 'nuw', 'nsw') or ts.peek() == 'inrange':
                ts.next()
            ts.exp('(')
            st = parse_type(ts)
            ts.exp(',')
            items = []
            while True:
                while ts.peek() == 'inrange':
                    ts.next()
                t = parse_type(ts)
                items.append((t, parse_value(ts, t)))
                if ts.acc(')'):
                    break
                ts.exp(',')
            return ('cgep', st, items[0], items[1:])
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            ts.exp('(')
            t = parse_type(ts)
            a = parse_value(ts, t)
            ts.exp('to')
            t2 = parse_type(ts)
            ts.exp(')')
            return ('ccast', v, t, a, t2)
        if v in ('add', 'sub', 'mul', 'shl', 'xor'):
            while ts.peek() in ('nsw', 'nuw'):
                ts.next()
            ts.exp('(')
            t = parse_type(ts); a = parse_value(ts, t)
            ts.exp(',')
            t2 = parse_type(ts); b = parse_value(ts, t2)
            ts.exp(')')
            return ('cbin', v, (t, a), (t2, b))
        if v == 'icmp':
            pred = ts.next()
            ts.exp('(')
            t = parse_type(ts); a = parse_value(ts, t)
            ts.exp(',')
            t2 = parse_type(ts); b = parse_value(ts, t2)
            ts.exp(')')
            return ('cicmp', pred, (t, a), (t2, b))
    if v in ('[', '{', '<'):
        close = {'[': ']', '{': '}', '<': '>'}[v]
        packed = False
        if v == '<' and ts.peek() == '{':
            ts.next()
            close = '}'
            packed = True
        items = []
        while not ts.acc(close):
            t = parse_type(ts)
            items.append((t, parse_value(ts, t)))
            ts.acc(',')
        if packed:
            ts.exp('>')
        return ('agg', items)
    raise IRError('bad value %r in %s' % (v, ts.src))


def tv(ts):
    t = parse_type(ts)
    skip_attrs(ts)
    if t[0] == 'metadata':
        # swallow
        d = 0
        while not ts.end() and not (d == 0 and ts.peek() in (',', ')')):
            x = ts.next()
            d += (x == '(') - (x == ')')
        return (t, ('undef',))
    return (t, parse_value(ts, t))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'args', 'extra', 'text')

    def __init__(self, op, res, ty, args, extra, text):
        self.op, self.res, self.ty, self.args, self.extra, self.text = op, res, ty, args, extra, text


class Func:
    def __init__(self, name, ret, params, vararg, byval):
        self.name, self.ret, self.params, self.vararg = name, ret, params, vararg
        self.byval = byval      # {index: type}
        self.blocks = []        # [(label,[Instr])]
        self.internal = False


class Module:
    def __init__(self):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        self.ctors = []


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv'.split())
CASTS = set('trunc zext sext ptrtoint inttoptr bitcast sitofp uitofp fptosi fptoui fpext fptrunc'.split())


def parse_instr(text):
    ts = TS(tokenize(text), text)
    res = None
    if ts.kind() == 'loc' and ts.peek(1) == '=':
        res = ts.next()
        ts.next()
    op = ts.next()
    while op in ('tail', 'musttail', 'notail'):
        op = ts.next()
    if op in BIN:
        flags = set()
        while ts.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            flags.add(ts.next())
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.exp(',')
        b = parse_value(ts, t)
        return Instr(op, res, t, [(t, a), (t, b)], flags, text)
    if op in CASTS:
        while ts.peek() in ('nneg', 'nuw', 'nsw'):
            ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.exp('to')
        t2 = parse_type(ts)
        return Instr(op, res, t2, [(t, a)], None, text)
    if op == 'icmp':
        pred = ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.exp(',')
        b = parse_value(ts, t)
        return Instr(op, res, ('int', 1), [(t, a), (t, b)], pred, text)
    if op == 'load':
        while ts.peek() in ('volatile', 'atomic'):
            ts.next()
        t = parse_type(ts)
        ts.exp(',')
        p = tv(ts)
        return Instr(op, res, t, [p], None, text)
    if op == 'store':
        while ts.peek() in ('volatile', 'atomic'):
            ts.next()
        v = tv(ts)
        ts.exp(',')
        p = tv(ts)
        return Instr(op, None, VOID, [v, p], None, text)
    if op == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nsw'):
            ts.next()
        st = parse_type(ts)
        args = []
        while ts.acc(','):
            args.append(tv(ts))
        return Instr(op, res, PTR, args, st, text)
    if op == 'alloca':
        t = parse_type(ts)
        cnt = None
        while ts.acc(','):
            if ts.peek() == 'align':
                ts.next(); ts.next()
            else:
                cnt = tv(ts)
        return Instr(op, res, PTR, [cnt] if cnt else [], t, text)
    if op == 'phi':
        t = parse_type(ts)
        inc = []
        while True:
            ts.exp('[')
            v = parse_value(ts, t)
            ts.exp(',')
            l = ts.next()
            ts.exp(']')
            inc.append((v, l[1:]))
            if not ts.acc(','):
                break
        return Instr(op, res, t, inc, None, text)
    if op == 'select':
        c = tv(ts); ts.exp(',')
        a = tv(ts); ts.exp(',')
        b = tv(ts)
        return Instr(op, res, a[0], [c, a, b], None, text)
    if op == 'freeze':
        a = tv(ts)
        return Instr(op, res, a[0], [a], None, text)
    if op == 'br':
        if ts.peek() == 'label':
            ts.next()
            return Instr(op, None, VOID, [], [ts.next()[1:]], text)
        c = tv(ts); ts.exp(','); ts.exp('label')
        a = ts.next()[1:]; ts.exp(','); ts.exp('label')
        b = ts.next()[1:]
        return Instr(op, None, VOID, [c], [a, b], text)
    if op == 'switch':
        v = tv(ts); ts.exp(','); ts.exp('label')
        d = ts.next()[1:]
        ts.exp('[')
        cases = []
        while not ts.acc(']'):
            c = tv(ts); ts.exp(','); ts.exp('label')
            cases.append((c, ts.next()[1:]))
        return Instr(op, None, VOID, [v], (d, cases), text)
    if op == 'ret':
        if ts.peek() == 'void':
            return Instr(op, None, VOID, [], None, text)
        return Instr(op, None, VOID, [tv(ts)], None, text)
    if op == 'unreachable':
        return Instr(op, None, VOID, [], None, text)
    if op == 'call':
        skip_attrs(ts)
        rt = parse_type(ts)
        if rt[0] == 'func':
            rt = rt[1]
        callee = parse_value(ts, PTR)
        ts.exp('(')
        args = []
        byv = {}
        while not ts.acc(')'):
            t = parse_type(ts)
            rec = {}
            skip_attrs(ts, rec)
            if t[0] == 'metadata':
                while not ts.end() and ts.peek() not in (',', ')'):
                    x = ts.next()
                    if x == '(':
                        d = 1
                        while d:
                            x = ts.next()
                            d += (x == '(') - (x == ')')
                args.append((t, ('undef',)))
            else:
                if 'byval' in rec:
                    byv[len(args)] = rec['byval']
                args.append((t, parse_value(ts, t)))
            ts.acc(',')
        return Instr(op, res, rt, args, (callee, byv), text)
    if op == 'extractvalue':
        a = tv(ts)
        idx = []
        while ts.acc(','):
            idx.append(int(ts.next()))
        return Instr(op, res, None, [a], idx, text)
    if op == 'insertvalue':
        a = tv(ts); ts.exp(',')
        b = tv(ts)
        idx = []
        while ts.acc(','):
            idx.append(int(ts.next()))
        return Instr(op, res, a[0], [a, b], idx, text)
    raise IRError('unsupported instruction: ' + text)


def parse_header(line):
    """define/declare line -> Func"""
    ts = TS(tokenize(line), line)
    kw = ts.next()
    internal = ' internal ' in line.split('@')[0]
    while True:
        skip_attrs(ts)
        if ts.peek() in ('comdat',):
            ts.next()
        else:
            break
    rt = parse_type_nofunc(ts)
    skip_attrs(ts)
    name = ts.next()
    ts.exp('(')
    params, byval, va = [], {}, False
    while not ts.acc(')'):
        if ts.acc('...'):
            va = True
        else:
            t = parse_type(ts)
            rec = {}
            skip_attrs(ts, rec)
            if 'byval' in rec:
                byval[len(params)] = rec['byval']
            nm = None
            if ts.kind() == 'loc':
                nm = ts.next()
            params.append((t, nm))
        ts.acc(',')
    f = Func(name, rt, params, va, byval)
    f.internal = internal
    return f


def parse_type_nofunc(ts):
    return _ptype(ts)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] == ';':
            continue
        if ln[0] == '%':
            nm, _, rest = ln.partition(' = type ')
            ts = TS(tokenize(rest), ln)
            m.structs[nm] = parse_type(ts)
            continue
        if ln[0] == '@':
            parse_global(m, ln)
            continue
        if ln.startswith('declare'):
            f = parse_header(ln)
            m.decls[f.name] = f
            continue
        if ln.startswith('define'):
            f = parse_header(ln)
            # unnamed params / first block numbering
            unnamed = 0
            ps = []
            for (t, nm) in f.params:
                if nm is None:
                    nm = '%' + str(unnamed)
                if re.fullmatch(r'%\d+', nm):
                    unnamed = int(nm[1:]) + 1
                ps.append((t, nm))
            f.params = ps
            cur = None
            body = []
            while True:
                l = lines[i]
                i += 1
                if l == '}':
                    break
                s = l.strip()
                if not s or s[0] == ';':
                    continue
                if l[0] != ' ':
                    mm = re.match(r'("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', l)
                    if not mm:
                        raise IRError('label? ' + l)
                    cur = (mm.group(1), [])
                    f.blocks.append(cur)
                    continue
                if cur is None:
                    cur = (str(unnamed), [])
                    f.blocks.append(cur)
                if s.startswith('switch'):
                    while not s.rstrip().endswith(']'):
                        s += ' ' + lines[i].strip()
                        i += 1
                # strip metadata suffix
                s = re.sub(r'(, ![a-zA-Z.]+ ![0-9]+)+$', '', s)
                cur[1].append(parse_instr(s))
            m.funcs[f.name] = f
            continue
        # everything else (attributes, metadata, target, source_filename, $comdat) ignored
    return m


def parse_global(m, ln):
    ts = TS(tokenize(ln), ln)
    nm = ts.next()
    ts.exp('=')
    if nm.startswith('@llvm.'):
        if nm == '@llvm.global_ctors':
            m.ctors += re.findall(r'ptr (@[-a-zA-Z$._0-9]+), ptr null', ln)
        return
    ext = False
    const = False
    while True:
        p = ts.peek()
        if p in ('external', 'extern_weak'):
            ext = True
        if p == 'constant':
            const = True
        if p in ATTRW or p in ('global', 'externally_initialized', 'extern_weak'):
            ts.next()
            continue
        if p == 'alias':
            ts.next()
            t = parse_type(ts)
            ts.exp(',')
            tt = parse_type(ts)
            v = parse_value(ts, tt)
            m.aliases[nm] = v[1]
            return
        break
    t = parse_type(ts)
    v = None
    if not ext:
        v = parse_value(ts, t)
    m.globals[nm] = (t, v, const)
