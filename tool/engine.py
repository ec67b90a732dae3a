"""Driver: extract /repo's code to IR, translate to C, discharge obligations with CBMC,
replay counterexamples natively."""
import os, sys, re, json, subprocess, tempfile, shutil, time, glob, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from irparse import parse_module, IRError
from ir2c import Emitter

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(VERIF, 'tool')
CONTR = os.path.join(VERIF, 'contracts')
NPROC = os.cpu_count() or 4
NLOCK = threading.Lock()

IRFLAGS = ['-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-DUSE_STDONLY', '-w', '-I' + REPO + '/src', '-I' + REPO + '/src/utility/trezor']
CXXIR = ['-std=c++17', '-fno-exceptions', '-fno-rtti', '-fno-threadsafe-statics', '-I' + VERIF + '/stubs']
PASSES = 'function(mem2reg,simplifycfg,loop-simplify)'


class ToolError(Exception):
    pass


class LoopShape(ToolError):
    pass


def run(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


def must(cmd, what, timeout=300):
    r = run(cmd, timeout)
    if r.returncode:
        raise ToolError('%s failed: %s\n%s' % (what, ' '.join(cmd), r.stderr.decode()[-3000:]))
    return r


def repo_sources():
    s = REPO + '/src'
    return sorted(glob.glob(s + '/**/*.cpp', recursive=True) + glob.glob(s + '/**/*.c', recursive=True))


class Workspace:
    def __init__(self):
        self.d = tempfile.mkdtemp(prefix='vp_')
        self._ir = {}

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

    def compile_ir(self, src, out, extra=()):
        cxx = src.endswith('.cpp')
        must(['clang++' if cxx else 'clang'] + IRFLAGS + (CXXIR if cxx else []) +
             ['-I' + TOOL, '-I' + CONTR] + list(extra) + [src, '-o', out], 'extraction of ' + src)

    def repo_ir(self):
        """IR of every source file of /repo, linked."""
        if 'repo' in self._ir:
            return self._ir['repo']
        srcs = repo_sources()
        outs = [os.path.join(self.d, 'r%d.ll' % i) for i in range(len(srcs))]
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda a: self.compile_ir(*a), zip(srcs, outs)))
        out = os.path.join(self.d, 'repo.ll')
        must(['llvm-link', '-S'] + outs + ['-o', out], 'llvm-link')
        self._ir['repo'] = out
        return out

    def contract_ir(self, name, defs=()):
        key = (name, tuple(defs))
        if key in self._ir:
            return self._ir[key]
        out = os.path.join(self.d, 'c_%s_%s.ll' % (name.replace('/', '_'), hashlib.md5(repr(defs).encode()).hexdigest()[:8]))
        self.compile_ir(os.path.join(CONTR, name), out, ['-D' + d for d in defs])
        self._ir[key] = out
        return out

    def module(self, contract, defs=()):
        key = ('mod', contract, tuple(defs))
        if key in self._ir:
            return self._ir[key]
        repo = self.repo_ir()
        c = self.contract_ir(contract, defs)
        base = c[:-3]
        must(['llvm-link', '-S', repo, '--override=' + c, '-o', base + '_l.ll'], 'llvm-link')
        if 'VP_SYM' in defs:
            if 'lib' not in self._ir:
                lo = os.path.join(self.d, 'symlib.ll')
                must(['clang'] + IRFLAGS + ['-fno-builtin', TOOL + '/symlib.c', '-o', lo], 'symlib')
                self._ir['lib'] = lo
            must(['llvm-link', '-S', base + '_l.ll', self._ir['lib'], '-o', base + '_l.ll'], 'llvm-link')
        must(['opt', '-S', '-passes=' + PASSES, base + '_l.ll', '-o', base + '_o.ll'], 'opt')
        m = parse_module(open(base + '_o.ll').read())
        cm = parse_module(open(c).read())
        m.contract_funcs = set(cm.funcs)
        self._ir[key] = m
        return m


class Ob:
    """One contract-enforcement run: a harness entry point in a contract file."""
    def __init__(self, contract, entry, unwind=None, defs=(), flags=(), kind='proof', bound=None,
                 timeout=600, functions=(), backend='sat', maxunwind=None, mem_leak=False, malloc_fail=False, tier='quick',
                 assumptions=(), objbits=None, loops=(), fallback=None, search=0, staticinit=False, desc='', opts=None, cost=1):
        self.contract, self.entry, self.unwind, self.defs = contract, entry, unwind, tuple(defs)
        self.flags, self.kind, self.bound, self.timeout = list(flags), kind, bound, timeout
        self.functions, self.backend = list(functions), backend
        self.maxunwind = maxunwind
        self.mem_leak, self.malloc_fail, self.tier = mem_leak, malloc_fail, tier
        self.assumptions = list(assumptions)
        self.objbits = objbits
        self.staticinit = staticinit
        self.desc = desc
        self.opts = dict(opts or {})
        self.cost = cost
        self.loops = [tuple(l) for l in loops]
        self.fallback = fallback
        self.search = search       # seconds of native search when a proof fails without a reproducible input


BASEFLAGS = ['--no-standard-checks', '--pointer-check', '--bounds-check', '--div-by-zero-check', '--undefined-shift-check',
             '--unwinding-assertions', '--no-malloc-may-fail', '--drop-unused-functions', '--object-bits', '12']


class Result:
    pass


def build_goto(ws, ob):
    m = ws.module(ob.contract, ob.defs)
    roots = ['@' + ob.entry]
    for l in ob.loops:
        roots += ['@INV_' + l[2], '@FRAME_' + l[2]]
    e = Emitter(m, roots, loops=ob.loops)
    base = os.path.join(ws.d, 'o_' + ob.entry + '_' + hashlib.md5(repr(ob.defs).encode()).hexdigest()[:6])
    open(base + '.c', 'w').write(e.emit())
    for l in ob.loops:
        if tuple(l) not in e.cutdone:
            raise LoopShape('loop %r not found' % (l,))
    must(['goto-cc', '-I' + TOOL, '--function', ob.entry, base + '.c', TOOL + '/rt.c', '-o', base + '.gb'], 'goto-cc', 300)
    repo_funcs = [f[1:] for f in e.defined if f not in m.contract_funcs]
    return base + '.gb', repo_funcs, e


def run_cbmc(gb, ob, unwind, timeout):
    cmd = ['cbmc', gb, '--json-ui', '--trace'] + BASEFLAGS
    if unwind:
        cmd += ['--unwind', str(unwind)]
    if ob.mem_leak:
        cmd += ['--memory-leak-check']
    if ob.backend == 'cvc5':
        cmd += ['--cvc5']
    elif ob.backend == 'z3':
        cmd += ['--z3']
    cmd += ob.flags
    t = time.time()
    try:
        r = run(cmd, timeout)
    except subprocess.TimeoutExpired:
        return None, cmd, time.time() - t
    return r, cmd, time.time() - t


def parse_json(out):
    try:
        return json.loads(out)
    except Exception:
        return None


def sym_discharge(ws, ob, log):
    """run the symbolic-execution verifier in a process of its own"""
    import multiprocessing as mp
    R = Result()
    R.ob = ob
    R.status, R.detail, R.props, R.failed, R.replay, R.time, R.repo_funcs, R.unwound = 'error', '', [], [], None, 0.0, [], True
    R.traces = []
    t0 = time.time()
    try:
        mod = ws.module(ob.contract, ob.defs)
        ctx = mp.get_context('fork')
        a, b = ctx.Pipe(False)
        opts = dict(ob.opts, timeout=ob.timeout, staticinit=ob.staticinit, leak=ob.mem_leak)

        def job():
            import sym, resource
            resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
            try:
                b.send(sym.run_job(mod, ob.entry, opts))
            except BaseException as ex:
                b.send({'status': 'error', 'detail': 'worker: %r' % (ex,)})
        p = ctx.Process(target=job)
        p.start()
        b.close()
        r = None
        if a.poll(ob.timeout + 60):
            try:
                r = a.recv()
            except EOFError:
                r = None
        if r is None:
            p.kill()
            R.status = 'timeout'
            R.detail = 'verifier process gave no answer'
            p.join()
            R.time = time.time() - t0
            return R
        p.join()
    except (ToolError, IRError) as ex:
        R.detail = str(ex)
        return R
    R.time = time.time() - t0
    R.detail = r.get('detail', '')
    R.status = r['status']
    R.sym = {k: r.get(k) for k in ('instances', 'paths', 'merges', 'queries', 'memobs', 'steps', 'solver')}
    R.repo_funcs = r.get('funcs', [])
    R.props = [(k, d, s) for (k, d, s) in r.get('props', [])]
    if R.status == 'violated':
        R.failed = [(k, d) for (k, d, v) in r['fails']]
        R.traces = [(k, d, v) for (k, d, v) in r['fails']]
    elif R.status == 'ok' and not r['reached']:
        R.status = 'error'
        R.detail = 'vacuous: the end of the harness is not reached'
    if r.get('unknown'):
        R.detail = (R.detail + ' undecided: ' + '; '.join(r['unknown']))[:400]
    if R.repo_funcs is not None and r.get('memobs'):
        R.props.append(('mem', '%d memory accesses inside live objects' % r['memobs'], 'SUCCESS'))
    R.nvac = len(r.get('reached', []))
    return R


def discharge(ws, ob, log):
    if ob.backend == 'sym':
        return sym_discharge(ws, ob, log)
    return cbmc_discharge(ws, ob, log)


def cbmc_discharge(ws, ob, log):
    R = Result()
    R.ob = ob
    R.status = 'error'
    R.detail = ''
    R.props = []
    R.failed = []
    R.replay = None
    R.time = 0.0
    R.repo_funcs = []
    R.unwound = True
    try:
        gb, R.repo_funcs, em = build_goto(ws, ob)
    except (ToolError, IRError) as ex:
        R.detail = str(ex)
        return R
    unwind = ob.unwind
    t0 = time.time()
    while True:
        left = ob.timeout - (time.time() - t0)
        if left <= 1:
            R.status = 'timeout'
            return R
        r, cmd, dt = run_cbmc(gb, ob, unwind, left)
        R.time += dt
        R.cmd = ' '.join(cmd)
        if r is None:
            R.status = 'timeout'
            R.detail = 'cbmc exceeded %ds' % ob.timeout
            return R
        js = parse_json(r.stdout)
        if js is None:
            R.detail = 'cbmc output unreadable: ' + r.stdout.decode(errors='replace')[-1500:] + r.stderr.decode(errors='replace')[-500:]
            return R
        res = [x['result'] for x in js if isinstance(x, dict) and 'result' in x]
        if not res:
            R.detail = 'cbmc gave no result: ' + json.dumps([x for x in js if isinstance(x, dict) and x.get('messageType') in ('ERROR', 'WARNING')])[-2500:]
            return R
        res = res[0]
        unw = [p for p in res if 'unwind' in p['property'] and p['status'] != 'SUCCESS']
        nob = [p for p in res if p['description'].startswith('no body for callee')]
        if unw and ob.maxunwind and unwind < ob.maxunwind:
            unwind = min(unwind * 2, ob.maxunwind)
            log('  %s: unwinding assertion failed, retry with %d' % (ob.entry, unwind))
            continue
        break
    R.unwind = unwind
    R.unwound = not unw
    vac = [p for p in res if p['description'].startswith('VACUITY')]
    R.vacuous = [p['description'] for p in vac if p['status'] == 'SUCCESS']
    real = [p for p in res if not p['description'].startswith('VACUITY') and 'unwind' not in p['property']]
    R.props = [(p['property'], p['description'], p['status']) for p in real]
    bad = [p for p in real if p['status'] != 'SUCCESS']
    R.nvac = len(vac)
    R.unwind_failed = [p['property'] for p in unw]
    if bad:
        fails = [p for p in bad if p['status'] == 'FAILURE']
        if not fails:
            R.detail = 'undecided: ' + ', '.join(p['property'] for p in bad)
            return R
        # prefer contract obligations as the named failure
        fails.sort(key=lambda p: (not p['description'].startswith('OB '), len(p.get('trace', []))))
        R.failed = [(p['property'], p['description']) for p in fails]
        R.traces = [(p['property'], p['description'], trace_inputs(p)) for p in fails]
        R.status = 'violated'
        return R
    if nob:
        pass
    if R.vacuous:
        R.detail = 'vacuous: ' + '; '.join(R.vacuous)
        return R
    if not vac:
        R.detail = 'no vacuity guard'
        return R
    if unw and ob.kind == 'proof':
        R.status = 'incomplete'
        R.detail = 'unwinding assertions failed at %s: %s' % (unwind, ', '.join(R.unwind_failed[:5]))
        return R
    R.status = 'ok'
    return R


def trace_inputs(p):
    vals = []
    for s in p.get('trace', []):
        if s.get('stepType') == 'assignment' and s.get('lhs') == '__nd_last' and not s.get('hidden'):
            v = s['value']
            if 'binary' in v:
                vals.append(int(v['binary'], 2))
            else:
                vals.append(int(re.sub(r'[^0-9]', '', v.get('data', '0')) or 0))
    if vals and p.get('trace'):
        # first assignment is the static initialisation of the log variable
        vals = vals[1:] if vals[0] == 0 and first_is_init(p) else vals
    return vals


def first_is_init(p):
    for s in p.get('trace', []):
        if s.get('stepType') == 'assignment' and s.get('lhs') == '__nd_last':
            f = s.get('sourceLocation', {}).get('function', '')
            return f != 'nd_u64'
    return False


# ---------------------------------------------------------------- native replay
NATIVE = ['-g', '-O0', '-w', '-DUSE_STDONLY', '-DVP_NATIVE', '-I' + REPO + '/src', '-I' + REPO + '/src/utility/trezor',
          '-I' + TOOL, '-I' + CONTR, '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift-base,nonnull-attribute,signed-integer-overflow,vptr',
          '-fno-sanitize-recover=undefined', '-fsemantic-interposition', '-fPIC', '-fno-common']


def native_repo(ws):
    with NLOCK:
        return _native_repo(ws)


def _native_repo(ws):
    if 'native' in ws._ir:
        return ws._ir['native']
    nd = os.path.join(ws.d, 'native')
    os.makedirs(nd, exist_ok=True)
    objs = []

    def one(i_src):
        i, src = i_src
        o = os.path.join(nd, '%d.o' % i)
        cxx = src.endswith('.cpp')
        must((['clang++', '-std=c++17'] if cxx else ['clang']) + NATIVE + ['-c', src, '-o', o], 'native build')
        must(['objcopy', '--weaken', o], 'objcopy')
        return o
    with ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(one, enumerate(repo_sources())))
    ws._ir['native'] = objs
    return objs


def native_build(ws, ob):
    key = ('nat', ob.contract, ob.entry, ob.defs)
    if key in ws._ir:
        return ws._ir[key]
    objs = native_repo(ws)
    exe = os.path.join(ws.d, 'n_%s_%s' % (ob.entry, hashlib.md5(repr(ob.defs).encode()).hexdigest()[:6]))
    must(['clang++', '-std=c++17'] + NATIVE + ['-D' + d for d in ob.defs] + ['-DHARNESS=' + ob.entry,
         os.path.join(CONTR, ob.contract), TOOL + '/native_rt.cpp'] + objs + ['-o', exe], 'native harness')
    ws._ir[key] = exe
    return exe


def replay(ws, ob, vals):
    """returns (reproduced, text)"""
    exe = native_build(ws, ob)
    f = os.path.join(ws.d, 'in_%s.txt' % ob.entry)
    open(f, 'w').write('\n'.join(map(str, vals)) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:exitcode=78:allocator_may_return_null=1' % (1 if ob.mem_leak else 0),
               UBSAN_OPTIONS='exitcode=78')
    try:
        r = run([exe, f], 60, env=env)
    except subprocess.TimeoutExpired:
        return True, 'did not terminate in 60 s'
    txt = (r.stdout + r.stderr).decode(errors='replace')
    return r.returncode not in (0, 3), 'exit status %d\n%s' % (r.returncode, txt[-4000:])


def search(ws, ob, seed, secs, trials=1000000):
    """random search on the real code for an input that fails the contract (supports a failed proof; never decides)"""
    exe = native_build(ws, ob)
    rec = os.path.join(ws.d, 'rec_%s_%s.txt' % (ob.entry, hashlib.md5(repr(ob.defs).encode()).hexdigest()[:6]))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1', UBSAN_OPTIONS='exitcode=78')
    try:
        r = run([exe, '--search', str(seed), str(trials), str(secs), rec], secs + 60, env=env)
    except subprocess.TimeoutExpired:
        return None, 'search did not end'
    if r.returncode == 77 and os.path.exists(rec):
        vals = [int(x) for x in open(rec).read().split()]
        return vals, r.stdout.decode(errors='replace')
    return None, r.stdout.decode(errors='replace')


class Samp:
    """Run-time check of a contract on the real compiled code with random inputs (bounded stand-in for sizes the
    verifier does not reach; labelled bounded, never counted as proved)."""
    def __init__(self, contract, entry, secs=6, trials=3000, defs=(), desc='', tier='quick', mem_leak=False, cost=0):
        self.contract, self.entry, self.secs, self.trials, self.defs = contract, entry, secs, trials, tuple(defs)
        self.desc, self.tier, self.mem_leak, self.cost = desc, tier, mem_leak, cost
        self.kind, self.bound, self.backend = 'bounded', 'up to %d random inputs' % trials, 'run-time contract check (ASan+UBSan)'
        self.assumptions, self.fallback, self.search, self.timeout = [], None, -1, secs

    def discharge(self, ws, log):
        R = Result()
        R.ob = self
        R.status, R.detail, R.props, R.failed, R.replay, R.time, R.repo_funcs, R.unwound = 'error', '', [], [], None, 0.0, [], True
        R.traces, R.nvac = [], 1
        t0 = time.time()
        try:
            secs = self.secs * (10 if os.environ.get('VP_THOROUGH') else 1)
            vals, txt = search(ws, self, int(os.environ.get('VERIF_SEED', '1')), secs, self.trials * (10 if os.environ.get('VP_THOROUGH') else 1))
        except ToolError as ex:
            R.detail = str(ex)
            return R
        R.time = time.time() - t0
        R.detail = txt.strip()
        if vals is not None:
            R.status = 'violated'
            R.failed = [('contract', 'contract fails on the real code')]
            R.traces = [('contract', 'contract fails on the real code', vals)]
        elif ' passed' in txt and not txt.startswith('searched 0') and ': 0 passed' not in txt:
            R.status = 'ok'
        else:
            R.detail = 'no input inside the precondition: ' + txt
        return R
