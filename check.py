#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough] -- decide one property on /repo's working tree."""
import sys, os, json, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tool'))
import engine
from engine import *
import registry


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3:]          # development aid: run only these entries
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    if tier == 'thorough':
        os.environ['VP_THOROUGH'] = '1'
    spec = registry.PROPS[pid]
    obs = [o for o in spec['obs'] if tier == 'thorough' or o.tier == 'quick']
    if only:
        obs = [o for o in obs if o.entry in only]
    ws = Workspace()
    rc = 2
    try:
        rc = decide(ws, pid, tier, seed, spec, obs, t0)
    except (ToolError, IRError) as ex:
        print('ERROR: %s' % str(ex)[-1500:])
        rc = 2
    finally:
        if os.environ.get('VP_KEEP'):
            print('scratch kept in', ws.d)
        else:
            ws.close()
    sys.exit(rc)


def decide(ws, pid, tier, seed, spec, obs, t0):
    def log(s):
        print(s, flush=True)
    mods = sorted({(o.contract, o.defs) for o in obs if not hasattr(o, 'discharge')})
    if mods:
        ws.repo_ir()
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(lambda a: ws.module(*a), mods))
    budget = int(os.environ.get('VP_BUDGET', '840' if tier == 'quick' else '7200'))

    def one(ob):
        R = ob.discharge(ws, log) if hasattr(ob, 'discharge') else discharge(ws, ob, log)
        log('%-10s %-28s %6.1fs  %s%s' % (R.status, ob.entry, R.time,
            '%d obligations' % len(R.props) if R.props else '', (' -- ' + R.detail[:600]) if R.detail else ''))
        return R
    order = sorted(obs, key=lambda o: -getattr(o, 'cost', 1))
    with ThreadPoolExecutor(max(1, NPROC)) as ex:
        results = list(ex.map(one, order))

    violations, errors, degraded = [], [], []
    extra = []
    for R in results:
        ob = R.ob
        if R.status == 'ok':
            continue
        left = budget - (time.time() - t0)
        v = None
        if R.status == 'violated':
            v = confirm(ws, ob, R, log)
        if (v is None or not v['input']) and getattr(ob, 'fallback', None) is not None and left > 30:
            fb = ob.fallback
            F = one(fb)
            extra.append(F)
            if F.status == 'violated':
                fv = confirm(ws, fb, F, log)
                if fv and (fv['input'] or v is None):
                    v = fv
            elif F.status == 'ok' and R.status != 'violated':
                degraded.append('%s: unbounded proof not available on this tree (%s); decided by the bounded stand-in %s (%s)'
                                % (ob.entry, (R.detail or R.status)[:200], fb.entry, fb.bound))
                # the stand-in is bounded: look further on the real code before accepting it
                vals, txt = search(ws, ob, seed, min(ob.search or 20, max(5, budget - (time.time() - t0) - 30)))
                log('  native search %s: %s' % (ob.entry, txt.strip()))
                if vals:
                    v = witness(ws, ob, vals, [('search', 'contract fails on the real code')], log)
                else:
                    continue
        searched = False
        if v is None or not v['input']:
            if hasattr(ob, 'contract') and 'vacuous' not in R.detail and ob.search != -1:
                secs = min(ob.search or 20, max(3, budget - (time.time() - t0) - 20))
                try:
                    vals, txt = search(ws, ob, seed, secs)
                    log('  native search %s: %s' % (ob.entry, txt.strip()))
                    searched = ' passed' in txt and ': 0 passed' not in txt
                    if vals:
                        w = witness(ws, ob, vals, R.failed or [('search', 'contract fails on the real code')], log)
                        if w:
                            v = w
                except ToolError as ex:
                    log('  native search not possible: %s' % str(ex)[:300])
        if v is not None:
            violations.append((R, v))
        elif (R.status in ('timeout', 'incomplete') or searched and R.status == 'error') and not R.failed:
            degraded.append('%s %s: the verifier gave no answer on this tree (%s); decided only by the run-time contract check above'
                            % (ob.entry, ' '.join(ob.defs), (R.detail or R.status)[:200]))
        else:
            errors.append('%s: %s %s' % (ob.entry, R.status, R.detail[:1500]))

    n_ob = sum(len(R.props) for R in results + extra)
    n_ok = sum(len([1 for p in R.props if p[2] == 'SUCCESS']) for R in results + extra)
    evidence(pid, tier, seed, spec, results + extra, n_ob, n_ok, violations, degraded, errors, t0)
    for d in degraded:
        log('BOUNDED: ' + d)
    for k in spec.get('known', []):
        log('KNOWN-FINDING: property=%s %s' % (pid, k))
    if violations:
        R, v = violations[0]
        # prefer one with a failing input
        for (R2, v2) in violations:
            if v2['input']:
                R, v = R2, v2
                break
        path = write_replay(pid, v)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v['input'] else ' no-failing-input-found'), flush=True)
        return 1
    if errors:
        for e in errors:
            print('ERROR: ' + e)
        return 2
    log('property %s: %d obligations discharged in %.1f s' % (pid, n_ok, time.time() - t0))
    return 0


def confirm(ws, ob, R, log):
    """replay the verifier's counterexamples against the real code"""
    best = {'input': None, 'ob': ob, 'failed': R.failed, 'text': '', 'out': ''}
    if hasattr(ob, 'confirm'):
        return ob.confirm(ws, R, log)
    seen = set()
    n = 0
    for (prop, desc, vals) in R.traces:
        key = tuple(vals)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if n > 6:
            break
        try:
            rep, txt = replay(ws, ob, vals)
        except ToolError as ex:
            best['text'] = 'replay not possible: ' + str(ex)[:1500]
            break
        log('  replay of %s (%s): %s' % (ob.entry, desc[:90], txt.split('\n')[0] + ' ' + ' '.join(txt.split('\n')[1:2])[:100]))
        if rep:
            best.update(input=vals, text=txt, failed=[(prop, desc)] + [f for f in R.failed if f != (prop, desc)])
            return best
        best['text'] = txt
    return best


def witness(ws, ob, vals, failed, log):
    rep, txt = replay(ws, ob, vals)
    if rep:
        return {'input': vals, 'ob': ob, 'failed': failed, 'text': txt}
    return None


def write_replay(pid, v):
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'replay_%s.json' % pid)
    ob = v['ob']
    json.dump({'property': pid, 'contract': getattr(ob, 'contract', None), 'harness': ob.entry,
               'defs': list(getattr(ob, 'defs', ())),
               'failed_obligations': [list(f) for f in v['failed'][:20]],
               'inputs': v['input'], 'verifier_output': v.get('out', ''), 'replay_output': v['text'],
               'how': 'python3-vt /verif/replay.py ' + path}, open(path, 'w'), indent=1)
    return path


def evidence(pid, tier, seed, spec, results, n_ob, n_ok, violations, degraded, errors, t0):
    funcs = sorted({f for R in results for f in R.repo_funcs})
    trusted = ['clang 18 -O0 lowering and mem2reg/simplifycfg/loop-simplify', 'tool/irparse.py + tool/ir2c.py (IR to C, one statement per instruction)',
               'stubs/string: model of std::string']
    if any(R.ob.backend == 'sym' for R in results):
        trusted += ['tool/sym.py, terms.py, poly.py (verification-condition generator over the IR, term simplifier, polynomial normal form)', 'z3',
                    'models of malloc/calloc/realloc/free/new/delete/mem*/str* in tool/sym.py and tool/symlib.c']
    if any(R.ob.backend in ('sat', 'cvc5', 'z3') for R in results):
        trusted += ['CBMC 6.11 and its SAT back end', 'CBMC library models of malloc/calloc/realloc/free/mem*/str*', 'tool/rt.c runtime prelude']
    cov = {
        'obligations': n_ob, 'discharged': n_ok,
        'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
        'trusted_base': trusted + spec.get('trusted', []),
        'functions_extracted_from_repo': funcs,
        'contracts': [{
            'harness': R.ob.entry, 'contract_file': getattr(R.ob, 'contract', ''), 'kind': R.ob.kind, 'bound': R.ob.bound,
            'what': R.ob.desc, 'status': R.status, 'obligations': len(R.props),
            'discharged': len([1 for p in R.props if p[2] == 'SUCCESS']), 'backend': R.ob.backend,
            'unwinding_complete': R.unwound, 'solver_s': round(R.time, 2),
            'verifier': getattr(R, 'sym', None), 'loop_contracts': [list(l) for l in getattr(R.ob, 'loops', [])],
            'assumed': R.ob.assumptions,
        } for R in results],
        'solver_s': round(sum(R.time for R in results), 2),
        'bounded_standins': [R.ob.entry + ': ' + str(R.ob.bound) for R in results if R.ob.kind == 'bounded'] + degraded,
        'errors': errors,
    }
    ass = list(spec.get('assumptions', [])) + sorted({a for R in results for a in R.ob.assumptions})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'proof'), 'coverage': cov,
          'assumptions': ass, 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
