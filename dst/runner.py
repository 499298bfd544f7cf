"""Runs one property check: seeded search over simulated runs, evidence,
minimisation and replay.

  runner.py C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N]
  runner.py --replay FILE
  runner.py C01 --digests N      (determinism self test: print idx digest)
Exit: 0 held, 1 violation, 3 error of the check itself.
"""
import argparse
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import struct
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.environ.get('VERIF_EVIDENCE') or os.path.join(VERIF, 'evidence')
sys.path.insert(0, VERIF)

from dst import engine          # noqa: E402
from dst.engine import Ctx, Violation, HarnessError, InjectedError, StepBudget   # noqa: E402

now = engine.real_perf
LINE_BUDGET = 40_000_000


def load(prop):
    return importlib.import_module('dst.props.' + prop.lower())


def rng_for(seed, prop, idx):
    h = hashlib.sha256(('%d/%s/%d' % (seed, prop, idx)).encode()).digest()
    return random.Random(int.from_bytes(h[:16], 'big'))


def make_plan(mod, seed, idx, tier):
    r = rng_for(seed, mod.ID, idx)
    p = mod.generate(r, tier)
    if getattr(mod, 'NAMES', False) and 'named' not in p:
        # names must not matter: unique, absent, or the same for everything
        p['named'] = r.choice([True] * 6 + [False, 'same'])
    return p


def run_plan(mod, plan, budget=None):
    """execute one plan in this process; returns a result dict"""
    ctx = Ctx(mod.ID)
    res = {}
    try:
        if budget:
            with engine.line_budget(ctx, budget):
                mod.execute(plan, ctx)
        else:
            mod.execute(plan, ctx)
    except Violation as v:
        ctx.first = ctx.first or (v.cls, v.msg)
    except StepBudget as e:
        ctx.first = ('no-progress', str(e))
    except HarnessError as e:
        ctx.herror = ctx.herror or str(e)
    except BaseException as e:
        # raised by a line of the code under test (through the libraries it
        # uses) and not by the simulator: it is the code's, else it is ours
        own = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith((engine.PKG, VERIF))]
        if not ctx.herror and own and own[-1].filename.startswith(engine.PKG) \
                and not isinstance(e, InjectedError) and not any(e is i for i in ctx.injected):
            ctx.first = ctx.first or ('unexpected-exception', '%s(%s) in %s:%s' % (
                type(e).__name__, str(e)[:160], os.path.basename(own[-1].filename), own[-1].name))
        else:
            ctx.herror = ctx.herror or traceback.format_exc()[-3000:]
    if ctx.herror:
        res['herror'] = ctx.herror
    elif ctx.first:
        res['violation'] = list(ctx.first)
        ctx.log('violation', *ctx.first)
    res.update(digest=ctx.digest(), counts=ctx.counts, sigs=sorted(ctx.sigs)[:400],
               sim_time=float(ctx.sim_time), steps=ctx.steps, nontrivial=ctx.nontrivial,
               trail=ctx.trail, nlog=ctx.nlog)
    return res


def forked(fn, timeout):
    """run fn() in a forked child; returns (result, None) or (None, reason)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            out = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            code = 0
        except BrokenPipeError:
            pass
        except BaseException:
            try:
                sys.stderr.write(traceback.format_exc())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = now() + timeout
    try:
        while True:
            left = end - now()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return None, 'timeout'
            c = os.read(r, 1 << 20)
            if not c:
                break
            buf += c
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    if st != 0 or not buf:
        return None, 'died status %d' % st
    return pickle.loads(buf), None


def run_forked(mod, plan_fn, timeout):
    def job():
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        plan = plan_fn()
        res = run_plan(mod, plan)
        if 'violation' in res or 'herror' in res:
            res['plan'] = plan
        res['sample'] = mod.summary(plan) if hasattr(mod, 'summary') else None
        return res
    out, why = forked(job, timeout)
    if out is not None:
        return out
    if why == 'timeout':
        # decide by executed lines, not by wall time
        def job2():
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            plan = plan_fn()
            res = run_plan(mod, plan, LINE_BUDGET)
            res['plan'] = plan
            return res
        out, why2 = forked(job2, 240)
        if out is not None and out.get('violation', [''])[0] == 'no-progress':
            return out
    return dict(herror='run %s' % why, digest='', counts={}, sigs=[], sim_time=0., steps=0,
                nontrivial=False, trail=[], nlog=0)


def worker(mod, seed, tier, idxs, wfd, timeout, stop_at):
    for i in idxs:
        if now() > stop_at:
            break
        res = run_forked(mod, lambda: make_plan(mod, seed, i, tier), timeout)
        res['idx'] = i
        data = pickle.dumps(res)
        os.write(wfd, struct.pack('<I', len(data)))
        o = 0
        while o < len(data):
            o += os.write(wfd, data[o:o + 65536])
    os._exit(0)


def explore(mod, seed, tier, runs, jobs, timeout, wall, on_result):
    t0 = now()
    procs = {}
    for w in range(jobs):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for f in procs:
                os.close(f)
            try:
                worker(mod, seed, tier, range(w, runs, jobs), wf, timeout, t0 + wall)
            except BaseException:
                traceback.print_exc()
            os._exit(1)
        os.close(wf)
        procs[r] = [pid, b'']
    bad = None
    stop = False
    while procs:
        rd, _, _ = select.select(list(procs), [], [], 5.0)
        for f in rd:
            c = os.read(f, 1 << 20)
            if not c:
                pid, rest = procs.pop(f)
                os.close(f)
                _, st = os.waitpid(pid, 0)
                if (st != 0 or rest) and not stop:
                    bad = 'worker died (status %d)' % st
                continue
            procs[f][1] += c
            while len(procs[f][1]) >= 4:
                n = struct.unpack('<I', procs[f][1][:4])[0]
                if len(procs[f][1]) < 4 + n:
                    break
                res = pickle.loads(procs[f][1][4:4 + n])
                procs[f][1] = procs[f][1][4 + n:]
                if on_result(res):
                    stop = True
        if stop:
            for f, (pid, _) in procs.items():
                os.kill(pid, signal.SIGKILL)
            for f, (pid, _) in list(procs.items()):
                os.close(f)
                os.waitpid(pid, 0)
            procs = {}
    return bad


# --- known findings -----------------------------------------------------------
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                body = line.split(' ', 2)[2]
                key, desc = body.split(' :: ', 1)
                cls, sub = key.split(' match=', 1)
                out.append(dict(cls=cls.replace('class=', '').strip(), sub=sub.strip(), desc=desc.strip()))
    return out


def match_known(known, viol):
    for k in known:
        if viol[0] == k['cls'] and k['sub'] in viol[1]:
            return k
    return None


# --- minimisation ----------------------------------------------------------------
def generic_candidates(plan):
    """smaller plans: drop list items (chunks first), null optional values"""
    out = []
    keys = [k for k in plan if isinstance(plan[k], list)]
    keys.sort(key=lambda k: -len(plan[k]))

    def with_(path, val):
        p = json.loads(json.dumps(plan))
        o = p
        for k in path[:-1]:
            o = o[k]
        o[path[-1]] = val
        return p
    lists = [([k], plan[k]) for k in keys]
    for k in plan:
        if isinstance(plan[k], dict):
            for kk in plan[k]:
                if isinstance(plan[k][kk], list):
                    lists.append(([k, kk], plan[k][kk]))
    for path, val in lists:
        n = len(val)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                out.append(with_(path, val[:s] + val[s + size:]))
            size //= 2
    for path, val in lists:
        for i, it in enumerate(val):
            if isinstance(it, dict):
                for k in it:
                    if it[k] is not None and k in ('H0', 'H1', 'visc'):
                        out.append(with_(path + [i, k], None))
                    if k == 'gvel' and any(it[k]):
                        out.append(with_(path + [i, k], [0.] * len(it[k])))
    return out


def plan_size(plan):
    return len(json.dumps(plan)) + (plan['N'] if isinstance(plan.get('N'), int) else 0)


def shrink(mod, plan, cls, budget):
    t0 = now()
    cur, tried, accepted = plan, 0, 0
    progress = True
    seen = set()
    while progress and now() - t0 < budget:
        progress = False
        cands = list(mod.shrinks(cur)) if hasattr(mod, 'shrinks') else []
        cands += generic_candidates(cur)
        for c in cands:
            if now() - t0 > budget:
                break
            key = hashlib.sha1(json.dumps(c, sort_keys=True).encode()).digest()
            if key in seen or plan_size(c) >= plan_size(cur):
                continue
            seen.add(key)
            tried += 1
            out, why = forked(lambda: _quiet(mod, c), 20)
            if out and out.get('violation', [None])[0] == cls:
                cur, progress = c, True
                accepted += 1
                break
    return cur, tried, accepted


def _quiet(mod, plan):
    d = os.open(os.devnull, os.O_WRONLY)
    os.dup2(d, 1)
    os.dup2(d, 2)
    return run_plan(mod, plan)


# --- entry -------------------------------------------------------------------------
def do_replay(path, quiet=False):
    rec = json.load(open(path))
    mod = load(rec['property'])
    engine.import_sut()
    if hasattr(mod, 'setup'):
        mod.setup()
    if rec.get('class') == 'no-progress':
        out, why = forked(lambda: run_plan(mod, rec['plan'], LINE_BUDGET), 300)
    else:
        out, why = forked(lambda: run_plan(mod, rec['plan']), 120)
    if out is None:
        print('REPLAY-ERROR %s' % why)
        return 3
    if 'herror' in out:
        print('REPLAY-ERROR', out['herror'])
        return 3
    if 'violation' in out:
        print('REPLAY property=%s class=%s digest=%s' % (rec['property'], out['violation'][0], out['digest']))
        if not quiet:
            print('  ' + out['violation'][1])
            for t in out['trail']:
                print('  . ' + t)
        return 1
    print('REPLAY property=%s no violation digest=%s' % (rec['property'], out['digest']))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4))))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--digests', type=int)
    ap.add_argument('--one', type=int)
    ap.add_argument('--no-shrink', action='store_true', help='report the first violation at once, without a replay file')
    ap.add_argument('--keep-going', action='store_true')
    ap.add_argument('--selftest', action='store_true', help='import the code under test and every property module')
    a = ap.parse_args()
    if a.replay:
        return do_replay(a.replay)
    if a.selftest:
        engine.import_sut()
        for f in sorted(os.listdir(os.path.join(HERE, 'props'))):
            if f.startswith('c') and f.endswith('.py'):
                print('ok', load(f[:-3]).ID)
        return 0
    mod = load(a.prop)
    t0 = now()
    engine.import_sut()
    if hasattr(mod, 'setup'):
        mod.setup()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    if a.digests:
        got = {}
        explore(mod, a.seed, tier, a.digests, a.jobs, 120, 1e9,
                lambda r: got.__setitem__(r['idx'], (r['digest'], 'H' if 'herror' in r else 'V' if 'violation' in r else '-')) and False)
        for i in sorted(got):
            print(i, *got[i])
        return 0
    if a.one is not None:
        plan = make_plan(mod, a.seed, a.one, tier)
        res = run_plan(mod, plan)
        print(json.dumps({k: v for k, v in res.items() if k not in ('sigs',)}, indent=1, default=str))
        return 0
    runs = a.runs or (mod.RUNS_QUICK if tier == 'quick' else mod.RUNS_THOROUGH)
    wall = a.wall or (240 if tier == 'quick' else 3000)
    print('check %s tier=%s seed=%d runs=%d jobs=%d' % (mod.ID, tier, a.seed, runs, a.jobs), flush=True)
    agg = dict(n=0, steps=0, sim=0., counts={}, sigs=set(), nontriv=0, digests=set(), known={}, samples=[], nlog=0)
    viols, herrs = [], []
    known = known_findings(mod.ID)

    def on_result(r):
        if 'herror' in r:
            herrs.append((r['idx'], r['herror']))
            return len(herrs) > 20
        agg['n'] += 1
        agg['steps'] += r['steps']
        agg['sim'] += r['sim_time']
        agg['nlog'] += r['nlog']
        for k, v in r['counts'].items():
            agg['counts'][k] = agg['counts'].get(k, 0) + v
        agg['sigs'].update(r['sigs'])
        if r['nontrivial']:
            agg['nontriv'] += 1
            agg['digests'].add(r['digest'])
        if len(agg['samples']) < 3 and r.get('sample') and r['nontrivial']:
            agg['samples'].append(dict(run=r['idx'], digest=r['digest'], case=r['sample']))
        if 'violation' in r:
            k = match_known(known, r['violation'])
            if k is not None:
                agg['known'][k['desc']] = agg['known'].get(k['desc'], 0) + 1
                return False
            viols.append(r)
            if not a.keep_going:
                return True
        return False
    bad = explore(mod, a.seed, tier, runs, a.jobs, getattr(mod, 'RUN_TIMEOUT', 60), wall, on_result)
    explored = now() - t0
    for d, n in sorted(agg['known'].items()):
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (mod.ID, d, n))
    rc = 0
    replay = None
    shr = None
    if viols and a.no_shrink:
        print('run %d violates %s: %s: %s' % ((viols[0]['idx'], mod.ID) + tuple(viols[0]['violation'])))
        return 1
    if viols:
        viols.sort(key=lambda r: r['idx'])
        v = viols[0]
        cls, msg = v['violation']
        budget = 0 if cls == 'no-progress' else 45
        small, tried, acc = shrink(mod, v['plan'], cls, budget)
        out, _ = forked(lambda: _quiet(mod, small), 120)
        if not out or out.get('violation', [None])[0] != cls:
            small, out = v['plan'], v
        rdir = os.path.join(EVID, 'replay')
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, '%s-%d-%d.json' % (mod.ID, a.seed, v['idx']))
        rec = {'property': mod.ID, 'seed': a.seed, 'run': v['idx'], 'tier': tier, 'class': cls,
               'message': out['violation'][1], 'digest': out['digest'], 'trail': out['trail'],
               'plan': small,
               'minimised': dict(from_bytes=plan_size(v['plan']), to_bytes=plan_size(small),
                                 tried=tried, accepted=acc)}
        with open(replay, 'w') as f:
            json.dump(rec, f, indent=1)
        # replay in a fresh process
        p = subprocess.run([sys.executable, os.path.abspath(__file__), '--replay', replay],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        first = p.stdout.decode(errors='replace').strip().split('\n')
        same = any(('class=%s' % cls) in x and out['digest'] in x for x in first)
        shr = dict(replay_exact=same, **rec['minimised'])
        print('run %d violates %s: %s: %s' % (v['idx'], mod.ID, cls, msg))
        print('minimised: %s' % out['violation'][1])
        for t in out['trail'][-12:]:
            print('  . ' + t)
        print('replay in a fresh process %s' % ('reproduces it exactly' if same else 'DIFFERS: ' + ' / '.join(first[:2])))
        print('VIOLATION property=%s replay=%s' % (mod.ID, replay))
        rc = 1
        if a.keep_going:
            byc = {}
            for x in viols:
                byc.setdefault(x['violation'][0], []).append(x['idx'])
            print({k: (len(i), sorted(i)[:8]) for k, i in byc.items()})
    elif herrs or bad or agg['n'] == 0 or agg["n"] < 0.05 * runs:
        print('ERROR of the check: %s' % str(bad or (herrs[0] if herrs else 'only %d of %d runs done' % (agg['n'], runs))))
        rc = 3
    for i, e in herrs[:3]:
        print('harness error in run %d: %s' % (i, e))
    w = now() - t0
    ev = {
        'property': mod.ID, 'tier': tier, 'seed': a.seed, 'level': mod.LEVEL,
        'coverage': {
            'evaluations': agg['n'],
            'distinct_nontrivial': len(agg['digests']),
            'rule': mod.RULE,
            'samples': agg['samples'],
            'seeds_per_hour': int(agg['n'] / max(explored, 1e-9) * 3600),
            'simulated_steps': agg['steps'],
            'simulated_seconds': round(agg['sim'], 6),
            'events_logged': agg['nlog'],
            'faults_and_probes_fired': dict(sorted(agg['counts'].items())),
            'distinct_states': len(agg['sigs']),
            'distinct_states_measure': mod.STATES,
            'components_real': mod.REAL,
            'components_stub': mod.STUB,
            'known_findings_seen': agg['known'],
            'minimisation': shr,
            'replay': replay,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(w, 2),
        'violations': len(viols),
    }
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, mod.ID + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    zero = [k for k in getattr(mod, 'PROBES', []) if not agg['counts'].get(k)]
    if zero and rc == 0:
        print('note: probes never hit: %s' % zero)
    print('%s: %d runs, %d steps, %.3g simulated s, %d distinct, %.1f s wall -> %s' % (
        mod.ID, agg['n'], agg['steps'], agg['sim'], len(agg['digests']), w,
        {0: 'held', 1: 'VIOLATED', 3: 'error'}[rc]))
    return rc


if __name__ == '__main__':
    sys.exit(main())
