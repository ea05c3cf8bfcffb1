"""
Runs the seeded search of one property: forks one fresh child per simulated run, aggregates coverage, minimises the first
violation, writes the replay file and the evidence file.
"""
import copy
import hashlib
import importlib
import json
import os
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import kernel
from .kernel import VERIF

real_time = kernel.real_monotonic
NPROC = min(8, os.cpu_count() or 1)
RUN_TIMEOUT = 240  # wall seconds; hitting it is an error of the check, never a pass


def load_prop(pid):
    return importlib.import_module('sim.props.' + pid.lower())


def run_seed(base, pid, i):
    return int.from_bytes(hashlib.sha256('{}/{}/{}'.format(base, pid, i).encode()).digest()[:8], 'big')


def make_plan(prop, base, i, tier):
    seed = run_seed(base, prop.ID, i)
    rng = random.Random(seed)
    plan = prop.generate(rng, tier)
    plan.setdefault('np_seed', rng.getrandbits(32))
    plan.setdefault('clock_seed', rng.getrandbits(32))
    plan.setdefault('clock', rng.choice(['smooth', 'smooth', 'jumpy', 'frozen']))
    plan['seed'], plan['run'] = str(seed), i
    return json.loads(json.dumps(plan))  # plans are JSON: what is executed is exactly what is replayed


def run_forked(prop, plan, keep_log=False):
    """ executes a plan in a forked child: no run sees what another one left behind """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = kernel.execute(prop, plan, keep_log)
            except BaseException as e:
                out = {'status': 'harness', 'cls': type(e).__name__, 'msg': traceback.format_exc()[-3000:]}
            data = json.dumps(out).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, deadline = [], real_time() + RUN_TIMEOUT
    try:
        while True:
            ready, _, _ = select.select([r], [], [], max(0, deadline - real_time()))
            if not ready:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return {'status': 'timeout', 'cls': 'timeout', 'msg': 'run exceeded {} s of wall time'.format(RUN_TIMEOUT)}
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
    _, status = os.waitpid(pid, 0)
    try:
        return json.loads(b''.join(chunks))
    except ValueError:
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL):
            return {'status': 'violation', 'cls': 'process-crashed', 'msg': 'the whole process died of {}'.format(signal.Signals(sig).name), 'hash': 'crashed', 'events': 0}
        return {'status': 'harness', 'cls': 'died', 'msg': 'the child died without a result'}


def sweep(prop, base, tier, n, on_result, first=0, nproc=None, deadline=None):
    """ runs plans first..first+n-1 over forked workers; on_result(i, plan, outcome) -> True to stop early """
    nproc = nproc or NPROC
    pipes = []
    for k in range(nproc):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                for rr, _ in pipes:
                    os.close(rr)
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    for i in range(first + k, first + n, nproc):
                        if deadline is not None and real_time() > deadline:
                            break
                        try:
                            plan = make_plan(prop, base, i, tier)
                            out = run_forked(prop, plan)
                        except BaseException:
                            out = {'status': 'harness', 'cls': 'generate', 'msg': traceback.format_exc()[-3000:]}
                        data = json.dumps([i, out]).encode()
                        f.write(struct.pack('>I', len(data)) + data)
                        f.flush()
            finally:
                os._exit(0)
        os.close(w)
        pipes.append((r, pid))

    bufs = {r: b'' for r, _ in pipes}
    open_ = set(bufs)
    stop = False
    try:
        while open_ and not stop:
            for r in select.select(list(open_), [], [])[0]:
                b = os.read(r, 1 << 18)
                if not b:
                    open_.discard(r)
                    continue
                bufs[r] += b
                while len(bufs[r]) >= 4:
                    size = struct.unpack('>I', bufs[r][:4])[0]
                    if len(bufs[r]) < 4 + size:
                        break
                    i, out = json.loads(bufs[r][4:4 + size])
                    bufs[r] = bufs[r][4 + size:]
                    if on_result(i, out):
                        stop = True
    finally:
        for r, pid in pipes:
            if stop:
                try:
                    os.kill(pid, signal.SIGTERM)
                except ProcessLookupError:
                    pass
            os.close(r)
            os.waitpid(pid, 0)


# ---------------------------------------------------------------- minimisation
def get_path(plan, path):
    for k in path.split('.'):
        if not isinstance(plan, dict) or k not in plan:
            return None
        plan = plan[k]
    return plan


def set_path(plan, path, value):
    plan = copy.deepcopy(plan)
    cur, keys = plan, path.split('.')
    for k in keys[:-1]:
        cur = cur[k]
    cur[keys[-1]] = value
    return plan


def minimise(prop, plan, cls, max_attempts=250):
    """ drop steps and faults, then shrink numbers, while the same class of violation persists """
    attempts = [0]

    def fails(p):
        if attempts[0] >= max_attempts:
            return False
        attempts[0] += 1
        out = run_forked(prop, p)
        return out['status'] == 'violation' and out['cls'] == cls

    changed = True
    while changed and attempts[0] < max_attempts:
        changed = False
        for path in prop.LISTS:
            items = get_path(plan, path)
            if not isinstance(items, list) or not items:
                continue
            size = max(1, len(items) // 2)
            while size >= 1:
                i = 0
                while i < len(items):
                    cand = items[:i] + items[i + size:]
                    p = set_path(plan, path, cand)
                    if fails(p):
                        plan, items, changed = p, cand, True
                    else:
                        i += size
                size //= 2
        for path, low in prop.NUMBERS.items():
            v = get_path(plan, path)
            if not isinstance(v, int) or isinstance(v, bool):
                continue
            for cand in sorted({low, low + (v - low) // 2, v - 1}):
                if low <= cand < v:
                    p = set_path(plan, path, cand)
                    if fails(p):
                        plan, changed = p, True
                        break
        for path, simple in getattr(prop, 'SIMPLE', {}).items():
            v = get_path(plan, path)
            if v is not None and v != simple:
                p = set_path(plan, path, simple)
                if fails(p):
                    plan, changed = p, True
    return plan, attempts[0]


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#') and not line.startswith('fixed:'):
                    k = json.loads(line)
                    if k['property'] == pid:
                        res.append(k)
    return res


def matches(finding, out):
    return out.get('cls') == finding['cls'] and all(s in out.get('msg', '') for s in finding.get('contains', []))


# ---------------------------------------------------------------- check
def summarise(plan, limit=1500):
    s = json.dumps(plan, sort_keys=True)
    return plan if len(s) <= limit else {'truncated': s[:limit]}


def check(pid, tier, base):
    t0 = real_time()
    prop = load_prop(pid)
    kernel.boot()
    if prop.NEEDS_EXT:
        from . import ext
        ext.warm()
    if hasattr(prop, 'prepare'):
        prop.prepare()
    n = prop.RUNS[tier]
    deadline = t0 + (600 if tier == 'quick' else 2 * 3600)
    findings = known_findings(pid)

    agg = {'runs': 0, 'ok': 0, 'events': 0, 'lines': 0, 'sim_time': 0.0, 'faults': {}, 'probes': {}}
    hashes, states, bad, seen_findings = set(), set(), [], {}
    nontrivial = set()

    def on_result(i, out):
        agg['runs'] += 1
        for k in ('events', 'lines', 'sim_time'):
            agg[k] += out.get(k, 0)
        for k in ('faults', 'probes'):
            for a, b in out.get(k, {}).items():
                agg[k][a] = agg[k].get(a, 0) + b
        if 'hash' in out:
            hashes.add(out['hash'])
            if out['events'] >= prop.MIN_EVENTS:
                nontrivial.add(out['hash'])
        states.update(out.get('states', ()))
        if out['status'] == 'ok':
            agg['ok'] += 1
            return False
        if out['status'] == 'violation':
            for k in findings:
                if matches(k, out):
                    seen_findings[k['id']] = k
                    return False
        bad.append((i, out))
        return len(bad) >= 8

    sweep(prop, base, tier, n, on_result, deadline=deadline)
    search_s = real_time() - t0

    code, lines = 0, []
    for k in findings:
        if k['id'] in seen_findings or k.get('always'):
            lines.append('KNOWN-FINDING: property={} {}'.format(pid, k['what']))

    violations = sorted([b for b in bad if b[1]['status'] == 'violation'])
    errors = sorted([b for b in bad if b[1]['status'] != 'violation'])
    report = None
    if violations:
        for i, out in violations[:3]:
            plan = make_plan(prop, base, i, tier)
            small, attempts = minimise(prop, plan, out['cls'])
            final = run_forked(prop, small, keep_log=True)
            for _ in range(4):  # only code under test with a source of entropy of its own needs this
                if final['status'] != 'violation':
                    small, final = plan, run_forked(prop, plan, keep_log=True)
            if final['status'] == 'violation':
                break
        if final['status'] != 'violation':
            errors.append((i, {'status': 'harness', 'cls': 'not-reproducible', 'msg': json.dumps([out, final])[:3000]}))
        else:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '{}-seed{}-run{}.json'.format(pid, base, i))
            report = {'property': pid, 'verif_seed': base, 'run': i, 'run_seed': plan['seed'], 'tier': tier,
                      'cls': final['cls'], 'msg': final['msg'], 'hash': final.get('hash'), 'plan': small, 'log': final.get('log', []),
                      'minimise_attempts': attempts, 'other_violating_runs': [[j, o['cls']] for j, o in violations[1:]]}
            with open(path, 'w') as f:
                json.dump(report, f, indent=1)
            lines.append('violation: seed={} run={} class={}\n{}'.format(plan['seed'], i, final['cls'], final['msg']))
            lines.append('VIOLATION property={} replay={}'.format(pid, path))
            code = 1
    if errors and code == 0:
        code = 2
        for i, out in errors[:3]:
            lines.append('CHECK-ERROR property={} run={} {}: {}\n{}'.format(pid, i, out['status'], out.get('cls'), out.get('msg')))
    if code == 0 and agg['runs'] < n // 4:
        code = 2
        lines.append('CHECK-ERROR property={}: only {} of {} runs fitted in the time limit'.format(pid, agg['runs'], n))
    missing = [p for p in getattr(prop, 'MUST_REACH', ()) if not agg['probes'].get(p) and not agg['faults'].get(p)]
    if code == 0 and missing:
        lines.append('note: never reached in this sweep: {}'.format(', '.join(missing)))

    wall = real_time() - t0
    samples = [summarise(make_plan(prop, base, i, tier)) for i in range(min(3, n))]
    evidence = {
        'property': pid, 'tier': tier, 'seed': base, 'level': prop.LEVEL,
        'coverage': {
            'evaluations': agg['runs'],
            'distinct_nontrivial': len(nontrivial),
            'rule': prop.RULE + ' A run is non-trivial when its event log holds at least {} events; two runs are the same '
                                'when their event logs hash the same.'.format(prop.MIN_EVENTS),
            'samples': samples,
            'runs_per_hour_one_seed_each': round(agg['runs'] / max(search_s, 1e-9) * 3600),
            'simulated_seconds': round(agg['sim_time'], 3),
            'events_logged': agg['events'], 'lines_of_code_under_test_executed': agg['lines'],
            'faults_injected': dict(sorted(agg['faults'].items())),
            'probes_reached': dict(sorted(agg['probes'].items())),
            'never_reached': missing,
            'distinct_event_logs': len(hashes), 'distinct_abstract_states': len(states),
            'state_measure': prop.STATE_MEASURE,
            'real_components': prop.REAL, 'stub_components': prop.STUBS,
        },
        'assumptions': prop.ASSUMPTIONS,
        'wall_s': round(wall, 3),
        'violations': len(violations),
    }
    if report is not None:
        evidence['coverage']['violation'] = {k: report[k] for k in ('run', 'run_seed', 'cls', 'msg', 'minimise_attempts')}
        evidence['coverage']['violation']['msg'] = report['msg'][:800]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    for line in lines:
        print(line)
    print('{}: {} runs, {} distinct logs, {} states, faults {}, {:.1f} s'.format(
        pid, agg['runs'], len(hashes), len(states), agg['faults'], wall))
    return code


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = load_prop(rep['property'])
    kernel.boot()
    if prop.NEEDS_EXT:
        from . import ext
        ext.warm()
    out = run_forked(prop, rep['plan'], keep_log=True)
    same = out.get('hash') == rep['hash'] and out.get('cls') == rep['cls']
    print('outcome: {} {}\n{}'.format(out['status'], out.get('cls'), out.get('msg', '')))
    print('same execution as recorded: {}'.format(same))
    if out['status'] == 'violation':
        print('VIOLATION property={} replay={}'.format(rep['property'], path))
        return 1
    return 0 if out['status'] == 'ok' else 2


def selftest(pids, n, base):
    """ determinism: the same plans under other worker counts must produce the same event logs (also see selftest.sh) """
    res = {}
    kernel.boot()
    for pid in pids:
        prop = load_prop(pid)
        if prop.NEEDS_EXT:
            from . import ext
            ext.warm()
        got = {}

        def on_result(i, out):
            got[i] = (out['status'], out.get('cls'), out.get('hash'), out.get('lines'))

        sweep(prop, base, 'quick', n, on_result, nproc=int(os.environ.get('SIM_NPROC', NPROC)))
        res[pid] = got
    return res
