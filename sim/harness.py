"""Seeded search: generates plans, executes them in worker processes, minimises what fails, writes the
replay file and the evidence."""
import copy
import hashlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(VERIF, 'out')
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)
MEM = 3 << 30

_clock = time.monotonic          # real time: budgets and evidence only, bound before anything is patched
_sleep = time.sleep


def signature(v):
    return '%s[%s]' % (v.prop, v.sig)


def make_plan(prop, seed, i):
    from . import workloads
    rng = random.Random('%s:%s:%d' % (seed, prop, i))
    plan = workloads.generate(rng, prop, i)
    plan['prop'] = prop
    plan['seed'] = '%s:%s:%d' % (seed, prop, i)
    return json.loads(json.dumps(plan))      # what is executed is exactly what a replay file holds


def judge(plan, scratch):
    from . import workloads
    from .runner import Violation
    try:
        return workloads.judge(plan, plan['prop'], scratch)
    except (AttributeError, TypeError, LookupError, ValueError, ArithmeticError) as e:
        # what the library returned or left behind does not have the documented shape
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return [Violation(plan['prop'], 'shape', 'objects or results of the library cannot be read: %s: %s (%s:%d)' % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))], []


# ---- known findings ---------------------------------------------------------------------

def known_findings():
    """Open findings: lines 'open: {"property":..., "sig":..., "match":...} what fails'."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith('open: '):
                    d, end = json.JSONDecoder().raw_decode(line[6:])
                    d['what'] = line[6 + end:].strip()
                    out.append(d)
    return out


def is_known(v, known):
    for k in known:
        if k['property'] == v.prop and k['sig'] == v.sig and k['match'] in v.msg:
            return k
    return None


# ---- one process of the search -------------------------------------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_NOFILE, (256, 256))


def worker(k, prop, seed, first, step, count, deadline, base):
    """Runs plans first, first+step, ... and writes its findings to base/<k>.json."""
    limits()
    scratch = os.path.join(base, 'w%d' % k)
    os.mkdir(scratch)
    st = {'evaluations': 0, 'sim_s': 0.0, 'fired': Counter(), 'probes': Counter(), 'ops': Counter(), 'requests': 0,
          'signatures': set(), 'interleavings': set(), 'digest': {}, 'found': [], 'known': [], 'samples': [], 'errors': [], 'events': 0,
          'outcomes': Counter(), 'i': None}
    known = known_findings()
    i = first
    where = os.path.join(base, '%d.at' % k)
    while i < count:
        if deadline and _clock() > deadline or i > lowest(base):
            break
        with open(where, 'w') as f:
            f.write(str(i))
        try:
            plan = make_plan(prop, seed, i)
            vs, runs = judge(plan, scratch)
        except Exception:
            st['errors'].append([i, traceback.format_exc()])
            break
        st['evaluations'] += 1
        sig = hashlib.sha256()
        trivial = True
        inter = hashlib.sha256()
        for run in runs:
            w = run.w
            st['sim_s'] += w.now
            st['fired'].update(w.fired)
            st['probes'].update(w.probes)
            st['requests'] += len(w.reqlog)
            st['events'] += w.step
            for r in run.results:
                st['ops'][r.op['op']] += 1
                st['outcomes'][r.exc or 'ok'] += 1
                sig.update(repr((r.op['op'], r.op.get('kind'), r.status, r.exc, tuple(r.harm))).encode())
            for item in w.log:
                if item[3] in ('fault', 'request', 'frame', 'established', 'close', 'serial open', 'serial close', 'op', 'open', 'switch'):
                    inter.update(repr((item[1], item[2], item[3], item[4] if item[3] == 'fault' else '')).encode())
            if w.reqlog or w.port_log or w.probes or getattr(run, 'nontrivial', False):
                trivial = False
        d = runs[0].w.digest() if runs else 'unreadable'
        st['digest'][i] = d
        if not trivial:
            st['signatures'].add(sig.hexdigest()[:16])
        st['interleavings'].add(inter.hexdigest()[:16])
        if runs and not st['samples'] and not trivial and len(plan['ops']) > 3:
            st['samples'].append({'seed': plan['seed'], 'ops': plan['ops'][:8],
                                  'results': [r.show()[:100] for r in runs[0].results[:8]], 'log_digest': d})
        for v in vs:
            kf = is_known(v, known)
            if kf is not None:
                if kf not in st['known']:
                    st['known'].append(kf)
            else:
                st['found'].append([i, v.prop, v.sig, v.msg])
        if st['found']:
            # workers finish the runs before this one, so that which violation is reported does not
            # depend on their speed
            with open(os.path.join(base, 'found.%d' % i), 'w'):
                pass
            break
        i += step
    st['signatures'] = sorted(st['signatures'])
    st['interleavings'] = sorted(st['interleavings'])
    with open(os.path.join(base, '%d.tmp' % k), 'w') as f:
        json.dump(st, f)
    os.rename(os.path.join(base, '%d.tmp' % k), os.path.join(base, '%d.json' % k))


def lowest(base):
    found = [int(n[6:]) for n in os.listdir(base) if n.startswith('found.')]
    return min(found) if found else float('inf')


def fork(fn, *args):
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        return pid
    code = 3
    try:
        fn(*args)
        code = 0
    except BaseException:
        traceback.print_exc()
    finally:
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)


def search(prop, seed, count, budget, workers):
    """Execute plans 0..count-1 (or as many as the budget allows)."""
    base = tempfile.mkdtemp(prefix='verif-')
    try:
        return _search(prop, seed, count, budget, workers, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _search(prop, seed, count, budget, workers, base):
    from . import env
    env.preload()
    t0 = _clock()
    deadline = t0 + budget if budget else None
    pids = [fork(worker, k, prop, seed, k, workers, count, deadline, base) for k in range(workers)]
    for pid in pids:
        os.waitpid(pid, 0)
    total = {'evaluations': 0, 'sim_s': 0.0, 'fired': Counter(), 'probes': Counter(), 'ops': Counter(), 'requests': 0,
             'signatures': set(), 'interleavings': set(), 'digest': {}, 'found': [], 'known': [], 'samples': [], 'errors': [],
             'died': [], 'events': 0, 'outcomes': Counter()}
    for k in range(workers):
        p = os.path.join(base, '%d.json' % k)
        if not os.path.exists(p):
            at = os.path.join(base, '%d.at' % k)
            total['died'].append(int(open(at).read()) if os.path.exists(at) else None)
            continue
        with open(p) as f:
            st = json.load(f)
        for key in ('evaluations', 'sim_s', 'requests', 'events'):
            total[key] += st[key]
        for key in ('fired', 'probes', 'ops', 'outcomes'):
            total[key].update(st[key])
        for key in ('signatures', 'interleavings'):
            total[key].update(st[key])
        total['digest'].update(st['digest'])
        total['found'] += st['found']
        total['samples'] += st['samples']
        total['errors'] += st['errors']
        for kf in st['known']:
            if kf not in total['known']:
                total['known'].append(kf)
    total['wall'] = _clock() - t0
    return total


# ---- executing one plan in a process of its own ------------------------------------------------

def isolated(plan, timeout=120):
    """Returns the list of (sig, msg) of a plan, ['died', ...] if the process did not survive it."""
    base = tempfile.mkdtemp(prefix='verif-')
    try:
        out = os.path.join(base, 'out.json')

        def child():
            limits()
            scratch = os.path.join(base, 's')
            os.mkdir(scratch)
            try:
                vs, runs = judge(plan, scratch)
                res = {'v': [[signature(v), v.msg, v.opi] for v in vs], 'digest': [r.w.digest() for r in runs]}
            except Exception:
                res = {'error': traceback.format_exc()}
            with open(out, 'w') as f:
                json.dump(res, f)
        pid = fork(child)
        t0 = _clock()
        while True:
            p, status = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            if _clock() - t0 > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return {'error': 'killed after %g s' % timeout}
            _sleep(0.0005)
        if os.path.exists(out):
            with open(out) as f:
                return json.load(f)
        return {'died': status}
    finally:
        shutil.rmtree(base, ignore_errors=True)


def has(res, sig):
    return sig in [s for s, _, _ in res.get('v', ())]


# ---- minimising ---------------------------------------------------------------------------------

TABLES = ('f', 'c', 's', 'r', 'x', 'h', 'o')


def smaller(plan):
    """Candidate simplifications of a plan, most drastic first."""
    ops = plan['ops']
    n = len(ops)
    size = n
    while size >= 1:
        for a in range(0, n, size):
            q = dict(plan)
            q['ops'] = ops[:a] + ops[a + size:]
            if len(q['ops']) < n and q['ops']:
                yield q
        size //= 2
    for i, op in enumerate(ops):
        for t in TABLES:
            if t in op:
                for k in sorted(op[t]):
                    new = copy.deepcopy(op)
                    del new[t][k]
                    if not new[t]:
                        del new[t]
                    yield _with(plan, i, new)
                if t == 'f':
                    for k in sorted(op[t]):
                        for key in sorted(op[t][k]):
                            if key in ('seg', 'gap', 'delay', 'mut', 'poke'):
                                new = copy.deepcopy(op)
                                del new[t][k][key]
                                yield _with(plan, i, new)
        for key in ('intr', 'jmp', 'max_count', 'fc', 'tr', 'pathlist', 'odd', 'rst'):
            if key in op:
                new = dict(op)
                del new[key]
                yield _with(plan, i, new)
        if op.get('api') == 'client':
            yield _with(plan, i, dict(op, api='modbus'))
        if isinstance(op.get('count'), int):
            for c in (1, 2, op['count'] // 2, op['count'] - 1):
                if 0 < c < op['count']:
                    yield _with(plan, i, dict(op, count=c))
        if isinstance(op.get('addr'), int) and op['addr'] > 0:
            yield _with(plan, i, dict(op, addr=0))
    cfg = plan['cfg']
    for key in ('max_send', 'coalesce', 'chunk', 'gap'):
        if key in cfg:
            c = dict(cfg)
            del c[key]
            yield dict(plan, cfg=c)
    for table in ('tcp', 'bus'):
        for si, s in enumerate(cfg.get(table, ())):
            for u in sorted(s['units']):
                for key in ('holes', 'readonly'):
                    if key in s['units'][u]:
                        c = copy.deepcopy(cfg)
                        del c[table][si]['units'][u][key]
                        yield dict(plan, cfg=c)
    from . import workloads
    for q in workloads.shrinks(plan):
        yield q


def _with(plan, i, op):
    q = dict(plan)
    q['ops'] = plan['ops'][:i] + [op] + plan['ops'][i + 1:]
    return q


def minimise(plan, sig, budget=float(os.environ.get('VERIF_SHRINK', '60'))):
    t0 = _clock()
    tried = 0
    os.environ['VERIF_CPU_LIMIT'] = '4'
    try:
        again = True
        while again and _clock() - t0 < budget:
            again = False
            for q in smaller(plan):
                if _clock() - t0 > budget:
                    break
                tried += 1
                if has(isolated(q, 30), sig):
                    plan = q
                    again = True
                    break
    finally:
        os.environ.pop('VERIF_CPU_LIMIT', None)
    return plan, tried


# ---- checks -----------------------------------------------------------------------------------------

def run_replay(path):
    """Replay in a fresh interpreter; returns (exit code, output)."""
    p = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), '--replay', path], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=200, env=dict(os.environ, PYTHONHASHSEED='0'))
    return p.returncode, p.stdout.decode(errors='replace')


def replay(path):
    from . import env
    env.preload()
    with open(path) as f:
        doc = json.load(f)
    plan = doc['plan']
    res = isolated(plan, 180)
    print('replaying %s (seed %s, %d operations)' % (path, plan.get('seed'), len(plan['ops'])))
    if 'died' in res:
        res = {'v': [['%s[process_died]' % plan['prop'], 'the process running the code under test died (status %s)' % res['died'], None]]}
    if 'error' in res:
        print(res['error'])
        return 2
    code = 0
    for sig, msg, opi in res['v']:
        print('  %s op %s: %s' % (sig, opi, msg))
        if sig == doc['violation']:
            code = 1
    if code:
        if doc.get('digest') and res.get('digest') and doc['digest'] != res['digest']:
            print('same violation, but the event log differs from the recorded one')
        print('VIOLATION property=%s replay=%s' % (plan['prop'], path))
    else:
        print('not reproduced')
    return code


def report(prop, seed, i, sig, msg, plan, tried):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s-%s-%d.json' % (prop, seed, i))
    res = isolated(plan, 120)
    final = [m for s, m, _ in res.get('v', ()) if s == sig]
    doc = {'property': prop, 'violation': sig, 'message': final[0] if final else msg, 'seed': plan['seed'], 'digest': res.get('digest'),
           'shrink_attempts': tried, 'plan': plan}
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
    return path, doc['message']


COMPONENTS = {
    'real': ['all of sunspec/ (fresh modules per run, from the working tree)', 'ssl.SSLContext configuration and certificate loading',
             'xml.etree, zipfile, struct, datetime arithmetic'],
    'simulated': ['socket.socket and the network', 'Modbus/TCP servers', 'serial.Serial, the RS-485 line and its units', 'TLS handshake',
                  'time.time/sleep/monotonic, datetime.now', 'failures of open() and read() on definition and map files'],
}


def check(prop, tier, seed, count, budget, rule, workers=None):
    workers = workers or WORKERS
    t0 = _clock()
    total = search(prop, seed, count, budget, workers)
    code = 0
    violations = 0
    for kf in total['known']:
        print('KNOWN-FINDING: property=%s %s' % (prop, kf['what']))
    if total['found']:
        total['found'].sort()
        i, p, sig, msg = total['found'][0]
        sigs = sorted(set(f[2] for f in total['found']))
        violations = len(total['found'])
        plan = make_plan(prop, seed, i)
        full = '%s[%s]' % (p, sig)
        print('violation in run %d (seed %s): %s: %s' % (i, plan['seed'], full, msg))
        res = isolated(plan)
        if not has(res, full):
            print('the violation did not repeat in a process of its own: %s' % json.dumps(res)[:2000])
            code = 2
        else:
            small, tried = minimise(plan, full)
            path, msg = report(prop, seed, i, full, msg, small, tried)
            print('minimised to %d operations in %d attempts: %s' % (len(small['ops']), tried, msg))
            for op in small['ops']:
                print('   ', json.dumps(op))
            rc, out = run_replay(path)
            if rc != 1:
                path, msg = report(prop, seed, i, full, msg, plan, 0)
                rc, out = run_replay(path)
            if rc == 1:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                code = 1
            else:
                print('replay in a fresh process gave exit code %d:\n%s' % (rc, out))
                code = 2
    elif total['died']:
        for i in total['died']:
            if i is None:
                code = 2
                continue
            plan = make_plan(prop, seed, i)
            res = isolated(plan)
            if 'died' in res:
                violations += 1
                full = '%s[process_died]' % prop
                path, msg = report(prop, seed, i, full, 'the process running the code under test died', plan, 0)
                print('VIOLATION property=%s replay=%s' % (prop, path))
                code = 1
                break
            print('worker died in run %d; alone it gave %s' % (i, json.dumps(res)[:1000]))
            code = 2
    elif total['errors']:
        for i, tb in total['errors'][:3]:
            print('error of the harness in run %d:\n%s' % (i, tb))
        code = 2
    wall = _clock() - t0
    h = hashlib.sha256(json.dumps(sorted((int(k), v) for k, v in total['digest'].items())).encode()).hexdigest()
    ev = {
        'property': prop, 'tier': tier, 'seed': int(seed), 'level': 'exploration', 'wall_s': round(wall, 2), 'violations': violations,
        'coverage': {
            'evaluations': total['evaluations'],
            'distinct_nontrivial': len(total['signatures']),
            'rule': rule,
            'samples': total['samples'][:3] or [{'seed': '%s:%s:0' % (seed, prop)}],
            'runs_per_hour': int(total['evaluations'] / max(total['wall'], 1e-3) * 3600),
            'seeds_per_hour': int(total['evaluations'] / max(total['wall'], 1e-3) * 3600),
            'simulated_seconds': round(total['sim_s'], 1),
            'simulated_events': total['events'],
            'operations': dict(sorted(total['ops'].items())),
            'operation_outcomes': dict(sorted(total['outcomes'].items())),
            'device_exchanges': total['requests'],
            'faults_fired': dict(sorted(total['fired'].items())),
            'rare_conditions_reached': dict(sorted(total['probes'].items())),
            'distinct_interleavings': len(total['interleavings']),
            'interleaving_measure': 'hash of the order of operations, exchanges, connection and port events and faults in a run',
            'components': COMPONENTS,
            'log_digest': h,
            'workers': workers,
        },
        'assumptions': [
            'the simulated sockets, serial ports, clocks and devices behave like the real ones in the respects the code depends on',
            'sampling: a clean run is evidence for the schedules and faults executed, not a proof'],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', '%s.json' % prop)
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.rename(p + '.tmp', p)
    print('%s %s: %d runs, %d distinct, %d exchanges, %.0f simulated s, %.1f s, log %s, exit %d' % (
        prop, tier, total['evaluations'], len(total['signatures']), total['requests'], total['sim_s'], wall, h[:12], code))
    return code
