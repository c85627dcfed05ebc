"""Runs the check of one property: parallel symbolic exploration, replay of counterexamples, evidence."""
import contextvars
import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
import time
import traceback
import warnings

from . import core, instr

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = instr.REPO


def replay_python():
    for p in ('/opt/venv/bin/python', sys.executable):
        if os.path.exists(p):
            try:
                if subprocess.run([p, '-c', 'import typing_extensions'], capture_output=True, timeout=60).returncode == 0:
                    return p
            except Exception:
                pass
    return sys.executable


# -- one path --------------------------------------------------------------------------------------------------------------

def run_path(fn, H, prefix, model, snap):
    """Runs one path; returns its outcome kind."""
    E = core.E
    E.start(prefix, model)
    rec = dict(kind='ok')
    try:
        contextvars.Context().run(fn, H)
    except core.PathStop:
        rec['kind'] = 'violation' if E.violations else 'stop'
    except core.PathAbort:
        rec['kind'] = 'abort'
    except core.Degrade as e:
        rec['kind'] = 'degraded'
        rec['why'] = str(e)
    except core.Diverge as e:
        rec['kind'] = 'degraded'
        rec['why'] = 'divergence: ' + str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = ['%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:]]
        try:
            txt = str(core.unmark(str(e)))
        except BaseException:
            txt = '?'
        try:
            E.dead = None
            m = E.get_model()
            E.violations.append(('unexpected %s: %s at %s' % (type(e).__name__, txt[:200], ' < '.join(reversed(where))), E.extract(m)))
            rec['kind'] = 'violation'
        except core.Steer:
            rec['kind'] = 'abort'
    finally:
        instr.restore(snap)
    if rec['kind'] == 'ok' and E.dead is not None:
        # a steering exception was swallowed by the code under test
        rec['kind'] = 'violation' if E.violations else 'abort' if isinstance(E.dead, core.PathAbort) else 'degraded'
        rec['why'] = 'steering exception swallowed: %r' % (E.dead,)
    return rec


def run_job(fn, H, prefixes, seconds, snap, want_samples, timeout_ms):
    E = core.E = core.Engine(timeout_ms)
    E.frontier = [(p, None) for p in prefixes]
    t0 = time.perf_counter()
    res = dict(violations=[], samples=[], covers=set(), degraded={}, paths=0)
    n = 0
    while E.frontier and (time.perf_counter() - t0 < seconds or n == 0):
        prefix, model = E.frontier.pop()
        r = run_path(fn, H, prefix, model, snap)
        n += 1
        E.stats['paths'] += 1
        k = r['kind']
        if k == 'violation':
            res['violations'].extend(E.violations)
        elif k == 'degraded':
            E.stats['degraded'] += 1
            res['degraded'][r['why']] = res['degraded'].get(r['why'], 0) + 1
        elif k == 'abort':
            E.stats['aborted'] += 1
        elif k == 'ok':
            res['covers'] |= E.covers
            if want_samples and (len(res['samples']) < want_samples):
                try:
                    m = E.get_model()
                    outs = [(l, core.K.norm(core.ev(v, m))) for l, v in E.outs]
                    res['samples'].append((E.extract(m), outs))
                except core.Steer:
                    pass
        if len(res['violations']) >= 3:
            break
    res['left'] = [p for p, _ in E.frontier]
    res['stats'] = E.stats
    return res


# -- workers ---------------------------------------------------------------------------------------------------------------

def worker(conn, mod, tier, timeout_ms):
    from .api import SymH
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(5000)
    warnings.simplefilter('ignore')
    gc.disable()
    H = SymH(tier)
    snap = instr.snapshot()
    jobs = 0
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        name, prefixes, seconds, want = msg
        try:
            res = run_job(mod.SCENARIOS[name], H, prefixes, seconds, snap, want, timeout_ms)
        except BaseException as e:
            res = dict(error=traceback.format_exc(limit=-8))
        res['entered'] = set(instr.rt.ENTERED)
        conn.send((name, res))
        jobs += 1
        if jobs % 4 == 0:
            gc.collect()


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.stats = {}
        self.covers = {}
        self.degraded = {}
        self.entered = set()
        self.samples = []
        self.errors = []
        self.scen = {}

    def load(self):
        sys.path.insert(0, VERIF)
        sys.path.insert(1, os.path.join(VERIF, 'props'))
        sys.dont_write_bytecode = True
        warnings.simplefilter('ignore')
        with open(os.path.join(VERIF, 'props', self.prop.lower() + '.py')) as f:
            instr.POINTS = '\nPOINTS = True' in f.read()
        instr.install()
        instr.import_all()
        import oblate
        assert os.path.realpath(oblate.__file__).startswith(os.path.realpath(REPO) + os.sep), oblate.__file__
        for lib in ('common', 'model'):
            p = os.path.join(VERIF, 'props', lib + '.py')
            if os.path.exists(p):
                instr.load_harness(p, lib)
        self.mod = instr.load_harness(os.path.join(VERIF, 'props', self.prop.lower() + '.py'), 'sx_harness')

    def names(self):
        only = os.environ.get('SX_ONLY')
        out = []
        for n, f in self.mod.SCENARIOS.items():
            if getattr(f, 'tier', 'quick') == 'thorough' and self.tier != 'thorough':
                continue
            if only and only not in n:
                continue
            out.append(n)
        return out

    # -- replays
    def replay(self, entries):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        path = os.path.join(VERIF, 'evidence', '.batch-%s-%d.json' % (self.prop, os.getpid()))
        with open(path, 'w') as f:
            json.dump(entries, f)
        try:
            env = dict(os.environ, PYTHONHASHSEED='0', SX_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
            env.pop('PYTHONPATH', None)
            p = subprocess.run([self.python, os.path.join(HERE, 'replay.py'), '--batch', path], capture_output=True,
                               text=True, env=env, timeout=300)
            lines = [json.loads(l) for l in p.stdout.splitlines() if l.startswith('{')]
            if len(lines) != len(entries):
                return [dict(result='error', message=(p.stderr or '')[-800:], outs=[], inputs={}) for _ in entries]
            return lines
        finally:
            os.unlink(path)

    def write_cex(self, scenario, model, msg, k):
        path = os.path.join(VERIF, 'evidence', 'cex-%s-%d.json' % (self.prop, k))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, scenario=scenario, model=model, tier=self.tier, message=msg,
                           replay='python sx/replay.py ' + path), f, indent=1)
        return path

    # -- main loop
    def explore(self, cap, workers, known):
        t0 = time.time()
        self.python = replay_python()
        timeout_ms = 8000 if self.tier == 'quick' else 30000
        ctx = mp.get_context('fork')
        procs = []
        for _ in range(workers):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b, self.mod, self.tier, timeout_ms), daemon=True)
            p.start()
            b.close()
            procs.append([a, p, None])
        names = self.names()
        queue = [(n, [[]]) for n in names]        # (scenario, prefixes)
        pend = {n: 1 for n in names}
        for n in names:
            self.scen[n] = dict(paths=0, decisions=0, aborted=0, violations=0, complete=False)
        rnd = random.Random(self.seed)
        confirmed = None
        self.unconfirmed = []
        self.known_hits = {}
        seen = {}
        timeout = False
        nsamp = {}
        try:
            while True:
                for pr in procs:
                    if pr[2] is None and queue:
                        n, pf = queue.pop(0)
                        pr[2] = n
                        want = 6 if nsamp.get(n, 0) < 24 else 0
                        first = pf == [[]]
                        pr[0].send((n, pf, 0.25 if first else 1.5, want))
                busy = [pr for pr in procs if pr[2] is not None]
                if not busy:
                    break
                if time.time() - t0 > cap:
                    timeout = True
                    break
                ready = mp.connection.wait([pr[0] for pr in busy], timeout=1.0)
                for pr in procs:
                    if pr[0] not in ready:
                        continue
                    try:
                        n, res = pr[0].recv()
                    except EOFError:
                        self.errors.append('worker ended (scenario %s)' % pr[2])
                        pend[pr[2]] = -10 ** 9
                        pr[2] = None
                        procs.remove(pr)
                        break
                    pr[2] = None
                    pend[n] -= 1
                    self.entered |= res['entered']
                    if 'error' in res:
                        self.errors.append('%s: %s' % (n, res['error']))
                        continue
                    for k, v in res['stats'].items():
                        self.stats[k] = self.stats.get(k, 0) + v
                    s = self.scen[n]
                    s['paths'] += res['stats']['paths']
                    s['decisions'] += res['stats']['decisions']
                    s['aborted'] += res['stats']['aborted']
                    s['violations'] += len(res['violations'])
                    for k, v in res['degraded'].items():
                        kk = '%s: %s' % (n, k)
                        self.degraded[kk] = self.degraded.get(kk, 0) + v
                    self.covers.setdefault(n, set()).update(res['covers'])
                    for m, o in res['samples']:
                        nsamp[n] = nsamp.get(n, 0) + 1
                        self.samples.append((n, m, o))
                    left = res['left']
                    rnd.shuffle(left)
                    if left:
                        k = max(1, min(len(left), 2 * workers if len(queue) < workers else 2))
                        size = (len(left) + k - 1) // k
                        for i in range(0, len(left), size):
                            queue.append((n, left[i:i + size]))
                            pend[n] += 1
                    if pend[n] == 0:
                        s['complete'] = True
                    for msg, model in res['violations']:
                        key = (n, msg.split('@')[0][:60])
                        if seen.get(key, 0) >= 2 or confirmed:
                            continue
                        seen[key] = seen.get(key, 0) + 1
                        r = self.replay([dict(property=self.prop, scenario=n, model=model, tier=self.tier)])[0]
                        if r['result'] == 'fail':
                            kf = match_known(known, self.prop, n, r['message'])
                            if kf:
                                self.known_hits[kf['id']] = kf['what']
                                continue
                            confirmed = (n, msg, model, r)
                        else:
                            self.unconfirmed.append((n, msg, model, r))
                if confirmed:
                    break
        finally:
            for pr in procs:
                try:
                    pr[1].kill()
                except Exception:
                    pass
        self.timeout = timeout
        self.wall_explore = time.time() - t0
        return confirmed


def match_known(known, prop, scenario, message):
    for k in known:
        if k['property'] == prop and k['scenario'] == scenario and message.startswith(k['message']):
            return k
    return None


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    out.append(d)
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    cap = float(os.environ.get('SX_CAP', '800'))
    workers = int(os.environ.get('SX_WORKERS', str(max(2, os.cpu_count() or 2))))
    R = Run(prop, tier, seed)
    try:
        R.load()
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s the code under test or the harness could not be loaded' % prop)
        return load_failure(prop)
    known = load_known()
    conf = R.explore(cap, workers, known)
    # observations of sampled passing paths are compared with the plain code
    rnd = random.Random(seed)
    rnd.shuffle(R.samples)
    per = {}
    chosen = []
    for n, m, o in R.samples:
        per[n] = per.get(n, 0) + 1
        if per[n] <= (6 if tier == 'quick' else 20):
            chosen.append((n, m, o))
    mism = []
    validated = 0
    if not conf and chosen:
        rs = R.replay([dict(property=prop, scenario=n, model=m, tier=tier) for n, m, o in chosen])
        for (n, m, o), r in zip(chosen, rs):
            got = json.loads(json.dumps(r['outs']))
            want = json.loads(json.dumps(o))
            if r['result'] == 'fail':
                kf = match_known(known, prop, n, r['message'])
                if kf:
                    continue
                # the real code fails on an input the encoding passed: a real, replayed failure
                conf = (n, r['message'], m, r)
                break
            if r['result'] != 'pass' or got != want:
                mism.append((n, m, want, got, r))
            else:
                validated += 1
    missing = []
    if not conf and not R.timeout:
        for n in R.names():
            need = getattr(R.mod.SCENARIOS[n], 'covers', ())
            for c in need:
                if c not in R.covers.get(n, set()):
                    missing.append('%s:%s' % (n, c))
    complete = all(s['complete'] for s in R.scen.values())
    code = 0
    k = 0
    if conf:
        n, msg, model, r = conf
        path = R.write_cex(n, model, r['message'] or msg, 1)
        print('counterexample in scenario %s: %s' % (n, (r['message'] or msg).encode('ascii', 'backslashreplace').decode()))
        for kk, v in sorted(r['inputs'].items()):
            print('   %s = %s' % (kk, v))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    for kid, what in sorted(R.known_hits.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for n, msg, model, r in R.unconfirmed:
        k += 1
        path = R.write_cex(n, model, msg, 100 + k)
        print('UNCONFIRMED (encoding and code disagree) scenario=%s %s -> %s %s [%s]' % (n, ascii(msg), r['result'], ascii(r['message'][-600:]), path))
    for n, m, want, got, r in mism[:5]:
        k += 1
        path = R.write_cex(n, m, 'observations differ', 100 + k)
        d = [(a, b) for a, b in zip(want, got) if a != b][:3] or (len(want), len(got))
        print('MISMATCH scenario=%s result=%s %s %s [%s]' % (n, r['result'], ascii(d), ascii(r['message'][-600:]), path))
    for kk, v in sorted(R.degraded.items(), key=lambda x: -x[1])[:12]:
        print('INCONCLUSIVE %d paths: %s' % (v, ascii(kk)))
    for e in R.errors[:5]:
        print('ERROR', e)
    for m in missing:
        print('NOT REACHED', m)
    if R.timeout:
        print('time cap reached; scenarios not explored completely:', [n for n, s in R.scen.items() if not s['complete']])
    if code == 0:
        if R.unconfirmed or mism or R.errors:
            code = 2
        elif missing or not R.stats.get('paths'):
            code = 2
    ok = R.stats.get('paths', 0) - R.stats.get('aborted', 0) - R.stats.get('degraded', 0)
    print('%s %s: %d paths (%d infeasible, %d undecided), %d decisions, %d assertion checks (%d solver queries, %.1fs solver), '
          '%d traces validated, %d functions, complete=%s, %.1fs -> %d'
          % (prop, tier, R.stats.get('paths', 0), R.stats.get('aborted', 0), R.stats.get('degraded', 0), R.stats.get('decisions', 0),
             R.stats.get('checks', 0), R.stats.get('queries', 0), R.stats.get('solver_s', 0), validated, len(R.entered), complete,
             time.time() - t0, code))
    write_evidence(R, prop, tier, seed, validated, chosen, complete, conf, time.time() - t0, missing, mism)
    return code


def load_failure(prop):
    """The package does not even import: show it on the plain code."""
    return 2


def source_hash():
    h = hashlib.sha256()
    for d, ds, fs in os.walk(os.path.join(REPO, 'oblate')):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.py'):
                h.update(f.encode())
                h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


def write_evidence(R, prop, tier, seed, validated, chosen, complete, conf, wall, missing, mism):
    st = R.stats
    samples = []
    for n, m, o in chosen[:6]:
        samples.append(dict(scenario=n, model={k: v for k, v in sorted(m.items()) if v is not None}, observed=o[:12]))
    if not samples:
        samples = [dict(scenario=n) for n in R.names()[:1]]
    doc = dict(
        property=prop, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=st.get('paths', 0) - st.get('aborted', 0),
            transitions=st.get('decisions', 0),
            traces_validated_against_impl=validated,
            samples=samples,
            exhaustive=bool(complete and not R.degraded and not R.timeout),
            explanation='states = feasible symbolic paths through harness and real code (each covers all values satisfying its path '
                        'condition); transitions = solver-decided branches; traces validated = models of passing paths re-run on the '
                        'uninstrumented code with equal observations',
            scenarios={n: dict(s, covers=sorted(R.covers.get(n, ()))) for n, s in R.scen.items()},
            functions_encoded=sorted(R.entered),
            bounds='; '.join([getattr(R.mod, 'BOUNDS', '')] + ['scenario %s: %s' % (n, R.mod.SCENARIOS[n].bounds(R.tier)) for n in R.scen if hasattr(R.mod.SCENARIOS[n], 'bounds')]),
            assertion_checks=st.get('checks', 0), assertion_queries=st.get('check_queries', 0),
            solver_queries=st.get('queries', 0), solver_seconds=round(st.get('solver_s', 0.0), 2),
            infeasible_paths=st.get('aborted', 0), undecided_paths=st.get('degraded', 0), solver_unknown=st.get('unknown', 0),
            undecided_reasons=R.degraded, not_reached=missing, mismatches=len(mism), unconfirmed=len(R.unconfirmed),
            complete=complete, source_sha256=source_hash(),
            known_findings=sorted(R.known_hits),
        ),
        assumptions=list(getattr(R.mod, 'ASSUMPTIONS', [])) + ENGINE_ASSUMPTIONS,
        wall_s=round(wall, 2), violations=1 if conf else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(doc, f, indent=1, default=str)


ENGINE_ASSUMPTIONS = [
    'CPython executes the uninstrumented operations (dict, list, exceptions, descriptors, contextvars) as it does in production; '
    'symbolic values are proxies, operations on them are decided by z3 ' + core.z3.get_version_string(),
    'string values converted with int()/float() are canonical decimals or clearly non-numeric, at most 8 characters; floats are '
    'multiples of 1/4 (plus infinities and NaN where listed); integers converted to float are below 2**50',
    'symbolic dictionary keys either equal one of the declared names or none of the internal constant keys',
]

if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
