"""Check driver: jobs in forked processes, obligation accounting, evidence, violation reports."""
import os, sys, time, json, pickle, traceback, struct, select, signal, resource
from . import terms as T, build
from .terms import Unsupported
from .exec import Machine, Dead
ROOT = build.ROOT

class Rec:
    """what one job established"""
    def __init__(self, name):
        self.name = name
        self.obl = {}          # (obligation class, back end) -> [total, discharged]
        self.bad = []          # (obligation, detail)
        self.fns = set()
        self.notes = {}
        self.contracts = []
        self.assumed = []
        self.dropped = []
        self.s = 0
    def ok(self, what, n=1, by='normalizer'):
        e = self.obl.setdefault((what, by), [0, 0]); e[0] += n; e[1] += n
    def fail(self, what, detail, n=1, by='normalizer'):
        e = self.obl.setdefault((what, by), [0, 0]); e[0] += n
        self.bad.append((what, str(detail)[:700]))
    def req(self, cond, what, detail='', by='normalizer', n=1):
        if cond: self.ok(what, n, by)
        else: self.fail(what, detail or what, n, by)
    def eq(self, what, got, want, by='normalizer'):
        """one obligation per value"""
        if len(got) != len(want): self.fail(what, 'length %d, specified %d' % (len(got), len(want)), max(len(want), 1)); return False
        bad = []
        for i, (a, b) in enumerate(zip(got, want)):
            if a is None: bad.append(i); continue
            if a is b or (a.__class__ is int and b.__class__ is int and a == b): continue
            if T.equal(a, b) is not True: bad.append(i)
        self.ok(what, len(want) - len(bad), by)
        if bad:
            i = bad[0]
            self.fail(what, 'values %s differ from the specification; first: %s  specified: %s' % (
                _ranges(bad), 'undefined' if got[i] is None else T.show(got[i], 4)[:200], T.show(want[i], 4)[:200]), len(bad), by)
        return not bad
    def machine(self, M, what, expect_ok=True):
        """safety obligations met while running the body"""
        for f in M.fns: self.fns.add(f.short)
        sites = sum(f.nsites() for f in M.fns)
        self.notes.setdefault('panic/UB edges in executed functions', 0)
        self.notes['panic/UB edges in executed functions'] = max(sites, self.notes['panic/UB edges in executed functions'])
        self.notes['IR steps'] = self.notes.get('IR steps', 0) + M.steps
        for k, v in M.obl.items(): self.ok('%s: %s' % (what, k), v, 'enumeration')
        if M.failures:
            self.fail(what + ': no panic, overflow, undefined behaviour', '; '.join(repr(f) for f in M.failures[:3]), len(M.failures))
        else:
            self.ok(what + ': no panic, overflow, undefined behaviour')
        return not M.failures
    def ctx(self, ctx):
        self.contracts = [p['contract'] for p in ctx.proved]
        self.fns |= ctx.contract_fns
        self.assumed = list(ctx.assumed); self.dropped = list(ctx.dropped)
    def __getstate__(self):
        return dict(self.__dict__)

def _ranges(xs):
    out = []; s = p = xs[0]
    for x in xs[1:] + [None]:
        if x is not None and x == p + 1: p = x; continue
        out.append(str(s) if s == p else '%d-%d' % (s, p)); s = p = x
    return ','.join(out[:6]) + ('..' if len(out) > 6 else '')

def run_jobs(jobs, ncpu=8, timeout=520):
    """jobs: [(name, thunk(rec))] -> [Rec]; each in a forked child"""
    pending = list(enumerate(jobs)); running = {}; out = {}
    t_end = time.time() + timeout
    sys.stdout.flush()
    while pending or running:
        while pending and len(running) < ncpu:
            i, (name, th) = pending.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                rec = Rec(name)
                t = time.time()
                try:
                    th(rec)
                except (Unsupported, Dead, RecursionError) as e:
                    rec.fail(name + ': obligation generation', 'could not be decided: %s: %s' % (type(e).__name__, str(e)[:400]))
                except BaseException as e:
                    rec.fail(name + ': obligation generation', 'verifier error: %s' % traceback.format_exc()[-900:])
                    rec.notes['internal error'] = 1
                rec.s = round(time.time() - t, 2)
                st = dict(T.stats); rec.notes['enumeration evaluations'] = st['enum_evals']; rec.notes['enumeration seconds'] = round(st['enum_s'], 2)
                rec.notes['peak MB'] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
                data = pickle.dumps(rec)
                with os.fdopen(w, 'wb') as f: f.write(data)
                os._exit(0)
            os.close(w)
            running[r] = [i, name, pid, b'']
        rl, _, _ = select.select(list(running), [], [], 1.0)
        for fd in rl:
            d = os.read(fd, 1 << 20)
            e = running[fd]
            if d: e[3] += d; continue
            os.close(fd); os.waitpid(e[2], 0)
            try: out[e[0]] = pickle.loads(e[3])
            except Exception:
                rec = Rec(e[1]); rec.fail(e[1] + ': obligation generation', 'verifier process ended without a result'); out[e[0]] = rec
            del running[fd]
        if time.time() > t_end:
            for fd, e in running.items():
                os.kill(e[2], signal.SIGKILL); os.waitpid(e[2], 0); os.close(fd)
                rec = Rec(e[1]); rec.fail(e[1] + ': obligation generation', 'time limit'); out[e[0]] = rec
            running = {}
            for i, (name, th) in pending:
                rec = Rec(name); rec.fail(name + ': obligation generation', 'time limit'); out[i] = rec
            pending = []
    return [out[i] for i in range(len(jobs))]

def known_findings(prop):
    p = os.path.join(ROOT, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:') and ('property=%s ' % prop) in l: out.append(l)
    return out

class Check:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.recs = []
        self.assumptions = []
        self.trusted = ['rustc front end and MIR->LLVM lowering (the verified text is the LLVM IR rustc emits for the crates in /repo)',
                        'kemvc IR semantics and term normalizer (cross-checked on every run: symbolic results evaluated and compared with natively executed code)']
        self.hunters = []
        self.extra = {}
    def jobs(self, jobs, **kw):
        from . import contracts
        jobs = list(jobs) + contracts.EXTRA_JOBS; contracts.EXTRA_JOBS = []
        rs = run_jobs(jobs, **kw)
        self.recs += rs
        return rs
    def rec(self, name):
        r = Rec(name); self.recs.append(r); return r
    def bad(self): return [(r.name, w, d) for r in self.recs for (w, d) in r.bad]
    def finish(self, hunt=None):
        bad = self.bad()
        tot = dis = 0; by = {}; classes = {}
        fns = set(); contracts = []; assumed = []; dropped = []; notes = {}
        for r in self.recs:
            fns |= r.fns
            for (w, b), (t, d) in r.obl.items():
                tot += t; dis += d
                e = by.setdefault(b, [0, 0]); e[0] += t; e[1] += d
                e = classes.setdefault(w, [0, 0]); e[0] += t; e[1] += d
            for c in r.contracts:
                if c not in contracts: contracts.append(c)
            for c in r.assumed:
                if c not in assumed: assumed.append(c)
            for c in r.dropped:
                if c not in dropped: dropped.append(c)
            for k, v in r.notes.items():
                notes[k] = max(notes.get(k, 0), v) if k.startswith(('panic', 'peak')) else notes.get(k, 0) + v
        if tot == 0 and not bad:
            bad = [('driver', 'vacuity guard', 'no obligation was generated')]
        repo_fns = sorted(f for f in fns if 'ml_kem' in f or 'x_wing' in f or 'dhkem' in f)
        cov = {'obligations': tot, 'discharged': dis, 'by_back_end': {k: {'generated': v[0], 'discharged': v[1]} for k, v in by.items()},
               'obligation_classes': {k: {'generated': v[0], 'discharged': v[1]} for k, v in list(classes.items())[:120]},
               'functions_verified': len(fns), 'repo_functions_verified': len(repo_fns), 'repo_functions': repo_fns[:200],
               'functions_under_contract': contracts, 'contracts_not_applied': [list(x) for x in dropped],
               'jobs': [{'job': r.name, 's': r.s, 'bad': len(r.bad)} for r in self.recs],
               'checker_cmd': 'python3-vt /verif/check.py %s %s' % (self.prop, self.tier),
               'trusted_base': self.trusted, 'measures': notes}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'proof', 'coverage': cov,
              'assumptions': assumed + self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': 1 if bad else 0}
        rc = 0
        for l in known_findings(self.prop):
            print('KNOWN-FINDING: ' + l[len('finding:'):].strip())
        inp = None
        if not bad and hunt is not None and self.tier == 'thorough':
            # bounded complement, never counted as proved: the optimised native build against the concrete reference on
            # the inputs a failed obligation would be hunted with (covers code generation, which the proof trusts)
            t1 = time.time(); inp = hunt([])
            cov['native_search'] = {'seconds': round(time.time() - t1, 1), 'disagreements': 1 if inp else 0, 'label': 'bounded, sampling; not part of the proof'}
            if inp: bad = [('native search', 'optimised native code = reference', 'disagreement although every obligation was discharged')]
        if bad:
            if hunt is not None and inp is None:
                try: inp = hunt(bad)
                except Exception: self.extra['hunt_error'] = traceback.format_exc()[-600:]
            d = os.path.join(build.BUILD, 'replay'); os.makedirs(d, exist_ok=True)
            path = os.path.join(d, self.prop + '.json')
            json.dump({'property': self.prop, 'failed_obligations': [{'job': a, 'obligation': w, 'verifier_output': x} for a, w, x in bad[:60]],
                       'contracts_not_applied': [list(x) for x in dropped],
                       'failing_input': inp, 'replay_cmd': 'python3-vt /verif/replay.py ' + path,
                       'hunt_error': self.extra.get('hunt_error')}, open(path, 'w'), indent=1)
            for a, w, x in bad[:6]: print('UNDISCHARGED %s | %s | %s' % (a, w, x.replace('\n', ' ')[:260]))
            for n, why in dropped[:4]: print('CONTRACT-NOT-APPLIED %s | %s' % (n, why.replace('\n', ' ')[:200]))
            if inp: print('FAILING-INPUT %s' % json.dumps(inp)[:400])
            print('VIOLATION property=%s replay=%s%s' % (self.prop, path, '' if inp else ' no-failing-input-found'))
            rc = 1
        ev['wall_s'] = round(time.time() - self.t0, 2)
        ev['violations'] = 1 if rc else 0
        if rc: ev['coverage']['failed'] = [{'job': a, 'obligation': w} for a, w, x in bad[:40]]
        ed = os.path.join(ROOT, 'evidence'); os.makedirs(ed, exist_ok=True)
        json.dump(ev, open(os.path.join(ed, self.prop + '.json'), 'w'), indent=1)
        print('%s %s: %d obligations, %d discharged, %d functions (%d of /repo), %d contracts, %.1f s' % (
            self.prop, 'FAILED' if rc else 'ok', tot, dis, len(fns), len(repo_fns), len(contracts), time.time() - self.t0))
        return rc
