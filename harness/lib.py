"""Common machinery: TLC driver, trace validation, behaviour generation, evidence and verdicts.

Every check is decided by TLC evaluating a module of /verif/spec:
  * model_check  : TLC explores the design model of a module with small constants (invariants of the spec itself)
  * validate     : traces recorded from the real code are folded by TLC through the spec operators; a total verdict
                   (ACCEPT, or REJECT with the failing clauses) is printed per trace
  * generate     : TLC enumerates behaviours of the model; the caller replays them into the real code
"""
import json
import math
import multiprocessing
import os
import pickle
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
JAR = '/opt/veriftools/tla/tla2tools.jar'

NAN = 2000000001      # encodes nan / not representable on the exact grid / wrong type
PINF = 2000000002
NINF = -2000000002


class MachineryError(Exception):
    """Something of ours (not of the code under test) does not work."""


_CP = None


def _classpath():
    global _CP
    if _CP is None:
        cands = ['/opt/veriftools/tla/tla2tools.jar']
        d = '/opt/veriftools/tla'
        for f in sorted(os.listdir(d)):
            if f.endswith('.jar') and 'ommunity' in f:
                cands.append(os.path.join(d, f))
        _CP = ':'.join(cands)
    return _CP


def run_tlc(module, cfg, env=None, workers=1, extra=(), timeout=800, heap='3g'):
    """Run TLC on /verif/spec/<module>.tla with <cfg>.cfg in a private scratch directory."""
    scratch = tempfile.mkdtemp(prefix='vtlc_')
    try:
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', _classpath(), 'tlc2.TLC',
               '-metadir', os.path.join(scratch, 'meta'), '-workers', str(workers), '-nowarning', '-noGenerateSpecTE',
               '-config', os.path.join(SPEC, cfg + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired as ex:
            raise MachineryError('TLC timed out on %s/%s' % (module, cfg)) from ex
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


_STATS = re.compile(r'^([\d,]+) states generated, ([\d,]+) distinct states found', re.M)


def tlc_stats(out):
    m = None
    for m in _STATS.finditer(out):
        pass
    if m is None:
        return 0, 0
    return int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))


def model_check(module, cfg, workers=4, timeout=800, heap='6g', extra=()):
    """Check the design model. A failure here is our own specification being wrong: MachineryError."""
    rc, out = run_tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
    gen, dist = tlc_stats(out)
    if rc != 0 or 'No error has been found' not in out or dist == 0:
        raise MachineryError('model check of %s/%s failed:\n%s' % (module, cfg, out[-3000:]))
    return {'module': module, 'cfg': cfg, 'generated': gen, 'distinct': dist}


def generate(module, cfg, workers=1, timeout=800, heap='6g', extra=()):
    """TLC enumerates behaviours, printing each as  <<"BEHAVIOUR", "json">> ; returns the decoded list."""
    rc, out = run_tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra)
    gen, dist = tlc_stats(out)
    if rc != 0 or dist == 0:
        raise MachineryError('generation from %s/%s failed:\n%s' % (module, cfg, out[-3000:]))
    res = []
    for line in out.splitlines():
        if line.startswith('"BEHAVIOUR '):
            res.append(json.loads(json.loads(line)[len('BEHAVIOUR '):]))
    return res, {'module': module, 'cfg': cfg, 'generated': gen, 'distinct': dist}


_ACC = re.compile(r'^<<"ACCEPT", (\d+)>>', re.M)
_REJ = re.compile(r'^\s*<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.M)


def _validate_chunk(module, traces, base, cfgname, timeout, heap):
    scratch = tempfile.mkdtemp(prefix='vtrc_')
    try:
        path = os.path.join(scratch, 'traces.ndjson')
        with open(path, 'w') as f:
            for k, tr in enumerate(traces):
                rec = {'id': base + k, 'cfg': tr['cfg'], 'ev': tr['ev'], 'only': sorted(tr.get('only', []))}
                f.write(json.dumps(rec, separators=(',', ':')) + '\n')
        rc, out = run_tlc(module, cfgname, env={'TRACES': path}, timeout=timeout, heap=heap)
        acc = {int(x) for x in _ACC.findall(out)}
        rej = {}
        for m in _REJ.finditer(out):
            rej.setdefault(int(m.group(1)), (int(m.group(2)), re.findall(r'"([^"]*)"', m.group(3))))
        want = set(range(base, base + len(traces)))
        missing = want - acc - set(rej)
        gen, dist = tlc_stats(out)
        return acc, rej, missing, gen, dist, out
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def validate(module, traces, cfgname=None, jobs=6, chunk=None, timeout=800, heap='3g'):
    """Fold all traces through the spec. Returns (rejects, stats); rejects: list of (trace index, event no, clauses)."""
    cfgname = cfgname or 'Trace'
    if not traces:
        raise MachineryError('no traces for ' + module)
    n = len(traces)
    if chunk is None:
        tot = sum(len(t['ev']) for t in traces)
        parts = max(1, min(jobs, tot // 400, n))
        chunk = int(math.ceil(n / parts))
    chunks = [(i, traces[i:i + chunk]) for i in range(0, n, chunk)]
    rejects, acc_n, gen_n, dist_n, undecided = [], 0, 0, 0, []
    with ThreadPoolExecutor(max_workers=jobs) as ex:
        results = list(ex.map(lambda c: (c, _validate_chunk(module, c[1], c[0], cfgname, timeout, heap)), chunks))
    for (base, trs), (acc, rej, missing, gen, dist, out) in results:
        acc_n += len(acc)
        gen_n += gen
        dist_n += dist
        for k, (i, cl) in rej.items():
            rejects.append((k, i, sorted(cl)))
        if missing:
            if 'analysis failed' in out or 'Parse Error' in out or 'Semantic errors' in out or 'Could not' in out[:400]:
                raise MachineryError('spec %s does not parse:\n%s' % (module, out[-3000:]))
            # TLC stopped on a trace outside the domain of the spec operators: isolate it below
            undecided += sorted(missing)

    def alone(k):
        return None if len(rejects) >= 12 else (k, _validate_chunk(module, [traces[k]], k, cfgname, timeout, heap))
    for lo in range(0, len(undecided), jobs):
        with ThreadPoolExecutor(max_workers=jobs) as ex:
            res = [x for x in ex.map(alone, undecided[lo:lo + jobs]) if x]
        for k, (a, r, m, g, d, o) in res:
            acc_n += len(a)
            gen_n += g
            dist_n += d
            for kk, (i, cl) in r.items():
                rejects.append((kk, i, sorted(cl)))
            if m:
                if any(w in o for w in ('The exception was', 'Attempted', 'evaluating', 'Overflow', 'overflow', 'The error occurred', 'Reason:', 'argument of')):
                    rejects.append((k, 0, ['OUTSIDE_SPEC_DOMAIN']))
                    traces[k]['tlc'] = o[-1500:]
                else:
                    raise MachineryError('TLC failed on %s:\n%s' % (module, o[-3000:]))
    return sorted(rejects), {'module': module, 'traces': n, 'events': sum(len(t['ev']) for t in traces),
                             'accepted': acc_n, 'generated': gen_n, 'distinct': dist_n}


def _collect(fn, items, max_bad, budget):
    res, bad, t0 = [], 0, time.time()
    for it in items:
        tr = fn(it)
        res.append(tr)
        if any(e.get('op') in ('exc', 'raise_bad') for e in tr['ev'][-3:]):
            bad += 1
        if bad >= max_bad or time.time() - t0 > budget:
            break
    return res


def _worker(fn, items, max_bad, budget, path):
    try:
        r = ('ok', _collect(fn, items, max_bad, budget))
    except BaseException:
        r = ('err', traceback.format_exc())
    with open(path + '.part', 'wb') as f:
        pickle.dump(r, f)
    os.replace(path + '.part', path)


def collect(fn, items, max_bad=3, budget=420, jobs=6):
    """Run a driver on each item, in forked processes; stop early when the code under test keeps failing or time runs out."""
    items = list(items)
    jobs = max(1, min(jobs, len(items) // 8, os.cpu_count() or 1))
    if jobs == 1:
        return _collect(fn, items, max_bad, budget)
    d = tempfile.mkdtemp(prefix='vcol_')
    try:
        ctx = multiprocessing.get_context('fork')
        sys.stdout.flush()
        sys.stderr.flush()
        ps = [ctx.Process(target=_worker, args=(fn, items[k::jobs], max_bad, budget, os.path.join(d, str(k)))) for k in range(jobs)]
        for q in ps:
            q.start()
        out = []
        for k, q in enumerate(ps):
            q.join(budget + 240)
            if q.is_alive():
                q.kill()
                q.join()
            f = os.path.join(d, str(k))
            if not os.path.exists(f):
                raise MachineryError('driver process %d ended with code %s and no result' % (k, q.exitcode))
            r = pickle.load(open(f, 'rb'))
            if r[0] == 'err':
                raise MachineryError('driver failed:\n' + r[1])
            out.append(r[1])
        res = []
        for i in range(max(map(len, out))):
            res += [o[i] for o in out if i < len(o)]
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load_known():
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            m = re.match(r'finding:\s+property=(\S+)\s+key=(\S+)\s+(.*)', line)
            if m:
                res[(m.group(1), m.group(2))] = m.group(3)
    return res


class Check:
    """One run of one property: collects statistics and violations, writes evidence, gives the verdict."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.models, self.valid, self.gens = [], [], []
        self.states = self.transitions = self.traces = 0
        self.replayed = 0
        self.violations = []          # (key, text, payload)
        self.samples = []
        self.assumptions = []
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def elapsed(self):
        return time.time() - self.t0

    def model(self, module, cfg, **kw):
        r = model_check(module, cfg, **kw)
        self.models.append(r)
        self.states += r['distinct']
        self.transitions += r['generated']
        return r

    def generated(self, module, cfg, **kw):
        beh, r = generate(module, cfg, **kw)
        if not beh:
            raise MachineryError('no behaviour generated by %s/%s' % (module, cfg))
        self.gens.append(dict(r, behaviours=len(beh)))
        self.states += r['distinct']
        self.transitions += r['generated']
        return beh

    def replay(self, n=1):
        self.replayed += n
        self.traces += n

    def validate(self, module, traces, keyfn=None, **kw):
        """keyfn(trace, evno, clauses) -> key used against the known findings file."""
        bad = [t for t in traces if t is None]
        if bad:
            raise MachineryError('driver produced no trace')
        rejects, r = validate(module, traces, **kw)
        self.valid.append(r)
        self.states += r['distinct']
        self.transitions += r['generated']
        self.traces += r['traces']
        for k, evno, clauses in rejects:
            tr = traces[k]
            key = keyfn(tr, evno, clauses) if keyfn else None
            if key is None:
                key = tr.get('key') or '%s:%s' % (tr.get('kind', module), '+'.join(clauses))
            ev = tr['ev'][evno - 1] if 0 < evno <= len(tr['ev']) else None
            self.violation(key, '%s: event %d breaks %s in trace %s' % (module, evno, ','.join(clauses), tr.get('kind', k)),
                           {'module': module, 'event_no': evno, 'clauses': clauses, 'event': ev, 'trace': tr})
        if len(self.samples) < 6:
            t = traces[len(traces) // 2]
            self.samples.append(json.dumps({'cfg': t['cfg'], 'kind': t.get('kind'), 'ev': t['ev'][:2]})[:600])
        return rejects

    def violation(self, key, text, payload):
        self.violations.append((key, text, payload))

    def sample(self, x):
        if len(self.samples) < 10:
            self.samples.append(json.dumps(x, default=str)[:600])

    def finish(self, level='model_checking'):
        known = load_known()
        os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
        for f in os.listdir(os.path.join(EVID, 'replay')):
            if f.startswith(self.prop + '-'):
                os.remove(os.path.join(EVID, 'replay', f))
        new, seen_known = [], {}
        for key, text, payload in self.violations:
            if (self.prop, key) in known:
                seen_known[key] = known[(self.prop, key)]
            else:
                new.append((key, text, payload))
        for key, what in sorted(seen_known.items()):
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.prop, what, key))
        reported = set()
        viol = []
        for n, (key, text, payload) in enumerate(new):
            if key in reported or len(reported) >= 10:
                continue
            reported.add(key)
            path = os.path.join(EVID, 'replay', '%s-%d.json' % (self.prop, len(reported)))
            with open(path, 'w') as f:
                json.dump({'property': self.prop, 'key': key, 'what': text, 'seed': self.seed, 'tier': self.tier,
                           'payload': payload}, f, indent=1, default=str)
            print('  ' + text[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            viol.append('%s: %s' % (key, text))
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'samples': self.samples[:10],
                'models': self.models, 'trace_validation': self.valid, 'generation': self.gens,
                'behaviours_replayed_into_impl': self.replayed,
            },
            'assumptions': self.assumptions,
            'wall_s': round(time.time() - self.t0, 2),
            'violations': viol,
        }
        ev['coverage'].update(self.extra)
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s %s: states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs' % (
            self.prop, self.tier, self.states, self.transitions, self.traces, len(viol), len(seen_known),
            time.time() - self.t0))
        return 1 if viol else 0


# ---------------------------------------------------------------- encoding of values for TLC (32 bit integers)

def enc(x, scale=1, tol=1e-6):
    """Encode a number as an integer on the grid 1/scale. Off-grid, nan, or non numeric values become NAN."""
    try:
        if hasattr(x, 'detach'):
            x = x.detach().cpu().numpy()
        import numpy as np
        a = np.asarray(x)
        if a.size != 1:
            return NAN
        v = float(a.reshape(-1)[0])
    except Exception:
        return NAN
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return PINF if v > 0 else NINF
    v = v * scale
    r = round(v)
    if abs(v - r) > tol * max(1.0, abs(v)) or abs(r) > 1900000000:
        return NAN
    return int(r)


def encf(x, scale=1000000):
    """Encode a float rounded on the grid 1/scale (for tolerance comparisons in the spec)."""
    try:
        if hasattr(x, 'detach'):
            x = x.detach().cpu().numpy()
        import numpy as np
        a = np.asarray(x)
        if a.size != 1:
            return NAN
        v = float(a.reshape(-1)[0])
    except Exception:
        return NAN
    if math.isnan(v):
        return NAN
    if math.isinf(v):
        return PINF if v > 0 else NINF
    v = round(v * scale)
    return NAN if abs(v) > 1900000000 else int(v)


def encl(xs, scale=1, tol=1e-6):
    import numpy as np
    if hasattr(xs, 'detach'):
        xs = xs.detach().cpu().numpy()
    try:
        return [enc(x, scale, tol) for x in np.asarray(xs).reshape(-1)]
    except Exception:
        return [NAN]


def enclf(xs, scale=1000000):
    import numpy as np
    if hasattr(xs, 'detach'):
        xs = xs.detach().cpu().numpy()
    try:
        return [encf(x, scale) for x in np.asarray(xs).reshape(-1)]
    except Exception:
        return [NAN]


def flag(x):
    """Encode a boolean flag as 0/1, NAN if it is not one."""
    try:
        if hasattr(x, 'detach'):
            x = x.detach().cpu().numpy()
        import numpy as np
        a = np.asarray(x)
        if a.size != 1:
            return NAN
        v = a.reshape(-1)[0]
        return 1 if v == 1 else (0 if v == 0 else NAN)
    except Exception:
        return NAN
