"""Build, run, watch and report: the part every check shares."""
import argparse
import collections
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MKMON_REPO', '/repo')
WORKERS = 8
CASE_CPU = 60          # seconds of CPU one case may use before it counts as not terminating
CASE_WALL = 240        # seconds of wall clock before the watchdog looks at a case
MEM_LIMIT = 3 << 30


class Violation(Exception):
    def __init__(self, mechanism, msg):
        Exception.__init__(self, '{}: {}'.format(mechanism, msg))
        self.mechanism = mechanism
        self.msg = msg


class CaseTimeout(BaseException):
    pass


class Rejected(Exception):
    """A generated case that turned out to be outside what the property speaks about."""


def short(v, n=300):
    s = v if isinstance(v, str) else repr(v)
    return s if len(s) <= n else s[:n] + '...({} chars)'.format(len(s))


class Ctx:
    """What a case gets: its random source, a scratch directory and the recorder."""

    def __init__(self, rng, tmp, tier, index):
        self.rng = rng
        self.tmp = tmp
        self.tier = tier
        self.index = index
        self.counts = collections.Counter()
        self.violations = []
        self.sigs = []
        self.samples = []
        self.nontrivial = False
        self._n = 0

    def count(self, name, n=1):
        self.counts[name] += n

    def sig(self, *parts):
        """Mark the case as non-trivial and record what makes it distinct."""
        self.sigs.append(hashlib.md5(repr(parts).encode('utf-8', 'backslashreplace')).hexdigest()[:16])

    def sample(self, v):
        self.samples.append(v)

    def fail(self, mechanism, msg):
        if len(self.violations) < 5:
            self.violations.append((mechanism, short(msg, 1500)))

    def check(self, cond, mechanism, msg=''):
        self.counts['oracle_checks'] += 1
        if not cond:
            self.fail(mechanism, msg() if callable(msg) else msg)
        return bool(cond)

    def eq(self, got, want, mechanism, msg=''):
        self.counts['oracle_checks'] += 1
        if type(got) is not type(want) and not (isinstance(got, (int, float)) and isinstance(want, (int, float))) or got != want:
            self.fail(mechanism, '{} got {} expected {}{}'.format(
                msg() if callable(msg) else msg, short(got, 500), short(want, 500), diffHint(got, want)))
            return False
        return True

    def path(self, name):
        return os.path.join(self.tmp, name)

    def newdir(self, stem='d'):
        self._n += 1
        p = os.path.join(self.tmp, '{}{}'.format(stem, self._n))
        os.makedirs(p)
        return p

    def write(self, path, data):
        if isinstance(data, str):
            data = data.encode('utf-8')
        with open(path, 'wb') as f:
            f.write(data)
        return path

    def read(self, path):
        with open(path, 'rb') as f:
            return f.read()


def diffHint(got, want):
    try:
        if isinstance(got, dict) and isinstance(want, dict):
            ks = [k for k in set(got) | set(want) if k not in got or k not in want or got[k] != want[k]]
            k = sorted(ks, key=repr)[:2]
            return ' [differs at {}]'.format(', '.join('{!r}: {} vs {}'.format(
                x, short(got.get(x, '<absent>'), 200), short(want.get(x, '<absent>'), 200)) for x in k))
        if isinstance(got, (list, tuple)) and isinstance(want, (list, tuple)):
            for i, (a, b) in enumerate(zip(got, want)):
                if a != b:
                    return ' [item {}: {} vs {}]'.format(i, short(a, 200), short(b, 200))
            return ' [lengths {} vs {}]'.format(len(got), len(want))
        if isinstance(got, (set, frozenset)) and isinstance(want, (set, frozenset)):
            return ' [extra {} missing {}]'.format(short(sorted(map(repr, got - want)), 200), short(sorted(map(repr, want - got)), 200))
    except Exception:
        pass
    return ''


# ------------------------------------------------------------------ build

def build(scratch, standins=True):
    """Copy the package out of the working tree and import that copy."""
    src = os.path.join(REPO, 'metaknowledge')
    if not os.path.isdir(src):
        raise RuntimeError('no package at ' + src)
    dst = os.path.join(scratch, 'lib', 'metaknowledge')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('__pycache__', 'tests', '*.pyc', 'j9Abbreviations*', 'manualj9Abbreviations*', 'namesData.csv'))
    if standins:
        from . import standins as st
        st.install(dst)
    sys.path.insert(0, os.path.join(scratch, 'lib'))
    import metaknowledge
    if os.path.realpath(os.path.dirname(metaknowledge.__file__)) != os.path.realpath(dst):
        raise RuntimeError('imported {} instead of the copy'.format(metaknowledge.__file__))
    metaknowledge.VERBOSE_MODE = False
    return metaknowledge


def treeDigest():
    h = hashlib.md5()
    base = os.path.join(REPO, 'metaknowledge')
    for d, dirs, files in sorted(os.walk(base)):
        dirs.sort()
        if '__pycache__' in d or os.sep + 'tests' in d:
            continue
        for f in sorted(files):
            if f.endswith('.py'):
                with open(os.path.join(d, f), 'rb') as fh:
                    h.update(f.encode() + fh.read())
    return h.hexdigest()[:12]


# ------------------------------------------------------------------ running cases

def runCase(mod, index, seed, tier, base):
    rng = random.Random('{}:{}:{}'.format(seed, mod.ID, index))
    tmp = os.path.join(base, 'case{}'.format(index))
    os.makedirs(tmp)
    ctx = Ctx(rng, tmp, tier, index)
    cwd = os.getcwd()
    os.chdir(tmp)
    t = time.time()
    out = io.StringIO()
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU', CASE_CPU))
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod.case(rng, ctx)
    except Rejected:
        ctx.count('rejected_cases')
        ctx.sigs = []
    except Violation as v:
        ctx.violations.insert(0, (v.mechanism, short(v.msg, 1500)))
    except CaseTimeout:
        ctx.violations.insert(0, ('no-termination', 'case used more than {} s of CPU'.format(getattr(mod, 'CASE_CPU', CASE_CPU))))
    except MemoryError:
        ctx.violations.insert(0, ('memory', 'case exceeded the memory limit'))
    except Exception as e:
        tb = traceback.format_exc()
        inLib = 'lib/metaknowledge' in tb
        last = [x.strip() for x in tb.strip().split('\n')]
        ctx.violations.insert(0, ('exception:{}'.format(type(e).__name__), ('library' if inLib else 'harness') + ' raised: ' + short(' | '.join(last[-14:]), 1400)))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    return {'index': index, 'counts': dict(ctx.counts), 'violations': ctx.violations, 'sigs': ctx.sigs,
            'samples': ctx.samples[:1], 't': time.time() - t}


def _onProf(sig, frm):
    raise CaseTimeout()


def noteLines(path):
    """Appends every line of the package that is run to a file, once per process (for finding what no workload reaches)"""
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    m = sys.monitoring
    m.use_tool_id(m.COVERAGE_ID, 'mkmon')

    def line(code, n):
        f = code.co_filename
        if '/metaknowledge/' in f:
            os.write(fd, '{}:{}\n'.format(f.rsplit('/metaknowledge/', 1)[1], n).encode())
        return m.DISABLE
    m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
    m.set_events(m.COVERAGE_ID, m.events.LINE)


def worker(mod, w, todo, seed, tier, base, outPath, beat, deadline):
    signal.signal(signal.SIGPROF, _onProf)
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.makedirs(base)
    with open(outPath, 'a', encoding='utf-8') as out:
        for index in todo:
            if time.time() > deadline:
                break
            beat.write(w, index, time.time())
            r = runCase(mod, index, seed, tier, base)
            out.write(json.dumps(r) + '\n')
            out.flush()
    beat.write(w, -1, time.time())


class Beat:
    """One shared slot per worker: the case it is in and since when."""

    def __init__(self):
        import mmap
        self.m = mmap.mmap(-1, 4096)

    def write(self, w, index, t):
        import struct
        self.m[w * 16:w * 16 + 16] = struct.pack('<qd', index, t)

    def read(self, w):
        import struct
        return struct.unpack('<qd', self.m[w * 16:w * 16 + 16])


def cpuOf(pid):
    try:
        with open('/proc/{}/stat'.format(pid)) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except Exception:
        return None


def runAll(mod, n, seed, tier, scratch, cap):
    deadline = time.time() + cap
    beat = Beat()
    pids = {}
    outs = []
    start = time.time()
    for w in range(WORKERS):
        todo = list(range(w, n, WORKERS))
        if not todo:
            continue
        outPath = os.path.join(scratch, 'out{}'.format(w))
        outs.append(outPath)
        beat.write(w, -1, start)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.setpgid(0, 0)
                if os.environ.get('MKMON_LINES'):
                    noteLines(os.environ['MKMON_LINES'])
                worker(mod, w, todo, seed, tier, os.path.join(scratch, 'w{}'.format(w)), outPath, beat, deadline)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                os._exit(code)
        pids[pid] = w
    blocked = []
    dead = []
    seen = {}
    while pids:
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid:
            w = pids.pop(pid, None)
            if w is not None and status != 0:
                dead.append((w, status, beat.read(w)[0]))
            continue
        now = time.time()
        for pid, w in list(pids.items()):
            index, since = beat.read(w)
            if index >= 0 and now - since > CASE_WALL:
                cpu = cpuOf(pid)
                key = (w, index)
                if key not in seen:
                    seen[key] = (now, cpu)
                elif now - seen[key][0] > 20:
                    idle = cpu is not None and seen[key][1] is not None and cpu - seen[key][1] < 1.0
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    pids.pop(pid)
                    (blocked if idle else dead).append((w, 'blocked' if idle else 'slow', index))
        time.sleep(0.02)
    results = []
    for p in outs:
        if os.path.exists(p):
            with open(p, encoding='utf-8') as f:
                for line in f:
                    results.append(json.loads(line))
    return results, blocked, dead


# ------------------------------------------------------------------ known findings

def loadKnown(prop):
    known = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: '):
                    parts = line[len('known: '):].split(' ', 2)
                    kv = dict(x.split('=', 1) for x in parts[:2])
                    if kv.get('property') == prop:
                        known[kv['mechanism']] = parts[2] if len(parts) > 2 else ''
    return known


# ------------------------------------------------------------------ main

def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--cases', type=int)
    ap.add_argument('--seed', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--show', type=int, default=1)
    a = ap.parse_args(argv)
    if a.selftest:
        return selftest()
    prop = a.property
    t0 = time.time()
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
    scratch = tempfile.mkdtemp(prefix='mkmon_{}_'.format(prop))
    try:
        mod = importlib.import_module('mkmon.checks.{}'.format(prop.lower()))
        try:
            mk = build(scratch, getattr(mod, 'STANDINS', True))
            if hasattr(mod, 'setup'):
                os.makedirs(os.path.join(scratch, 'setup'))
                mod.setup(os.path.join(scratch, 'setup'))
        except BaseException:
            # a tree that cannot even be imported gives no answer about the property
            traceback.print_exc()
            print('ERROR: cannot build or import the package from {}'.format(REPO))
            return 2
        if a.replay:
            return replay(mod, a, scratch)
        tier = a.tier
        n = a.cases or (mod.THOROUGH_N if tier == 'thorough' else mod.QUICK_N)
        cap = a.cap or (480 if tier == 'quick' else 3000)
        results, blocked, dead = runAll(mod, n, seed, tier, scratch, cap)
        return report(mod, tier, seed, n, results, blocked, dead, t0, scratch, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def selftest():
    """Nothing has to be built ahead of the checks; see that everything they need is there."""
    d = os.path.join(VERIF, 'mkmon', 'checks')
    ids = sorted(f[:-3] for f in os.listdir(d) if f.startswith('p') and f.endswith('.py'))
    for i in ids:
        m = importlib.import_module('mkmon.checks.' + i)
        for attr in ('ID', 'LEVEL', 'QUICK_N', 'THOROUGH_N', 'RULE', 'ASSUMPTIONS', 'REQUIRED', 'case'):
            assert hasattr(m, attr), (i, attr)
        assert m.ID == i.upper(), i
    print('{} checks ready'.format(len(ids)))
    return 0


def runProbes(mod, seed, tier, scratch):
    """Each listed finding has a deterministic probe; returns [(mechanism, outcome, msg)]."""
    ret = []
    for mech, fn in getattr(mod, 'PROBES', {}).items():
        m = _Probe(mod.ID, fn)
        signal.signal(signal.SIGPROF, _onProf)
        r = runCase(m, 'probe-' + mech, seed, tier, scratch)
        ret.append((mech, r))
    return ret


class _Probe:
    def __init__(self, ID, fn):
        self.ID = ID
        self.case = fn


def replay(mod, a, scratch):
    with open(a.replay, encoding='utf-8') as f:
        d = json.load(f)
    signal.signal(signal.SIGPROF, _onProf)
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    base = os.path.join(scratch, 'replay')
    os.makedirs(base)
    if isinstance(d['index'], str) and d['index'].startswith('probe-'):
        m = _Probe(mod.ID, mod.PROBES[d['index'][len('probe-'):]])
    else:
        m = mod
    r = runCase(m, d['index'], d['seed'], d['tier'], base)
    for mech, msg in r['violations']:
        print('{}: {}'.format(mech, msg))
    if r['violations']:
        print('VIOLATION property={} replay={}'.format(mod.ID, os.path.abspath(a.replay)))
        return 1
    print('replay: no violation')
    return 0


def report(mod, tier, seed, n, results, blocked, dead, t0, scratch, a):
    prop = mod.ID
    known = loadKnown(prop)
    counts = collections.Counter()
    sigs = set()
    nontrivial = 0
    samples = []
    viol = []
    slowest = 0
    for r in sorted(results, key=lambda r: r['index']):
        counts.update(r['counts'])
        if r['sigs']:
            nontrivial += 1
            sigs.update(r['sigs'])
        if r['samples'] and len(samples) < 3:
            samples.extend(r['samples'])
        slowest = max(slowest, r['t'])
        for mech, msg in r['violations']:
            viol.append((r['index'], mech, msg))
    for w, why, index in blocked:
        viol.append((index, 'blocked', 'case neither finished nor used CPU for {} s'.format(CASE_WALL)))
    probes = runProbes(mod, seed, tier, scratch)
    knownPrinted = []
    for mech, r in probes:
        counts.update(r['counts'])
        for m, msg in r['violations']:
            if m == mech and mech in known:
                knownPrinted.append('KNOWN-FINDING: property={} {}'.format(prop, known[mech]))
            else:
                viol.append((r['index'], m, msg))
    repDir = os.path.join(os.environ.get('MKMON_EVIDENCE', os.path.join(VERIF, 'evidence')), 'replays')
    lines = []
    seenMech = collections.Counter()
    for index, mech, msg in viol:
        if mech in known and mech not in getattr(mod, 'PROBES', {}):
            if not any(known[mech] in k for k in knownPrinted):
                knownPrinted.append('KNOWN-FINDING: property={} {}'.format(prop, known[mech]))
            continue
        seenMech[mech] += 1
        if seenMech[mech] > a.show or len(lines) > 6:
            continue
        os.makedirs(repDir, exist_ok=True)
        rp = os.path.join(repDir, '{}-{}-{}-{}.json'.format(prop, tier, seed, index))
        with open(rp, 'w', encoding='utf-8') as f:
            json.dump({'property': prop, 'index': index, 'seed': seed, 'tier': tier, 'mechanism': mech, 'message': msg}, f, indent=1)
        lines.append((rp, mech, msg))
    nviol = sum(seenMech.values())
    missing = [c for c in getattr(mod, 'REQUIRED', []) if counts.get(c, 0) == 0]
    cov = {
        'evaluations': len(results),
        'distinct_nontrivial': len(sigs),
        'rule': mod.RULE,
        'samples': samples or ['(none)'],
        'planned_cases': n,
        'nontrivial_cases': nontrivial,
        'events_observed': {k: v for k, v in sorted(counts.items())},
        'slowest_case_s': round(slowest, 3),
        'tree': treeDigest(),
    }
    if getattr(mod, 'EXTRA', None):
        cov.update(mod.EXTRA(counts))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': mod.LEVEL, 'coverage': cov,
          'assumptions': mod.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    os.makedirs(os.path.join(os.environ.get('MKMON_EVIDENCE', os.path.join(VERIF, 'evidence'))), exist_ok=True)
    with open(os.path.join(os.environ.get('MKMON_EVIDENCE', os.path.join(VERIF, 'evidence')), prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for k in knownPrinted:
        print(k)
    print('{} {} seed={}: {} of {} cases, {} distinct non-trivial, {} oracle checks, {:.1f} s'.format(
        prop, tier, seed, len(results), n, len(sigs), counts.get('oracle_checks', 0), time.time() - t0))
    if lines:
        for rp, mech, msg in lines:
            print('  {} (x{}): {}'.format(mech, seenMech[mech], short(msg, 700)))
        print('VIOLATION property={} replay={}'.format(prop, lines[0][0]))
        return 1
    if dead:
        print('ERROR: workers ended abnormally: {}'.format(dead))
        return 2
    if missing and not a.cases:
        print('ERROR: the workload never reached: {}'.format(', '.join(missing)))
        return 2
    if len(results) < n:
        print('note: the time cap ended the run early')
    return 0
