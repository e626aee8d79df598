"""Running a check: dumping the program, collecting obligations, reporting."""
import os, sys, json, time, subprocess, shutil, fcntl, signal, tempfile
from .core import *

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
BUILD = os.environ.get('SA_BUILD', os.path.join(ROOT, 'build'))

class Timeout(BaseException):
    pass

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    r = sh(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'driver')], cwd=os.path.join(ROOT, 'driver'))
    if r.returncode: raise SystemError('driver build failed\n' + r.stdout[-4000:])

def driver():
    d = os.path.join(BUILD, 'driver', 'release', 'mirdump')
    src = os.path.join(ROOT, 'driver', 'src', 'main.rs')
    if not os.path.exists(d) or os.path.getmtime(d) < os.path.getmtime(src): build_driver()
    return d

def dump():
    """MIR of the current working tree: directory with tomllib.json and tomlkit.json"""
    if os.environ.get('SA_DUMP'): return os.environ['SA_DUMP']
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = driver()
        ct = os.path.join(BUILD, 'ct')
        out = tempfile.mkdtemp(prefix='mir', dir=BUILD)
        # cargo must run the compiler on the crate again, whatever its freshness cache says
        for fp in (os.path.join(ct, 'debug', '.fingerprint'), os.path.join(ct, 'debug', 'build')):
            if os.path.isdir(fp):
                for x in os.listdir(fp):
                    if x == 'tomllib' or x.startswith('tomllib-') or x.startswith('tomlkit-'): shutil.rmtree(os.path.join(fp, x))
        env = dict(os.environ)
        root = sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()
        env.update(LD_LIBRARY_PATH=root + '/lib', MIRDUMP_OUT=out, RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=ct,
                   RUSTFLAGS='-Zmir-opt-level=0 -Zalways-encode-mir --cap-lints allow', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0')
        for k in ('RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'): env.pop(k, None)
        lockfile = os.path.join(REPO, 'Cargo.lock'); had = os.path.exists(lockfile)
        r = sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--bin', 'tomlkit'], cwd=REPO, env=env)
        if r.returncode or not os.path.exists(os.path.join(out, 'tomllib.json')):
            shutil.rmtree(out)
            raise SystemError('cannot compile the code under analysis\n' + r.stdout[-4000:])
        return out

class Ctx:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.viol = {}          # key -> text
        self.counts = {}
        self.covered = set()
        self.undecided = {}
        self.rules = []
        self.samples = []
        self.assumptions = []
        self.dir = None
        self._p = {}
        self.thorough = self.tier == 'thorough'
    def prog(self, which='tomllib'):
        if self.dir is None: self.dir = dump()
        if which not in self._p:
            self._p[which] = Program(os.path.join(self.dir, which + '.json'))
            self._p[which].short = lambda f, fs=self._p[which].files: f
        return self._p[which]
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def obligation(self, ok, key, text=None, sample=None):
        """one decided instance of a rule"""
        self.count('obligations')
        if ok: self.count('discharged')
        else: self.violate(key, text or key)
        if sample and len(self.samples) < 25: self.samples.append(sample)
    def violate(self, key, text):
        if key not in self.viol: self.viol[key] = text
    def anchor(self, prog, name, n=1, what=None):
        """functions a rule is about; their absence is a violation (fail closed)"""
        r = prog.find(name)
        if len(r) < n: self.violate('anchor:' + name, 'expected %d instance(s) of %s in the program, found %d%s' % (n, name, len(r), ' (' + what + ')' if what else ''))
        return r
    def floor(self, k, n):
        if self.counts.get(k, 0) < n and not self.undecided:
            self.violate('floor:' + k, 'only %d %s analysed, at least %d expected' % (self.counts.get(k, 0), k, n))
    def absorb(self, I):
        """take over the statistics of an interpreter run"""
        for k, v in I.unk.items(): self.undecided[k] = self.undecided.get(k, 0) + v
        for k, v in I.covered.items(): self.covered.add((I.p.insts[k]['name'] if I.p.insts[k]['local'] else None, len(v)))
        if I.bounded: self.count('paths cut at the loop bound', I.bounded)
        self.count('abstract block transfers', I.steps)
    def each(self, fn, jobs):
        """fn(ctx, *job) for every job, on all cores; results are collected in the order of the jobs"""
        import multiprocessing as mp
        jobs = list(jobs)
        global _EACH
        _EACH = (fn, self, jobs)
        n = min(len(jobs), os.cpu_count() or 1)
        if os.environ.get('SA_DEBUG'): res = [_each(i) for i in range(len(jobs))]
        else:
            with mp.get_context('fork').Pool(n) as pool: res = pool.map(_each, range(len(jobs)), chunksize=1)
        out = []
        for viol, counts, covered, und, samples, r in res:
            for k, v in viol.items(): self.violate(k, v)
            for k, v in counts.items(): self.count(k, v)
            self.covered |= covered
            for k, v in und.items(): self.undecided[k] = self.undecided.get(k, 0) + v
            self.samples = (self.samples + samples)[:25]
            out.append(r)
        return out
    def known(self):
        f = os.path.join(ROOT, 'known-findings.json')
        if not os.path.exists(f): return {}
        return {x['key']: x for x in json.load(open(f))['findings'] if x['property'] == self.pid}
    def finish(self, explanation, level='other'):
        kn = self.known()
        new = {k: v for k, v in self.viol.items() if k not in kn}
        for k in self.viol:
            if k in kn: print('KNOWN-FINDING: property=%s %s' % (self.pid, kn[k].get('what', k)))
        cov = {'explanation': explanation, 'rules': self.rules, 'functions_analysed': sorted({n for n, _ in self.covered if n}),
               'undecided_constructs': self.undecided, 'samples': self.samples}
        cov.update(self.counts)
        ev = {'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick', 'seed': self.seed, 'level': level,
              'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2),
              'violations': [{'key': k, 'report': v} for k, v in new.items()]}
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        evf = os.path.join(ROOT, 'evidence', self.pid + '.json')
        with open(evf, 'w') as f: json.dump(ev, f, indent=1, default=str)
        if self.dir and not os.environ.get('SA_DUMP'): shutil.rmtree(self.dir, ignore_errors=True)
        for k, v in new.items():
            print('  %s: %s' % (k, v))
        if new:
            print('VIOLATION property=%s replay=%s' % (self.pid, evf))
            return 1
        print('OK property=%s obligations=%d undecided=%d %.1fs' % (self.pid, self.counts.get('obligations', 0), sum(self.undecided.values()), time.time() - self.t0))
        return 0

JOBLIMIT = {False: 300, True: 900}
def _each(i):
    fn, ctx, jobs = _EACH
    signal.alarm(JOBLIMIT[ctx.thorough])
    c = Ctx(ctx.pid); c.dir = ctx.dir; c._p = ctx._p; c.rules = ctx.rules
    r = None
    try: r = fn(c, *jobs[i])
    except Timeout: c.undecided['job stopped at its time limit'] = 1
    except (Unk, Bound) as u: c.undecided['%s' % u] = c.undecided.get('%s' % u, 0) + 1
    except (SystemError, KeyboardInterrupt): raise
    except Exception as e:
        if os.environ.get('SA_DEBUG'): raise
        import traceback
        c.undecided['internal: %r %s' % (e, traceback.format_exc(limit=-2))] = 1
    signal.alarm(0)
    return c.viol, c.counts, c.covered, c.undecided, c.samples, r

def main(argv):
    from . import checks
    pid = argv[1]
    ctx = Ctx(pid)
    limit = 3000 if ctx.thorough else 540
    def onalarm(*a): raise Timeout()
    signal.signal(signal.SIGALRM, onalarm); signal.alarm(limit)
    fn = checks.CHECKS[pid]
    expl = (fn.__doc__ or pid).strip()
    try:
        try:
            fn(ctx)
        except Timeout:
            ctx.count('stopped at the time limit')
        except (Unk, Bound) as u:
            ctx.undecided['check stopped: %s' % u] = 1
        except (SystemError, KeyboardInterrupt): raise
        except Exception as e:
            if os.environ.get('SA_DEBUG'): raise
            import traceback
            ctx.undecided['internal: %r %s' % (e, traceback.format_exc(limit=-2))] = 1
    except SystemError as e:
        print(e)
        ctx.violate('build', 'the tree does not build: %s' % str(e)[-300:])
    signal.alarm(0)
    return ctx.finish(' '.join(expl.split()))
