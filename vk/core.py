"""Runner of the monitors: shards the workload of a check over worker processes, collects what the
monitors observed and turns it into a verdict (held / violated / inconclusive) and evidence."""
import hashlib
import importlib
import json
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import zlib
from collections import Counter, defaultdict

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')
NWORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, key, msg, witness=None):
        super().__init__(f"[{key}] {msg}")
        self.key, self.msg, self.witness = key, msg, witness or {}


class Inconclusive(Exception):
    """The case says nothing (too ill-conditioned, out of memory, ...)."""


class Mon:
    """What the monitors of one worker observed."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.counts = Counter()
        self.distinct = defaultdict(set)
        self.worst = {}
        self.violations = []
        self.scratch = None

    def count(self, what, n=1):
        self.counts[what] += int(n)

    def seen(self, what, item):
        h = hashlib.sha1(item if isinstance(item, bytes) else repr(item).encode()).digest()[:8]
        self.distinct[what].add(h)

    def fail(self, key, msg, **witness):
        raise Violation(key, msg, witness)

    def check(self, ok, key, msg='', **witness):
        self.count('oracle decisions')
        if not ok:
            raise Violation(key, msg, witness)

    def err(self, value, tol, key, msg='', **witness):
        """A residual judged against its tolerance (nan is a violation)."""
        self.count('oracle decisions')
        value = float(value)
        r = value / tol
        if not (r <= self.worst.get(key, (-1,))[0]):
            self.worst[key] = (r, msg)
        if not value <= tol:
            raise Violation(key, f"{msg} (residual {value:.3g}, tolerance {tol:.3g})", witness)

    def close(self, a, b, tol, key, msg='', **witness):
        import numpy as np
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            self.count('oracle decisions')
            raise Violation(key, f"{msg}: shapes {a.shape} and {b.shape}", witness)
        a = a.astype(complex if np.iscomplexobj(a) else float)
        b = b.astype(complex if np.iscomplexobj(b) else float)
        scale = max(1e-30, 1., float(np.abs(b).max()) if b.size else 1.)
        d = float(np.abs(a - b).max()) / scale if a.size else 0.
        self.err(d, tol, key, msg, **witness)


def canon(case):
    return json.dumps(case, sort_keys=True)


def case_seed(seed, case):
    return zlib.crc32((str(seed) + canon(case)).encode()) & 0x7fffffff


def seed_all(s):
    import numpy as np
    random.seed(s)
    np.random.seed(s)
    for name in ('torch', 'objax'):
        m = sys.modules.get(name)
        if name == 'torch' and m is not None:
            m.manual_seed(s)
        if name == 'objax' and m is not None:
            m.random.DEFAULT_GENERATOR.seed(s)


def in_repo(tb):
    return any(os.path.realpath(f.filename).startswith(os.path.realpath(REPO) + os.sep)
               for f in traceback.extract_tb(tb))


class CaseTimeout(BaseException):
    pass


def run_case(mod, case, mon, limit):
    """-> 'ok' | 'inconclusive' ; appends to mon.violations."""
    s = case_seed(mon.seed, case)
    seed_all(s)

    def alarm(*a):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, max(limit, 1))
    try:
        mod.run(case, mon)
        return 'ok'
    except CaseTimeout:
        mon.count('cases timed out')
        return 'inconclusive'
    except Violation as v:
        mon.violations.append(dict(key=v.key, msg=v.msg, witness=v.witness, case=case))
        return 'violated'
    except Inconclusive as e:
        mon.count(f'inconclusive: {e}'[:80])
        return 'inconclusive'
    except MemoryError:
        mon.count('inconclusive: memory')
        return 'inconclusive'
    except Exception as e:
        if 'RESOURCE_EXHAUSTED' in str(e) or 'Unable to allocate' in str(e):
            mon.count('inconclusive: memory')
            return 'inconclusive'
        if not in_repo(e.__traceback__):
            mon.count('harness errors')
            mon.harness = traceback.format_exc()
            return 'harness'
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if os.path.realpath(f.filename).startswith(os.path.realpath(REPO))][-1]
        mon.count('oracle decisions')
        mon.violations.append(dict(key='raises:' + type(e).__name__, case=case,
                                   msg=f"{type(e).__name__}: {str(e)[:300]} at {os.path.basename(last.filename)}:{last.name}",
                                   witness={'traceback': traceback.format_exc()[-3000:]}))
        return 'violated'
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def load(pid):
    return importlib.import_module('vk.checks.' + pid.lower())


THIRD = ("numpy scipy scipy.special scipy.linalg scipy.stats jax jax.numpy jax.scipy.linalg jax.tree_util objax objax.nn objax.nn.init objax.functional "
         "sklearn.cluster matplotlib.pyplot plum tqdm tqdm.auto optax toolz.curried").split()


def preload(more=()):
    """Third party modules from their own bytecode caches; the code under test always from its sources."""
    for m in THIRD + list(more):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    if os.environ.get('VK_PYC'):
        sys.pycache_prefix = os.environ['VK_PYC']


def worker(pid, tier, seed, idx, n, deadline, out, only=None):
    resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))   # 8 workers share 32 GB
    mon = Mon(pid, tier, seed)
    mon.scratch = os.environ['VK_SCRATCH']
    done, samples, index = 0, [], 0
    status = Counter()

    def dump(final):
        tmp = out + '.tmp'
        with open(tmp, 'w') as f:
            json.dump(dict(final=final, counts=mon.counts, worst=mon.worst, done=done, status=status,
                           distinct={k: [h.hex() for h in v] for k, v in mon.distinct.items()},
                           violations=mon.violations, samples=samples, index=index,
                           harness=getattr(mon, 'harness', None),
                           rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024), f, default=str)
        os.replace(tmp, out)

    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter('ignore')
    sys.path.insert(0, VERIF)
    mod = load(pid)
    preload(getattr(mod, 'PRELOAD', ()))
    import emlp
    if not os.path.realpath(emlp.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"emlp comes from {emlp.__file__}, not from {REPO}")
    if hasattr(mod, 'setup'):
        mod.setup(mon)
    limit = getattr(mod, 'CASE_LIMIT', 300)
    last = time.time()
    for index, case in enumerate(only if only is not None else mod.cases(tier, seed)):
        if only is None and index % n != idx:
            continue
        if time.time() > deadline and done:
            dump(False)
            if time.time() > deadline + 180 or only is not None or not lagging(mod, out, n):
                break
        case = json.loads(canon(case))
        st = run_case(mod, case, mon, limit)
        status[st] += 1
        done += 1
        mon.seen('cases', canon(case))
        if len(samples) < 2 and st == 'ok':
            samples.append(case)
        if len(mon.violations) >= 20:
            break
        if st != 'ok' or time.time() - last > 3:
            dump(False)
            last = time.time()
    dump(True)


def lagging(mod, out, n):
    """on a slow machine: whether the workers together have yet to observe what the verdict needs"""
    counts, distinct = Counter(), defaultdict(set)
    for i in range(n):
        try:
            with open(os.path.join(os.path.dirname(out), f'w{i}.json')) as f:
                r = json.load(f)
        except OSError:
            continue
        counts.update(r['counts'])
        for k, v in r['distinct'].items():
            distinct[k].update(v)
    return any((len(distinct[k[9:]]) if k.startswith('distinct ') else counts[k]) < m for k, m in getattr(mod, 'NEED', {}).items())


def known(pid):
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
        return [k for k in json.load(f)['open'] if k['property'] == pid]


def worker_env(seed, idx, scratch):
    env = dict(os.environ)
    # every worker has its own hash seed, since orderings in the library are derived from hashes
    hs = zlib.crc32(f"{seed}/{idx}".encode()) % 4294967295 if idx else 0
    env.update(PYTHONHASHSEED=str(hs), JAX_PLATFORMS='cpu', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1',
               VK_PYC=os.path.join(scratch, 'pyc'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
               MKL_NUM_THREADS='1', HOME=os.path.join(scratch, f'home{idx}'), VK_SCRATCH=os.path.join(scratch, f's{idx}'),
               TMPDIR=os.path.join(scratch, f's{idx}'), TF_CPP_MIN_LOG_LEVEL='3', TQDM_DISABLE='1',
               XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true',
               PYTHONPATH=os.pathsep.join([REPO, VERIF]), PYTHONWARNINGS='ignore')
    env.pop('JAX_ENABLE_X64', None)
    env.pop('PYTHONPYCACHEPREFIX', None)
    for k in ('HOME', 'VK_SCRATCH'):
        os.makedirs(env[k], exist_ok=True)
    return env


def main(argv):
    pid = argv[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = load(pid)
    budget = float(os.environ.get('VERIF_BUDGET', 0)) or \
        (getattr(mod, 'QUICK_S', 32) if tier == 'quick' else getattr(mod, 'THOROUGH_S', 600))
    grace = 330 if tier == 'quick' else 260
    if '--replay' in argv:
        return replay(pid, mod, argv[argv.index('--replay') + 1])
    evid = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evid, 'replay'), exist_ok=True)
    for f in os.listdir(os.path.join(evid, 'replay')):
        if f.startswith(pid + '-'):
            os.unlink(os.path.join(evid, 'replay', f))
    scratch = tempfile.mkdtemp(prefix=f'vk-{pid}-')
    procs, outs, logs = [], [], []
    try:
        if hasattr(mod, 'parent'):   # checks which drive processes of their own
            return mod.parent(sys.modules[__name__], pid, tier, seed, budget, scratch, t0)
        for i in range(NWORKERS):
            out = os.path.join(scratch, f'w{i}.json')
            log = open(os.path.join(scratch, f'w{i}.log'), 'w')
            cmd = [PY, '-c', 'import sys; from vk import core; core.worker(*eval(sys.argv[1]))',
                   repr((pid, tier, seed, i, NWORKERS, t0 + budget, out))]
            procs.append(subprocess.Popen(cmd, env=worker_env(seed, i, scratch), cwd=scratch, stdout=log,
                                          stderr=subprocess.STDOUT, start_new_session=True))
            outs.append(out); logs.append(log.name)
        end = t0 + budget + grace
        for p in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                pass
        for p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        results, trouble = [], []
        for i, (p, o, l) in enumerate(zip(procs, outs, logs)):
            r = None
            if os.path.exists(o):
                with open(o) as f:
                    r = json.load(f)
                r['idx'] = i
                results.append(r)
            if r is None or not r['final']:
                tail = open(l).read()[-1500:]
                trouble.append(f"worker {i} ended early (exit {p.returncode}) after {r['done'] if r else 0} cases\n{tail}")
        return verdict(pid, mod, tier, seed, results, trouble, t0)
    finally:
        for p in procs:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
        shutil.rmtree(scratch, ignore_errors=True)


def listing(kf, v):
    return next((k for k in kf if k['key'] == v['key'] and all(v['case'].get(a) == b for a, b in k.get('case', {}).items())), None)


def verdict(pid, mod, tier, seed, results, trouble, t0):
    counts, status, worst, distinct = Counter(), Counter(), {}, defaultdict(set)
    violations, samples = [], []
    done = 0
    for r in results:
        counts.update(r['counts']); status.update(r['status']); done += r['done']
        for k, v in r['worst'].items():
            if k not in worst or not v[0] <= worst[k][0]:
                worst[k] = v
        for k, v in r['distinct'].items():
            distinct[k].update(v)
        for v in r['violations']:
            violations.append(dict(v, worker=r['idx'], index=r['index']))
        samples += r['samples'][:1]
        if r['harness']:
            trouble.append(f"harness error in worker {r['idx']}:\n{r['harness']}")
    kf = known(pid)
    new, listed = [], {}
    for v in violations:
        k = listing(kf, v)
        if k is None:
            new.append(v)
        else:
            listed.setdefault(k['what'], 0)
            listed[k['what']] += 1
    for k in kf:   # a listed finding is printed whether or not this run's workload met it
        listed.setdefault(k['what'], 0)
    need = getattr(mod, 'NEED', {})
    short = {}
    for k, m in need.items():
        have = len(distinct[k[9:]]) if k.startswith('distinct ') else counts[k]
        if have < m:
            short[k] = (have, m)
    cov = dict(evaluations=done, distinct_nontrivial=len(distinct['nontrivial'] if 'nontrivial' in distinct else distinct['cases']),
               rule=mod.RULE, samples=samples[:6], events=dict(counts),
               distinct_observed={k: len(v) for k, v in distinct.items()},
               worst_residual_over_tolerance={k: [round(float(v[0]), 4), v[1]] for k, v in sorted(worst.items())},
               case_status=dict(status), peak_rss_mb=max([r['rss'] for r in results] or [0]), workers=len(results), hash_seeds=len(results),
               known_findings_met={k: n for k, n in listed.items()})
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'), coverage=cov,
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 1), violations=len(new))
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for what in listed:
        print(f"KNOWN-FINDING: property={pid} {what}")
    if new:
        keys = []
        for v in new:
            if v['key'] in keys:
                continue
            keys.append(v['key'])
            name = f"{pid}-{hashlib.sha1((v['key'] + canon(v['case'])).encode()).hexdigest()[:10]}.json"
            path = os.path.join(VERIF, 'evidence', 'replay', name)
            with open(path, 'w') as f:
                json.dump(dict(v, property=pid, tier=tier, seed=seed, nworkers=NWORKERS), f, indent=1, default=str)
            print(f"  {v['key']}: {v['msg']}")
            print(f"  case {canon(v['case'])[:600]}")
            print(f"VIOLATION property={pid} replay={path}", flush=True)
            if len(keys) >= 4:
                break
        return 1
    bad = status['harness'] > 0.02 * max(done, 1)
    if short or bad or (trouble and len(results) < NWORKERS - 2):
        print(f"INCONCLUSIVE property={pid}: observed too little {short}; " + "\n".join(trouble)[:4000])
        return 2
    for t in trouble:
        print("note: " + t[:1500])
    print(f"held property={pid} tier={tier} seed={seed}: {done} cases, {counts['oracle decisions']} oracle decisions, "
          f"{cov['distinct_nontrivial']} distinct nontrivial, {time.time() - t0:.1f} s; "
          + ", ".join(f"{k}={v}" for k, v in sorted(counts.items()) if k != 'oracle decisions')[:900])
    return 0


def replay(pid, mod, path):
    """Runs the case of a replay file (and, if it does not fail alone, everything its worker ran before it)."""
    with open(path) as f:
        v = json.load(f)
    scratch = tempfile.mkdtemp(prefix=f'vk-{pid}-')
    try:
        env = worker_env(v['seed'], v['worker'], scratch)
        for mode in ('alone', 'prefix'):
            out = os.path.join(scratch, mode + '.json')
            if mode == 'alone':
                only = [v['case']]
            else:
                allc = []
                for i, c in enumerate(mod.cases(v['tier'], v['seed'])):
                    if i > v['index']:
                        break
                    if i % v['nworkers'] == v['worker']:
                        allc.append(json.loads(canon(c)))
                only = allc
            cf = os.path.join(scratch, 'cases.json')
            with open(cf, 'w') as f:
                json.dump(only, f)
            code = ('import sys,json,time; from vk import core; '
                    f'core.worker({pid!r},{v["tier"]!r},{v["seed"]},0,1,time.time()+3600,{out!r},json.load(open({cf!r})))')
            p = subprocess.run([PY, '-c', code], env=env, cwd=scratch)
            if os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                r['violations'] = [w for w in r['violations'] if not listing(known(pid), w)]
                for w in r['violations']:
                    print(f"  {w['key']}: {w['msg']}\n  case {canon(w['case'])}\n  {json.dumps(w['witness'], default=str)[:3000]}")
                if r['violations']:
                    print(f"VIOLATION property={pid} replay={path}")
                    return 1
            elif p.returncode:
                return 2
        print("the replayed case holds")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
