"""Shared parts of the checks: building, evidence, replay files, reporting."""
import hashlib, json, os, random, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SIM = os.path.join(VERIF, 'sim')
EVID = os.path.join(VERIF, 'evidence')
NCPU = os.cpu_count() or 4
CXX = 'g++'
REPOFLAGS = ['-std=c++11', '-march=native', '-I' + os.path.join(REPO, 'include')]
ENV = dict(os.environ, LC_ALL='C', LANG='C')
ENV.pop('CPATH', None)


class BuildError(Exception):
    pass


class SimError(Exception):
    pass


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                          env=kw.pop('env', ENV), **kw)


def compile_all(jobs, workers=NCPU):
    """jobs: list of command lists. All must succeed."""
    def one(c):
        env = ENV
        if isinstance(c, tuple):
            c, extra = c
            env = dict(ENV, **extra)
        r = run(c, env=env)
        return c, r
    with ThreadPoolExecutor(workers) as ex:
        for c, r in ex.map(one, jobs):
            if r.returncode != 0:
                raise BuildError('%s\n%s' % (' '.join(c), r.stdout[-3000:]))


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        os.makedirs(EVID, exist_ok=True)
        base = os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '-', dir=base)
        self.log_lines = []

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    def rng(self, *salt):
        h = hashlib.sha256(('%s|%d|%s' % (self.prop, self.seed, '|'.join(map(str, salt)))).encode()).digest()
        return random.Random(int.from_bytes(h[:8], 'little'))

    def evidence(self, cov, assumptions=(), violations=0, level='exploration'):
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                 assumptions=list(assumptions), wall_s=round(self.elapsed(), 2), violations=violations)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(d, f, indent=1, sort_keys=True)
            f.write('\n')

    def replay_path(self, n=0):
        return os.path.join(EVID, 'replay-%s-%d.json' % (self.prop, n))


# ------------------------------------------------------------------ ELF: the tables a source defines
def elf_objects(path):
    """{symbol: bytes} of the data objects defined by an ELF64 relocatable file."""
    b = open(path, 'rb').read()
    shoff, = struct.unpack_from('<Q', b, 0x28)
    shentsize, shnum, shstrndx = struct.unpack_from('<HHH', b, 0x3A)
    secs = []
    for i in range(shnum):
        secs.append(struct.unpack_from('<IIQQQQIIQQ', b, shoff + i * shentsize))
    out = {}
    for s in secs:
        if s[1] != 2:
            continue
        strs = secs[s[6]]
        stro = strs[4]
        for o in range(s[4], s[4] + s[5], 24):
            name, info, other, shndx, value, size = struct.unpack_from('<IBBHQQ', b, o)
            if info & 15 != 1 or shndx == 0 or shndx >= 0xff00:
                continue
            e = b.index(b'\0', stro + name)
            nm = b[stro + name:e].decode()
            sec = secs[shndx]
            data = b'\0' * size if sec[1] == 8 else b[sec[4] + value: sec[4] + value + size]
            out[nm] = data
    return out


# ------------------------------------------------------------------ minimisation
def ddmin(items, fails, budget=20.0, maxtests=200):
    """Smallest sublist of items found for which fails(sublist) is true."""
    t0 = time.time()
    tests = [0]

    def f(x):
        tests[0] += 1
        return fails(x)
    n = 2
    items = list(items)
    while len(items) >= 1:
        if time.time() - t0 > budget or tests[0] > maxtests:
            break
        if f([]):
            return []
        chunk = max(1, len(items) // n)
        reduced = False
        i = 0
        while i < len(items):
            if time.time() - t0 > budget or tests[0] > maxtests:
                break
            cand = items[:i] + items[i + chunk:]
            if len(cand) < len(items) and f(cand):
                items = cand
                reduced = True
                n = max(2, n - 1)
            else:
                i += chunk
        if not reduced:
            if chunk == 1:
                break
            n = min(len(items), n * 2)
    return items


def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                out.append(l)
    return out
