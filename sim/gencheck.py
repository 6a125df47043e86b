"""Checks P01-P07: the table generators as simulated processes (see gensim.cpp)."""
import json, os, re, shutil, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *

KINDS = ['posit8', 'posit10', 'posit12', 'binary8']
COPIES = 6
E = dict(ENOENT=2, EINTR=4, EIO=5, ENOMEM=12, EACCES=13, EISDIR=21, ENFILE=23, EMFILE=24, EFBIG=27, ENOSPC=28, EROFS=30, EPIPE=32,
         EDQUOT=122)
RULE = ('One evaluation is one simulated run: one to five simulated generator processes (real generator code) over an in-memory '
        'file system, driven by one seeded plan of faults, kills, scheduling switches and environment. Distinct = distinct hash of the '
        'executed event trace (operation, process, arguments, faults); non-trivial = at least one fault, kill, environment change or '
        'switch of process actually took effect.')
REAL = ['src/posit8_gen.cpp', 'src/posit10_gen.cpp', 'src/posit12_gen.cpp', 'src/binary8_gen.cpp', 'all library headers they include',
        'libstdc++ iostreams and file buffers', 'glibc stdio and malloc']
STUB = ['file system, disk space and permissions (in-memory)', 'process scheduling (seeded)', 'clock, pid, environment, entropy',
        'process start and exit (threads; exit-time destructors of the generator are run)']


class Plan:
    def __init__(self, rid):
        self.id, self.gens, self.atoms = rid, [], []

    def gen(self, kind, epoch=0, hasarg=True, arg=None, arg0=None):
        self.gens.append(dict(kind=kind, epoch=epoch, hasarg=hasarg, arg=arg or '/w/%s_tbl.cpp' % kind.split('.')[0], arg0=arg0 or kind.split('.')[0] + '_gen'))
        return len(self.gens) - 1

    def add(self, *a):
        self.atoms.append(tuple(a))

    def copy(self, atoms=None):
        p = Plan(self.id)
        p.gens = [dict(g) for g in self.gens]
        p.atoms = list(self.atoms if atoms is None else atoms)
        return p

    def dropgen(self, i):
        p = Plan(self.id)
        p.gens = [dict(g) for j, g in enumerate(self.gens) if j != i]
        m = lambda g: g - 1 if g > i else g
        for a in self.atoms:
            if a[0] in ('FAULT', 'CHUNK', 'STACK', 'HEAP', 'STDCLOSED'):
                if a[1] == i:
                    continue
                a = (a[0], m(a[1])) + a[2:]
            elif a[0] in ('SWITCH', 'STOP'):
                if a[1] == i or a[3] == i:
                    continue
                a = (a[0], m(a[1]), a[2], m(a[3]))
            p.atoms.append(a)
        return p

    def text(self, dump=False):
        o = ['RUN %s' % self.id]
        for g in self.gens:
            o.append('GEN %s %d %d %s %s' % (g['kind'], g['epoch'], int(g['hasarg']), g['arg0'], g['arg']))
        for a in self.atoms:
            o.append(' '.join(str(x) for x in a))
        if dump:
            o.append('DUMPALL')
        o.append('END')
        return '\n'.join(o) + '\n'

    def tojson(self):
        return dict(id=self.id, gens=self.gens, atoms=[list(a) for a in self.atoms])

    @staticmethod
    def fromjson(d):
        p = Plan(d['id'])
        p.gens = d['gens']
        p.atoms = [tuple(a) for a in d['atoms']]
        return p

    def cwd(self):
        for a in self.atoms:
            if a[0] == 'CWD':
                return a[1]
        return '/w'

    def target(self, i):
        g = self.gens[i]
        a = g['arg'] if g['hasarg'] else g['kind'].split('.')[0] + '_tbl.cpp'
        return os.path.normpath(a if a.startswith('/') else self.cwd() + '/' + a)

    def init(self, path):
        for a in self.atoms:
            if a[0] == 'FILE' and a[1] == path:
                return a
        return None


class Server:
    def __init__(self, cmd):
        self.cmd = cmd
        self.p = None

    def run(self, plan, dump=False):
        for attempt in (0, 1):
            if self.p is None:
                self.p = subprocess.Popen(self.cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                                          env=dict(PATH='/usr/bin:/bin', LC_ALL='C'))
            try:
                self.p.stdin.write(plan.text(dump))
                self.p.stdin.flush()
                l = self.p.stdout.readline()
            except BrokenPipeError:
                l = ''
            if l:
                break
            self.close()
        if not l:
            raise SimError('gensim died')
        r = json.loads(l)
        if 'simerror' in r:
            raise SimError('run %s: %s' % (plan.id, r['simerror']))
        return r

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p.stdin.close()
            self.p.stdout.close()
        self.p = None


def spots(text):
    """Offsets just after the places where one construct of a generated file ends."""
    out = [m.end() for m in re.finditer(rb'[;{}]', text)]
    nl = [m.end() for m in re.finditer(rb'\n', text)]
    if len(nl) > 300:
        nl = nl[:20] + nl[20:-20:max(1, len(nl) // 200)] + nl[-20:]
    if len(out) > 2000:
        out = out[:20] + out[20:-20:max(1, len(out) // 1000)] + out[-20:]
    return sorted(set(out + nl))


def toplevel(text):
    """Offsets where a construct ends and no brace is open: the only places where a cut file can be a whole program."""
    d, out = 0, []
    for m in re.finditer(rb'[;{}]', text):
        c = m.group()
        d += (c == b'{') - (c == b'}')
        if d == 0 and c != b'{':
            out.append(m.end())
    return out[:40] + out[40:][::max(1, len(out) // 60)]


class GenWorld:
    """The generators and the simulator built from the working tree."""

    def __init__(self, ctx, variants=False):
        self.ctx, w = ctx, ctx.work
        self.w = w
        self.dump = os.path.join(w, 'dump')
        os.makedirs(self.dump)
        base = ['-fPIC', '-shared', '-Wl,-Bsymbolic', '-fno-gnu-unique']
        jobs = [[CXX, '-std=c++17', '-O2', '-rdynamic', os.path.join(SIM, 'gensim.cpp'), '-o', w + '/gensim', '-ldl', '-lpthread']]
        fini = os.path.join(SIM, 'gensim_fini.cpp')
        self.kinds = list(KINDS)
        for k in KINDS:
            src = os.path.join(REPO, 'src', k + '_gen.cpp')
            jobs.append([CXX] + REPOFLAGS + ['-O2'] + base + [src, fini, '-o', '%s/%s.so' % (w, k)])
        self.variants = []
        if variants:
            vs = [('O0', ['-O0', '-ftrivial-auto-var-init=pattern'], {'SOURCE_DATE_EPOCH': '86400'}),
                  ('O2z', ['-O2', '-ftrivial-auto-var-init=zero'], {'SOURCE_DATE_EPOCH': '1000000000'}),
                  ('O2p', ['-O2', '-ftrivial-auto-var-init=pattern'], {'SOURCE_DATE_EPOCH': '1700000000'})]
            for v, fl, env in vs:
                for k in KINDS:
                    src = os.path.join(REPO, 'src', k + '_gen.cpp')
                    n = k + '.' + v
                    self.variants.append(n)
                    jobs.append(([CXX] + REPOFLAGS + fl + base + [src, fini, '-o', '%s/%s.so' % (w, n)], env))
        compile_all(jobs)
        self.so = []
        for k in KINDS:
            for c in range(COPIES):
                f = '%s/%s.%d.so' % (w, k, c)
                shutil.copy('%s/%s.so' % (w, k), f)
                self.so += ['--so', '%s=%s' % (k, f)]
        for n in self.variants:
            self.so += ['--so', '%s=%s/%s.so' % (n, w, n)]
        self.gold, self.prof, self.spots, self.tops = {}, {}, {}, {}
        self._sweep = []
        self.objs, self.olock, self.hlocks = {}, threading.Lock(), {}
        self.cmd0 = [w + '/gensim', '--dump', self.dump, '--timeout', '40' if ctx.prop == 'P24' else '150'] + self.so
        self.servers = []

    def golden(self):
        """The undisturbed output of each generator: reference for all comparisons."""
        def one(k):
            s = Server(self.cmd0)
            p = Plan('golden-' + k)
            p.gen(k)
            r = s.run(p, dump=True)
            s.close()
            return k, p, r
        bad = []
        with ThreadPoolExecutor(4) as ex:
            for k, p, r in ex.map(one, KINDS):
                g = r.get('gens', [{}])[0]
                t = p.target(0)
                if r.get('timeout') or g.get('st') != 'exit' or g.get('code') != 0 or t not in r['files']:
                    bad.append((k, p, r))
                    continue
                f = os.path.join(self.w, k + '.gold')
                shutil.copy(os.path.join(self.dump, r['files'][t]['hash']), f)
                self.gold[k] = f
                self.prof[k] = dict(g['cnt'], len=r['files'][t]['len'], hash=r['files'][t]['hash'])
                text = open(f, 'rb').read()
                self.spots[k], self.tops[k] = spots(text), toplevel(text)
        self.cmd = list(self.cmd0)
        for k, f in self.gold.items():
            self.cmd += ['--gold', '%s=%s' % (k, f)]
        return bad

    def sweep(self):
        if not self._sweep:
            tops = [(k, s + d) for k in KINDS for s in self.tops[k] for d in (0, 1)]
            self._sweep = tops + [x for x in ((k, s) for k in KINDS for s in self.spots[k]) if x not in tops]
        return self._sweep

    # what the compiler makes of a generated file: None if rejected, else {symbol: bytes}
    def compiled(self, h, path):
        with self.olock:
            lk = self.hlocks.setdefault(h, threading.Lock())
        with lk:
            if h in self.objs:
                return self.objs[h]
            o = os.path.join(self.w, 'obj-%s.o' % h)
            r = run([CXX, '-std=c++11', '-O0', '-w', '-x', 'c++', '-c', path, '-o', o])
            v = elf_objects(o) if r.returncode == 0 else None
            self.objs[h] = v
            return v

    def goldobj(self, k):
        return self.compiled(self.prof[k]['hash'], self.gold[k])

    def classify(self, kind, res, path, plan):
        """absent | gold | init | rejected | same | empty | wrong:<why>"""
        kind = kind.split('.')[0]
        f = res['files'].get(path)
        if f is None:
            return 'absent'
        if f.get('gold') == kind or f['hash'] == self.prof[kind]['hash']:
            return 'gold'
        if f['braces'] == 0:
            return 'init-rejected' if f['init'] else 'rejected'
        if f['init']:
            return 'init'
        return self.judge(kind, f['hash'])

    def judge(self, kind, h):
        path = os.path.join(self.dump, h)
        if not os.path.exists(path):
            return 'rejected'
        v = self.compiled(h, path)
        if v is None:
            return 'rejected'
        ref = self.goldobj(kind)
        if v == ref:
            return 'same'
        have = [k for k in ref if k in v]
        if not have:
            return 'empty'
        for k in ref:
            if k not in v:
                return 'wrong:table %s missing' % k
            if len(v[k]) != len(ref[k]):
                return 'wrong:table %s has %d bytes instead of %d' % (k, len(v[k]), len(ref[k]))
            if v[k] != ref[k]:
                i = next(i for i in range(len(ref[k])) if v[k][i] != ref[k][i])
                return 'wrong:table %s differs at byte %d' % (k, i)
        return 'same'

    def pool(self, n=NCPU):
        self.servers = [Server(self.cmd) for _ in range(n)]
        return self.servers


# --------------------------------------------------------------------------- plan generation
def pickkind(r, heavy=0.04):
    x = r.random()
    if x < heavy:
        return 'posit10'
    return r.choice(['posit8', 'posit12', 'posit12', 'binary8'])


def initfile(r, p, path, kind, ro=True):
    x = r.random()
    L = W.prof[kind]['len']
    ros = int(ro and r.random() < 0.08)
    s = r.getrandbits(40)
    if x < 0.30:
        return
    if x < 0.42:
        p.add('FILE', path, 'golden', kind, 0, s, ros)
    elif x < 0.55:
        p.add('FILE', path, 'altered', kind, r.randint(1, 40), s, ros)
    elif x < 0.70:
        p.add('FILE', path, 'prefix', kind, r.choice([0, 1, 19, 40, r.randint(0, L), L - 1, L - 2, L - 3]), s, ros)
    elif x < 0.78:
        p.add('FILE', path, 'longer', kind, r.choice([1, 100, 10000]), s, ros)
    elif x < 0.86:
        p.add('FILE', path, 'oldtail', kind, r.choice([1, 5, 10000]), s, ros)
    elif x < 0.91:
        p.add('FILE', path, 'hole', kind, 0, s, ros)
    elif x < 0.95:
        p.add('FILE', path, 'empty', '-', 0, s, ros)
    else:
        p.add('FILE', path, 'garbage', '-', r.choice([1, 300, 20000]), s, ros)


def memory(r, p, i):
    if r.random() < 0.6:
        p.add('STACK', i, r.getrandbits(48) | 1)
    if r.random() < 0.6:
        p.add('HEAP', i, r.getrandbits(48) | 1)


def chunking(r, p, i, prob=0.5):
    if r.random() < prob:
        lo = r.choice([1, 1, 64, 1000, 4096])
        hi = max(lo, r.choice([100, 512, 4096, 8191, 20000]))
        if p.gens[i]['kind'].startswith('posit10'):
            lo, hi = max(lo, 512), max(hi, 4096)
        p.add('CHUNK', i, r.getrandbits(40), lo, hi)
        return (lo + hi) / 2.0
    return 0


def nwrites(p, i, ch):
    k = p.gens[i]['kind'].split('.')[0]
    n = W.prof[k]['write']
    if ch:
        n = max(n, int(n * 1.1 + W.prof[k]['len'] / ch))
    return n


def somewhere(r, n):
    x = r.random()
    if x < 0.12:
        return 0
    if x < 0.40:
        return max(0, n - 1 - r.randint(0, 3))
    if x < 0.50:
        return r.randint(0, min(n, 12))
    return r.randint(0, max(0, n - 1))


def storefault(r, p, i, ch, memory=True):
    """A storage or memory failure for process i."""
    n = nwrites(p, i, ch)
    k = p.gens[i]['kind'].split('.')[0]
    x = r.random()
    if x < 0.13:
        p.add('FAULT', i, 'open', 0, 'err', r.choice([E['EACCES'], E['ENOSPC'], E['EROFS'], E['EMFILE'], E['ENFILE'], E['EIO'], E['EISDIR'], E['ENOENT']]),
              r.choice([1, 1, -1]))
    elif x < 0.58:
        p.add('FAULT', i, 'write', somewhere(r, n), 'err', r.choice([E['ENOSPC'], E['ENOSPC'], E['EIO'], E['EDQUOT'], E['EFBIG'], E['EPIPE']]),
              r.choice([1, 1, 2, 5, -1, -1]))
    elif x < 0.68:
        L = W.prof[k]['len']
        p.add('DISKCAP', r.choice([0, 1, L - 1, L - 2, r.randint(0, L), r.randint(0, L), L // 2]))
    elif x < 0.84:
        p.add('FAULT', i, 'close', 0, 'closelose', r.choice([E['EIO'], E['ENOSPC'], E['EDQUOT']]), r.choice([1, 3, 100, 4096, 8191, 100000]))
    elif x < 0.94 and memory:
        p.add('FAULT', i, 'alloc', r.randint(0, max(3, W.prof[k]['alloc'])), 'err', E['ENOMEM'], r.choice([1, 1, 1000000, -1]))
    else:
        p.add('FAULT', i, 'fsync', 0, 'err', E['EIO'], -1)
        p.add('FAULT', i, 'write', somewhere(r, n), 'err', E['EIO'], 1)


def killfault(r, p, i, ch):
    n = nwrites(p, i, ch)
    x = r.random()
    k = p.gens[i]['kind'].split('.')[0]
    if r.random() < 0.3:
        # right where one construct of the file ends and the next begins
        sp = W.spots[k]
        p.add('FAULT', i, 'write', -1, 'crashoff', max(0, r.choice(sp) + r.choice([0, 0, 0, 0, -1, 1, 2, -2])) if sp and r.random() < 0.9 else r.randint(0, W.prof[k]['len']), 0)
        return
    if x < 0.06:
        p.add('FAULT', i, 'open', 0, r.choice(['crash', 'crashafter']), 0, 0)
    elif x < 0.30:
        p.add('FAULT', i, 'write', somewhere(r, n), 'crash', 0, 0)
    elif x < 0.52:
        p.add('FAULT', i, 'write', somewhere(r, n), 'crashafter', 0, 0)
    elif x < 0.88:
        p.add('FAULT', i, 'write', somewhere(r, n), 'crashpart', r.choice([0, 1, 2, 3, 7, r.randint(0, 8192), r.randint(0, 600)]), 0)
    elif x < 0.95:
        p.add('FAULT', i, 'close', 0, r.choice(['crash', 'crashafter']), 0, 0)
    else:
        p.add('FAULT', i, r.choice(['rename', 'unlink', 'fsync', 'read']), 0, r.choice(['crash', 'crashafter']), 0, 0)
        p.add('FAULT', i, 'write', somewhere(r, n), 'crash', 0, 0)


def environment(r, p):
    if r.random() < 0.5:
        p.add('ENVANY', r.getrandbits(40) | 1)
    if r.random() < 0.5:
        p.add('LAYOUT', r.getrandbits(30) | 1)
    if r.random() < 0.7:
        p.add('CLOCK', r.choice([0, 1, 951782400, 1582934400, 1893456000, 4102444800, r.randint(0, 2**33)]))
    if r.random() < 0.7:
        p.add('PID', r.randint(1, 4000000))
    if r.random() < 0.5:
        p.add('RND', r.getrandbits(40))
    for v in ['HOME=/nowhere', 'USER=u%d' % r.randint(0, 99), 'LANG=C.UTF-8', 'LC_ALL=POSIX', 'TMPDIR=/tmp', 'TZ=Asia/Kolkata', 'COLUMNS=40', 'POSIXLY_CORRECT=1',
              'MALLOC_PERTURB_=85', 'SOURCE_DATE_EPOCH=12345', 'DEBUG=1', 'VERBOSE=1', 'NDEBUG=1', 'OMP_NUM_THREADS=3']:
        if r.random() < 0.25:
            p.add('ENV', v)


def argform(r, p, kind, epoch=0):
    x = r.random()
    if x < 0.35:
        i = p.gen(kind, epoch)
    elif x < 0.55:
        i = p.gen(kind, epoch, hasarg=False)
    elif x < 0.75:
        i = p.gen(kind, epoch, arg=kind.split('.')[0] + '_tbl.cpp')
    elif x < 0.85:
        p.add('DIR', '/w/sub')
        i = p.gen(kind, epoch, arg='sub/' + r.choice(['t.cpp', 'posit8_tbl.cpp', 'x']))
    elif x < 0.93:
        p.add('DIR', '/out')
        i = p.gen(kind, epoch, arg=r.choice(['/out/posit10_tbl.cpp', '/out/../out/tbl', '/out/a.b.c']))
    else:
        i = p.gen(kind, epoch, arg=r.choice(['-o', 'posit12_tbl.cpp', 'table', '--help', './z.cpp']))
    if r.random() < 0.2:
        p.gens[i]['arg0'] = r.choice(['/usr/local/bin/gen', './a.out', 'x'])
    return i


def plan_P01(r, rid):
    p = Plan(rid)
    k = pickkind(r)
    i = argform(r, p, k) if r.random() < 0.3 else p.gen(k)
    if r.random() < 0.04:
        p.add('DIR', p.target(i))
    elif r.random() < 0.04:
        p.gens[i].update(hasarg=True, arg='/missing/dir/t.cpp')
    initfile(r, p, p.target(i), k)
    memory(r, p, i)
    ch = chunking(r, p, i, 0.35)
    if r.random() < 0.95:
        storefault(r, p, i, ch, False)
        if r.random() < 0.2:
            storefault(r, p, i, ch, False)
    return p


def plan_P02(r, rid):
    p = Plan(rid)
    n = int(rid.rsplit('-', 1)[1])
    # every boundary between constructs of every file is a kill point in some early run, those outside all braces first
    sweep = W.sweep()
    if n % 4 == 0 and n // 4 < len(sweep):
        k, s = sweep[n // 4]
        i = p.gen(k)
        initfile(r, p, p.target(i), k, ro=False)
        memory(r, p, i)
        p.add('FAULT', i, 'write', -1, 'crashoff', s, 0)
        return p
    k = pickkind(r)
    i = p.gen(k)
    initfile(r, p, p.target(i), k, ro=False)
    memory(r, p, i)
    ch = chunking(r, p, i, 0.4)
    killfault(r, p, i, ch)
    return p


def plan_P03(r, rid):
    p = Plan(rid)
    k = pickkind(r, 0.02)
    arg = r.choice(['/w/%s_tbl.cpp' % k, '/w/%s_tbl.cpp' % k, k + '_tbl.cpp'])
    hasarg = r.random() < 0.8
    if not hasarg:
        arg = k + '_tbl.cpp'
    nep = r.choice([0, 1, 1, 2, 3])
    for e in range(nep):
        m = 2 if (r.random() < 0.25 and len(p.gens) + 2 < COPIES) else 1
        ids = [p.gen(k, e, hasarg, arg) for _ in range(m)]
        for i in ids:
            memory(r, p, i)
            ch = chunking(r, p, i, 0.3)
            if r.random() < 0.75:
                killfault(r, p, i, ch)
            else:
                n0 = len(p.atoms)
                storefault(r, p, i, ch)
                # a disk-capacity limit would persist into the undisturbed run
                p.atoms = [a for a in p.atoms if a[0] != 'DISKCAP']
                if len(p.atoms) == n0:
                    killfault(r, p, i, ch)
        if m == 2:
            switches(r, p, ids)
    i = p.gen(k, nep, hasarg, arg)
    memory(r, p, i)
    initfile(r, p, p.target(i), k, ro=False)
    if r.random() < 0.3:
        p.add('CLOCK', r.choice([0, 4102444800]))
    return p


def plan_P04(r, rid):
    p = Plan(rid)
    if W.variants and r.random() < 0.25:
        k = r.choice(W.variants if r.random() < 0.1 else [v for v in W.variants if not v.startswith('posit10')])
    else:
        k = pickkind(r)
    i = argform(r, p, k)
    k0 = k.split('.')[0]
    initfile(r, p, p.target(i), k0, ro=False)
    memory(r, p, i)
    ch = chunking(r, p, i, 0.5)
    environment(r, p)
    if r.random() < 0.35:
        p.add('STDCLOSED', i, r.choice([1, 2, 3, 4, 4, 5, 6, 7, 7]))
    n = nwrites(p, i, ch)
    for _ in range(r.choice([0, 0, 1, 2, 5])):
        p.add('FAULT', i, 'write', somewhere(r, n), r.choice(['eintr', 'short']), r.choice([1, 2, 100]), 0)
    if r.random() < 0.3:
        c = r.choice(['/w', '/home/u/build', '/x'])
        p.add('CWD', c)
        p.add('DIR', c + '/sub')
    return p


def switches(r, p, ids):
    style = r.random()
    for i in ids:
        n = W.prof[p.gens[i]['kind']]['write'] + 3
        if n > 400:
            pts = [r.randint(0, n) for _ in range(r.randint(1, 60))]
        elif style < 0.35:
            pts = [somewhere(r, n) for _ in range(r.randint(1, 4))]
        elif style < 0.75:
            pr = r.choice([0.05, 0.2, 0.5])
            pts = [e for e in range(n) if r.random() < pr]
        else:
            pts = list(range(0, r.randint(1, 10))) + list(range(max(0, n - r.randint(1, 8)), n))
        for e in set(pts):
            t = r.choice(ids)
            if t != i:
                p.add('SWITCH', i, e, t)


def plan_stopped(r, p):
    """The first process is stopped at some event (holding whatever it holds), others of the same and of other targets run, and it is killed
    without ever running again: everything the others do comes after its last operation, so their tables must be complete."""
    k = pickkind(r, 0.02)
    a = p.gen(k, 0, arg='/w/%s_tbl.cpp' % k)
    ids = [p.gen(k, 0, arg='/w/%s_tbl.cpp' % k) for _ in range(r.choice([1, 1, 2]))]
    if r.random() < 0.3:
        k2 = r.choice([x for x in ('posit12', 'binary8', 'posit8') if x != k])
        ids.append(p.gen(k2))
    for i in [a] + ids:
        memory(r, p, i)
        chunking(r, p, i, 0.25)
    if r.random() < 0.3:
        initfile(r, p, p.target(a), k, ro=False)
    n = W.prof[k]['write'] + 3
    p.add('STOP', a, r.choice([somewhere(r, n), r.randint(0, 6), r.randint(0, n), r.randint(max(0, n - 8), n + 8)]), r.choice(ids))
    if len(ids) > 1:
        switches(r, p, ids)
    return p


def plan_P24(r, rid):
    """Whatever mix of transient and lasting failures a process meets, it ends."""
    p = Plan(rid)
    k = pickkind(r, 0.03)
    arg = '/w/%s_tbl.cpp' % k
    i = argform(r, p, k) if r.random() < 0.3 else p.gen(k, arg=arg)
    ids = [i]
    x = r.random()
    if x < 0.04:
        p.add('DIR', p.target(i))
    elif x < 0.08:
        p.gens[i].update(hasarg=True, arg='/missing/dir/t.cpp')
    elif x < 0.25:
        ids += [p.gen(k, 0, hasarg=p.gens[i]['hasarg'], arg=p.gens[i]['arg']) for _ in range(r.choice([1, 1, 2]))]
    elif x < 0.35:
        # after an earlier run was killed or failed
        p.gens[i]['epoch'] = 1
        j = p.gen(k, 0, hasarg=p.gens[i]['hasarg'], arg=p.gens[i]['arg'])
        (killfault if r.random() < 0.7 else storefault)(r, p, j, 0)
        ids.append(j)
    initfile(r, p, p.target(i), k)
    sw = len(ids) > 1 and p.gens[i]['epoch'] == 0
    for j in ids:
        memory(r, p, j)
        ch = chunking(r, p, j, 0.4)
        n = nwrites(p, j, ch)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            storefault(r, p, j, ch)
        if r.random() < 0.3:
            # bursts of interruptions, short of a lasting one
            p.add('FAULT', j, r.choice(['write', 'write', 'open', 'close', 'other', 'fsync']), r.choice([0, somewhere(r, n)]), 'err', r.choice([E['EINTR'], E['EINTR'], 11]), r.choice([2, 20, 300]))
        if r.random() < 0.2:
            p.add('FAULT', j, r.choice(['rename', 'unlink', 'fsync', 'read', 'other', 'close']), r.choice([0, 0, 1]), 'err', r.choice([E['EIO'], E['EACCES'], E['ENOSPC'], E['EINTR']][:3]), r.choice([1, -1]))
        for _ in range(r.choice([0, 0, 0, 2, 6])):
            p.add('FAULT', j, 'write', somewhere(r, n), r.choice(['eintr', 'short']), r.choice([1, 2, 100]), 0)
        if sw and r.random() < 0.2:
            killfault(r, p, j, ch)
    if sw:
        switches(r, p, ids)
    if r.random() < 0.2:
        environment(r, p)
    return p


def patience(plan):
    """Storage operations after which a process counts as one that never ends: far beyond what any retrying implementation needs."""
    n = 4000
    for i, g in enumerate(plan.gens):
        pr = W.prof[g['kind'].split('.')[0]]
        ch = [a for a in plan.atoms if a[0] == 'CHUNK' and a[1] == i]
        n += 20 * (sum(pr[o] for o in pr if o not in ('len', 'hash', 'alloc')) + (2 * pr['len'] // ch[0][3] if ch else 0))
        n += 20 * sum(a[5] for a in plan.atoms if a[0] == 'FAULT' and a[1] == i and a[4] == 'err' and a[5] > 0 and a[2] != 'alloc')
    return n


def plan_P05(r, rid):
    p = Plan(rid)
    if r.random() < 0.25:
        return plan_stopped(r, p)
    same = r.random() < 0.4
    if same:
        k = pickkind(r, 0.02)
        m = r.choice([2, 2, 3])
        ids = [p.gen(k, 0, arg='/w/%s_tbl.cpp' % k) for _ in range(m)]
        if r.random() < 0.4:
            k2 = r.choice(['posit12', 'binary8', 'posit8'])
            if k2 != k:
                ids.append(p.gen(k2))
        dist = False
    else:
        ks = ['posit8', 'posit12', 'binary8']
        r.shuffle(ks)
        ks = ks[:r.choice([2, 3, 3])]
        if r.random() < 0.06:
            ks.append('posit10')
        ids = []
        for k in ks:
            ids.append(p.gen(k, 0, hasarg=r.random() < 0.6))
        dist = True
        if r.random() < 0.3:
            k = r.choice(ks)
            if k != 'posit10':
                ids.append(p.gen(k, 0, arg='/w/second_%s.cpp' % k))
    for i in ids:
        memory(r, p, i)
        chunking(r, p, i, 0.25)
        if r.random() < 0.3:
            if not p.init(p.target(i)):
                initfile(r, p, p.target(i), p.gens[i]['kind'], ro=False)
    if dist and r.random() < 0.5:
        i = r.choice(ids)
        (killfault if r.random() < 0.6 else storefault)(r, p, i, 0)
        p.atoms = [a for a in p.atoms if a[0] != 'DISKCAP']
    switches(r, p, ids)
    return p


NEAR = ['.o', '.d', '.h', '.hpp', '.inc', '.a', '.s', '.ii', '.gch', '.cc', '.c', '.txt', '.json', '', '.cpp.tmp', '.cpp.bak', '.cpp.orig', '.cpp.old', '.cpp.new', '.cpp.part',
        '.cpp.lock', '.cpp.swp', '.cpp~', '.cpp.1', '.cpp.o', '.cpp.d', '.tmp', '.bak', '.lock', '.old', '.new', '~']


def neighbours(r, p, t):
    """Files a user may keep beside the target: same stem with other extensions, editor and build leftovers, hidden names."""
    d, b = os.path.split(t)
    stem = b.rsplit('.', 1)[0]
    names = ['%s%s' % (stem, x) for x in NEAR] + [b + x for x in NEAR if x.startswith('.') or x == '~'] + ['.' + b, '.%s.swp' % b, '#%s#' % b, '_' + b, 'tmp_' + b, b + '.0', stem + '2.cpp']
    return [d.rstrip('/') + '/' + n for n in sorted(set(names)) if n != b and r.random() < 0.5]


BYST = ['/w/notes.txt', '/w/posit8_tbl.cpp', '/w/posit10_tbl.cpp', '/w/posit12_tbl.cpp', '/w/binary8_tbl.cpp', '/w/posit8_tbl.cpp.tmp', '/w/posit12_tbl.cpp.bak',
        '/w/posit8_tbl.cpp~', '/w/posit8.hpp', '/w/sub/posit12_tbl.cpp', '/w/tmp', '/tmp/table.tmp', '/w/binary8_tbl.h', '/w/table.tmp', '/w/out.cpp', '/w/posit10_tbl.cpp.lock',
        '/w/.lock', '/w/posit16_tbl.cpp', '/w/float16_tbl.cpp']


def plan_P06(r, rid):
    p = Plan(rid)
    k = pickkind(r, 0.03)
    i = argform(r, p, k)
    if not any(a[0] == 'DIR' and a[1] == '/w/sub' for a in p.atoms):
        p.add('DIR', '/w/sub')
    dirs = set(a[1] for a in p.atoms if a[0] == 'DIR')
    for b in [b for b in BYST if r.random() < 0.5] + neighbours(r, p, p.target(i)):
        if b != p.target(i) and not p.init(b) and b not in dirs:
            x = r.random()
            kk = 'posit12'
            if x < 0.3:
                p.add('FILE', b, 'golden', kk, 0, 1, 0)
            elif x < 0.6:
                p.add('FILE', b, 'garbage', '-', r.randint(1, 2000), r.getrandbits(30), 0)
            else:
                p.add('FILE', b, 'prefix', kk, r.randint(0, 20000), 1, 0)
    initfile(r, p, p.target(i), k)
    memory(r, p, i)
    ch = chunking(r, p, i, 0.3)
    x = r.random()
    if x < 0.45:
        storefault(r, p, i, ch)
    elif x < 0.8:
        killfault(r, p, i, ch)
    if r.random() < 0.3:
        environment(r, p)
    return p


PLANS = dict(P01=plan_P01, P02=plan_P02, P03=plan_P03, P04=plan_P04, P05=plan_P05, P06=plan_P06, P07=plan_P04, P24=plan_P24)


# --------------------------------------------------------------------------- oracles
def hung(res):
    return res.get('timeout') or any(g['st'] == 'hung' for g in res['gens'])


def judge(prop, plan, res):
    """None, or (kind, text) of the violation."""
    if res.get('timeout'):
        if prop in ('P02', 'P06'):
            return None
        if prop == 'P24':
            return 'endless', 'a generator computes without end after a failure'
        return 'hang', 'a generator did not finish'
    gens = res['gens']
    if prop == 'P01':
        g, t = gens[0], plan.target(0)
        if g['st'] == 'hung':
            return 'hang', 'generator never ends after a storage failure'
        if g['st'] == 'exit' and g['code'] == 0:
            c = W.classify(g['kind'], res, t, plan)
            if c not in ('gold', 'same'):
                return 'status', '%s exits 0 but %s is %s (faults delivered: %s)' % (g['kind'], t, c, json.dumps(g['fired']))
    elif prop == 'P02':
        g, t = gens[0], plan.target(0)
        if g['st'] != 'killed':
            return None
        c = W.classify(g['kind'], res, t, plan)
        if c.startswith('wrong'):
            return 'accepted', '%s killed (%s): %s compiles but %s' % (g['kind'], json.dumps(g['fired']), t, c[6:])
    elif prop == 'P03':
        last = len(gens) - 1
        g, t = gens[last], plan.target(last)
        if g['st'] != 'exit' or g['code'] != 0:
            return 'rerun', 'undisturbed re-run of %s ends with %s %s' % (g['kind'], g['st'], g['code'])
        c = W.classify(g['kind'], res, t, plan)
        if c != 'gold':
            return 'rerun', 'undisturbed re-run of %s leaves %s %s' % (g['kind'], t, c)
    elif prop == 'P04':
        g, t = gens[0], plan.target(0)
        if g['st'] != 'exit' or g['code'] != 0:
            return 'env', '%s ends with %s %s although nothing failed (%s)' % (g['kind'], g['st'], g['code'], json.dumps(g['fired']))
        c = W.classify(g['kind'], res, t, plan)
        if c != 'gold':
            return 'env', '%s writes different bytes (%s) in this environment' % (g['kind'], c)
    elif prop == 'P05':
        dis = set(a[1] for a in plan.atoms if a[0] in ('FAULT', 'STOP'))
        for i, g in enumerate(gens):
            if i in dis:
                continue
            t = plan.target(i)
            if g['st'] != 'exit' or g['code'] != 0:
                return 'parallel', 'undisturbed %s (process %d) ends with %s %s' % (g['kind'], i, g['st'], g['code'])
            c = W.classify(g['kind'], res, t, plan)
            if c not in ('gold', 'same'):
                return 'parallel', 'table of undisturbed %s (process %d) at %s is %s' % (g['kind'], i, t, c)
    elif prop == 'P24':
        for g in gens:
            if g['st'] == 'hung':
                return 'endless', '%s never ends (%s)' % (g['kind'], json.dumps(g['fired'])[:200])
            if g['st'] not in ('exit', 'killed', 'signal'):
                return 'endless', '%s is left waiting (%s)' % (g['kind'], g['st'])
        if res['events'] > patience(plan):
            return 'endless', '%d storage operations, %d would be ample' % (res['events'], patience(plan))
    elif prop == 'P06':
        t = plan.target(0)
        for m in res['mut']:
            _, op, path = m.split(' ', 2)
            if path != t:
                return 'touch', '%s: %s of %s, target is %s' % (gens[0]['kind'], op, path, t)
        for path, f in res['files'].items():
            if path != t and not f['init']:
                return 'touch', '%s: file %s appeared or changed, target is %s' % (gens[0]['kind'], path, t)
        for path in res['gone']:
            if path != t:
                return 'touch', '%s: file %s vanished' % (gens[0]['kind'], path)
        if gens[0]['st'] == 'exit' and gens[0]['code'] == 0 and t not in res['files']:
            return 'touch', '%s exits 0 but did not create %s' % (gens[0]['kind'], t)
    return None


# --------------------------------------------------------------------------- table verification (P07, P01)
def verify_tables(ctx, texts, tag):
    """texts: {kind: path of generated source}. Compiles and loads them under the real tabulated types.
    Returns (checked, [mismatch lines], build error or None)."""
    w = os.path.join(ctx.work, 'vt-' + tag)
    os.makedirs(w, exist_ok=True)
    jobs, objs = [], {}
    for k, f in texts.items():
        c = os.path.join(w, k + '_tbl.cpp')
        shutil.copy(f, c)
        jobs.append([CXX] + REPOFLAGS + ['-O0', '-w', '-c', c, '-o', c[:-4] + '.o'])
    srcs = [('vt_posit', os.path.join(SIM, 'vt_posit.cpp')), ('vt_binary8', os.path.join(SIM, 'vt_binary8.cpp'))]
    srcs += [(k, os.path.join(REPO, 'src', k + '.cpp')) for k in KINDS]
    for n, s in srcs:
        jobs.append([CXX] + REPOFLAGS + ['-O2', '-w', '-c', s, '-o', os.path.join(w, n + '.o')])
    try:
        compile_all(jobs)
        o = lambda *n: [os.path.join(w, x + '.o') for x in n]
        compile_all([[CXX] + o('vt_posit', 'posit8', 'posit10', 'posit12', 'posit8_tbl', 'posit10_tbl', 'posit12_tbl') + ['-o', w + '/vp'],
                     [CXX] + o('vt_binary8', 'binary8', 'binary8_tbl') + ['-o', w + '/vb']])
    except BuildError as e:
        return 0, [], str(e)
    tot, bad = 0, []
    for c in ([w + '/vp', 'posit8', 'posit10', 'posit12'], [w + '/vb']):
        r = run(c)
        n = 0
        for l in r.stdout.splitlines():
            if l.startswith('MISMATCH'):
                bad.append(l)
            if l.startswith('CHECKED'):
                n = int(l.split()[1])
        tot += n
        if r.returncode != 0 and not n:
            bad.append('MISMATCH verifier %s died with %d on these tables' % (os.path.basename(c[0]), r.returncode))
    return tot, bad, None


# --------------------------------------------------------------------------- the check
QUICK = dict(P01=5000, P02=4000, P03=2500, P04=2500, P05=2000, P06=5000, P07=500, P24=5000)
BUDGET = dict(quick=30, thorough=700)


def fails_same(prop, kind, server_cmd):
    def f(plan):
        s = Server(server_cmd)
        try:
            res = s.run(plan)
            v = judge(prop, plan, res)
        except SimError:
            return None
        finally:
            s.close()
        return (v, res) if v and v[0] == kind else None
    return f


def minimise(ctx, plan, v):
    test = fails_same(ctx.prop, v[0], W.cmd)
    best = plan
    for i in reversed(range(len(plan.gens) - (1 if ctx.prop == 'P03' else 0))):
        if len(best.gens) > 1:
            c = best.dropgen(i)
            if test(c):
                best = c
    fixed = [a for a in best.atoms if a[0] in ('DIR', 'CWD')]
    atoms = ddmin([a for a in best.atoms if a not in fixed], lambda a: test(best.copy(fixed + a)) is not None, budget=25)
    best = best.copy(fixed + atoms)
    r = test(best)
    return (best, r[0], r[1]) if r else (plan, v, None)


def report(ctx, plan, v, res, stats):
    best, v2, res2 = minimise(ctx, plan, v)
    # gate: two more runs in fresh simulator processes must reproduce the violation
    test = fails_same(ctx.prop, v[0], W.cmd)
    a, b = test(best), test(best)
    if not a or not b:
        a, b = test(plan), test(plan)
        best, v2 = plan, v
        if not a or not b:
            return None
    exact = a[1].get('trace') == b[1].get('trace') and {k: f['hash'] for k, f in a[1].get('files', {}).items()} == {k: f['hash'] for k, f in b[1].get('files', {}).items()}
    path = ctx.replay_path()
    with open(path, 'w') as f:
        json.dump(dict(engine='gensim', property=ctx.prop, seed=ctx.seed, run=plan.id, violation=list(v2), plan=best.tojson(), trace=a[1].get('trace'), exact=exact,
                       original_atoms=len(plan.atoms), minimised_atoms=len(best.atoms)), f, indent=1)
    ctx.log('violation: %s' % v2[1])
    ctx.log('minimised plan (%d of %d decisions, seed %d run %s):' % (len(best.atoms), len(plan.atoms), ctx.seed, plan.id))
    for l in best.text().splitlines():
        print('    ' + l)
    if not exact:
        ctx.log('note: bytes differ between replays: the generator draws on something outside the simulated environment')
    print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
    return path


def check(ctx):
    global W
    prop = ctx.prop
    W = GenWorld(ctx, variants=(prop == 'P04'))
    ctx.log('built simulator and generators')
    bad = W.golden()
    for k, p, r in bad:
        if prop in ('P03', 'P04', 'P05'):
            v = ('undisturbed', 'undisturbed run of %s_gen: %s' % (k, json.dumps(r.get('gens', r))[:300]))
            path = ctx.replay_path()
            json.dump(dict(engine='gensim', property=prop, violation=list(v), plan=p.tojson(), seed=ctx.seed), open(path, 'w'))
            ctx.log(v[1])
            ctx.evidence(dict(evaluations=1, distinct_nontrivial=0, rule=RULE, samples=[p.text()]), violations=1)
            print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
            return 1
        raise SimError('undisturbed run of %s fails: %s' % (k, r))
    ctx.log('golden: ' + ', '.join('%s %d bytes %d writes' % (k, v['len'], v['write']) for k, v in W.prof.items()))
    vt = None
    if prop in ('P01', 'P07'):
        ex = ThreadPoolExecutor(1)
        vt = ex.submit(verify_tables, ctx, dict(W.gold), 'gold')
    N = QUICK[prop] * (1 if ctx.tier == 'quick' else 60)
    tmax = ctx.elapsed() + BUDGET[ctx.tier] * (0.6 if prop == 'P07' and ctx.tier == 'quick' else 1)
    st = dict(runs=0, events=0, switches=0, fired={}, traces=set(), nontriv=set(), scheds=set(), kinds={}, ends={}, dup=0, dupbad=0, envs=0)
    lock = threading.Lock()
    nexti = [0]
    found = []
    samples = []
    distinct = {}
    errors = []

    def worker(server):
        while not found and not errors:
            with lock:
                i = nexti[0]
                if i >= N or time.time() - ctx.t0 > tmax:
                    return
                nexti[0] += 1
            plan = PLANS[prop](ctx.rng('run', i), '%s-%d-%d' % (prop, ctx.seed, i))
            try:
                res = server.run(plan)
                v = judge(prop, plan, res) if prop != 'P07' else None
                if i % 23 == 0:
                    r2 = server.run(plan)
                    with lock:
                        st['dup'] += 1
                        if r2.get('trace') != res.get('trace') or r2.get('files') != res.get('files'):
                            st['dupbad'] += 1
            except Exception as e:
                errors.append('run %s: %r' % (plan.id, e))
                return
            with lock:
                st['runs'] += 1
                st['events'] += res.get('events', 0)
                st['switches'] += res.get('switches', 0)
                nt = res.get('switches', 0) > 0 or any(a[0] in ('ENV', 'CLOCK', 'PID', 'STACK', 'HEAP', 'FILE', 'STDCLOSED') for a in plan.atoms)
                for g in res.get('gens', []):
                    st['kinds'][g['kind']] = st['kinds'].get(g['kind'], 0) + 1
                    e = g['st'] + (str(g['code']) if g['st'] == 'exit' else '')
                    st['ends'][e] = st['ends'].get(e, 0) + 1
                    for f, c in g['fired'].items():
                        st['fired'][f] = st['fired'].get(f, 0) + c
                        nt = True
                for a in plan.atoms:
                    if a[0] in ('ENV', 'CLOCK', 'PID', 'STACK', 'HEAP', 'FILE', 'CWD', 'RND', 'DIR', 'ENVANY', 'LAYOUT', 'STDCLOSED'):
                        kk = 'env:' + a[0].lower() + (('-' + a[2]) if a[0] == 'FILE' else '')
                        st['fired'][kk] = st['fired'].get(kk, 0) + 1
                st['traces'].add(res.get('trace'))
                st['scheds'].add(res.get('sched'))
                if nt:
                    st['nontriv'].add((res.get('trace'), tuple(sorted((k, f['hash']) for k, f in res.get('files', {}).items()))))
                if i < 3:
                    samples.append(plan.text())
                if prop == 'P07':
                    g, t = res['gens'][0], plan.target(0)
                    f = res['files'].get(t)
                    if g['st'] == 'exit' and g['code'] == 0 and f and f.get('gold') != g['kind']:
                        distinct.setdefault((g['kind'], f['hash']), plan)
                if v:
                    found.append((i, plan, v, res))

    servers = W.pool()
    ths = [threading.Thread(target=worker, args=(s,)) for s in servers]
    t1 = time.time()
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for s in servers:
        s.close()
    dt = time.time() - t1
    rc = 0
    nviol = 0
    path = None
    extra = {}
    if found:
        found.sort(key=lambda x: x[0])
        for i, plan, v, res in found[:4]:
            path = report(ctx, plan, v, res, st)
            if path:
                rc, nviol = 1, 1
                break
        if not rc:
            errors.append('violation of run %s did not reproduce: %s' % (found[0][1].id, found[0][2]))
    if vt and not rc:
        sets = [('undisturbed run', vt.result(), None)]
        for (k, h), plan in list(distinct.items())[:4]:
            texts = dict(W.gold)
            f = os.path.join(W.dump, h)
            if os.path.exists(f):
                texts[k] = f
                sets.append(('run %s' % plan.id, verify_tables(ctx, texts, h), plan))
        for name, (n, mm, err), plan in sets:
            extra['operand_cases_compared'] = extra.get('operand_cases_compared', 0) + n
            if err and not mm:
                if plan is None:
                    raise BuildError(err)
                mm = ['generated tables do not build: ' + err[-300:]]
            if mm:
                rc, nviol = 1, len(mm)
                path = ctx.replay_path()
                pl = plan
                if pl is None:
                    pl = Plan('golden')
                    for k in KINDS:
                        pl.gen(k)
                json.dump(dict(engine='gensim-tables', property=prop, seed=ctx.seed, plan=pl.tojson(), violation=['tables', mm[0]], mismatches=mm[:40]), open(path, 'w'), indent=1)
                for l in mm[:10]:
                    ctx.log(l)
                print('VIOLATION property=%s replay=%s' % (prop, path), flush=True)
                break
    cov = dict(evaluations=st['runs'], distinct_nontrivial=len(st['nontriv']), rule=RULE, samples=samples,
               seeds='run seed = sha256(property, VERIF_SEED=%d, run index 0..%d)' % (ctx.seed, nexti[0] - 1),
               runs_per_hour=int(st['runs'] / max(dt, 1e-3) * 3600), simulated_seconds=round(st['events'] * 1.000003e-3, 1),
               simulated_time_note='one storage event = 1 ms of simulated time', storage_events=st['events'], process_switches=st['switches'],
               distinct_traces=len(st['traces']), distinct_interleavings=len(st['scheds']), faults_injected=dict(sorted(st['fired'].items())),
               process_endings=st['ends'], generator_processes=st['kinds'], determinism_reruns=st['dup'], determinism_mismatches=st['dupbad'],
               components_real=REAL, components_stub=STUB)
    cov.update(extra)
    ctx.evidence(cov, assumptions=['process-kill crash model: bytes handed to the kernel before the kill survive in order (no power-loss reordering)',
                                   'the host g++ decides which files a compiler accepts',
                                   'reference bytes are those of an undisturbed run of the same tree' + (' and are themselves compared with the untabulated types' if vt else '')],
                 violations=nviol)
    ctx.log('%d runs (%d distinct non-trivial), %d events, %d switches, %.0f runs/s, reruns %d mismatching %d' %
            (st['runs'], len(st['nontriv']), st['events'], st['switches'], st['runs'] / max(dt, 1e-3), st['dup'], st['dupbad']))
    if rc == 0 and errors:
        raise SimError(errors[0])
    if rc == 0 and st['dupbad']:
        raise SimError('%d of %d repeated runs differed: the simulation is not deterministic on this tree' % (st['dupbad'], st['dup']))
    return rc


def replay(ctx, d):
    global W
    W = GenWorld(ctx, variants=any('.' in g['kind'] for g in d['plan']['gens']))
    W.golden()
    plan = Plan.fromjson(d['plan'])
    if d['engine'] == 'gensim-tables':
        s = Server(W.cmd)
        res = s.run(plan, dump=True)
        s.close()
        texts = dict(W.gold)
        for i, g in enumerate(res['gens']):
            f = res['files'].get(plan.target(i))
            if f:
                texts[g['kind'].split('.')[0]] = os.path.join(W.dump, f['hash'])
        n, mm, err = verify_tables(ctx, texts, 'replay')
        print('\n'.join(mm[:20]) or err or 'tables agree (%d cases)' % n)
        return 1 if mm or err else 0
    print(plan.text())
    s = Server(W.cmd)
    res = s.run(plan)
    s.close()
    v = judge(d['property'], plan, res)
    print(json.dumps(res, indent=1)[:4000])
    print('trace hash %s (recorded %s)' % (res.get('trace'), d.get('trace')))
    if v:
        print('REPRODUCED: ' + v[1])
        return 1
    print('not reproduced')
    return 0
