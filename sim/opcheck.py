"""Checks P08-P19: the library's operations under a deterministic scheduler and fault injector (see ops/opsim.cpp)."""
import json, os, signal, subprocess, threading, time
from vlib import *

OPS = os.path.join(SIM, 'ops')
UNITS = ['op_posit1', 'op_posit2', 'op_posit3', 'op_positmul', 'op_tab', 'op_positf', 'op_unpacked', 'op_binary']
TABS = ['posit8', 'posit10', 'posit12', 'binary8']
VARIANTS = ['0', '2']
RULE = {
    'threads': 'One evaluation is one simulated run: a fresh process in which 2-4 simulated threads execute seeded operations; at every memory access to shared memory, function boundary and lock operation the seeded scheduler decides who runs. Non-trivial = at least one switch of thread inside an operation.',
    'history': 'One evaluation is one seeded history of 2 to 300000 operations in a fresh process, each result compared with the result of the same call alone in a fresh process, or a wide history of 500 to 24000 distinct operations executed in two orders in two processes whose results must agree. Every history of two or more operations counts as non-trivial.',
    'interrupt': 'One evaluation is one simulated run in which seeded operations are interrupted at seeded memory accesses by other operations on the same thread, up to three deep. Non-trivial = at least one interruption happened.',
    'round': 'One evaluation is one simulated run of 12-35 operations, each under a seeded rounding mode, half of them with further mode changes at seeded memory accesses inside the operation. Non-trivial = at least one change happened.',
    'garbage': 'One evaluation is one simulated run of 12-35 operations before and inside which dead stack, call-clobbered registers and fresh heap blocks are filled with seeded garbage. Non-trivial = at least one fill happened.',
    'alloc': 'One evaluation is one simulated run of 12-35 operations during each of which every memory allocation from a seeded point on fails. Non-trivial = allocation failure was in force during the operations (an operation that allocates nothing passes it by construction).',
    'flip': 'One evaluation is one simulated run of 12-35 table operations on values whose surplus bits were flipped by a seeded plan; all reads of global memory are checked against the tables the uncorrupted call reads. Non-trivial = at least one bit was flipped.',
    'print': 'One evaluation is one simulated run printing 1-3 values to a simulated output with seeded flags, precision, width, fill, exception mask and chunking that fails or throws at a seeded byte. Non-trivial = the output failed, or took the text in several chunks.',
    'printthreads': 'One evaluation is one simulated run of 2-4 simulated threads printing seeded values to streams of their own, with seeded thread switches at memory accesses and whenever the output takes a chunk. Non-trivial = at least one switch of thread or chunk.',
    'abandon': 'One evaluation is one simulated run of 1-4 simulated threads in which seeded operations are left by a non-local jump at seeded memory accesses and never resumed. Non-trivial = at least one operation was abandoned, or a switch of thread happened.',
    'fpenv': 'One evaluation is one simulated run of 12-35 operations, each under a seeded floating-point control word (flush-to-zero, denormals-are-zero, unmasked exceptions), half of them with further changes at seeded memory accesses inside the operation. Non-trivial = at least one change happened.',
    'init': 'One evaluation is one simulated program life: the static initialisers of the sixteen files under test run in a seeded order, with seeded operations executed right after those of their own file, from main, and from exit handlers interleaved with the static destructors. Non-trivial = an operation was executed outside main.',
    'corrupt': 'One evaluation is one simulated run of 12-35 operations on posit values whose stored words had surplus bits flipped by a seeded plan; every access is checked against the objects of the program and counted. Non-trivial = at least one bit was flipped.',
    'stack': 'One evaluation is one simulated run of 12-35 operations, each started with 8192 bytes of stack left; the simulator checks the frame address at every function boundary and memory access. Non-trivial = a guarded operation ran.',
    'shared': 'One evaluation is one simulated run in which 2-4 simulated threads execute seeded operations and insertions whose operands are references to constant values shared by all threads, with seeded thread switches at memory accesses; at the end the shared values must hold their bytes. Non-trivial = at least one switch of thread inside an operation.',
    'update': 'One evaluation is one simulated run of 12-35 in-place updates, the updated value being inspected at every memory access and function boundary, and 40% of the updates being killed at a seeded access. Non-trivial = at least one inspection.',
    'long': 'One evaluation is one process executing 12000-200000 operations on seeded operands, half of the processes with seeded allocation failures or outputs that throw; memory taken and not returned, descriptors and threads are counted. Every one counts as non-trivial.',
    'stall': 'One evaluation is one simulated run of 2-4 simulated threads executing seeded operations, one of which is stopped forever at a seeded memory access. Non-trivial = a switch or a stop happened.'}
MODE = dict(P08='threads', P09='threads', P10='history', P11='interrupt', P12='round', P13='garbage', P14='alloc', P15='flip', P16='print', P17='print', P18='printthreads', P19='stall', P20='abandon', P21='fpenv', P22='init', P23='corrupt', P25='print', P26='stack', P27='shared', P28='update', P29='long')
QUICK = {'history': 2600, 'long': 350}
REAL = ['include/*.h* of the library as used by Posit, PositF, Unpacked, posit8/10/12, binary8tab, emulated floats, float16n32', 'src/posit8.cpp, posit10.cpp, posit12.cpp, binary8.cpp',
        'tables produced by the real generators of this tree', 'libstdc++ streams', 'glibc', 'machine code at -O0 and at -O2']
STUB = ['thread scheduler (one thread at a time, seeded)', 'locks, once, function-local static guards and sleeping (cooperative)', 'memory allocator failures', 'outputs behind the streams']
ASSUME = ['interleavings are sequentially consistent, at the granularity of the memory accesses the compiler instruments', 'the reference for a call is the same call alone in a fresh process of the same build',
          'allocation, locking and sleeping primitives are those interposed by the simulator']


class World:
    def __init__(self, ctx):
        self.ctx = ctx
        d = ctx.work
        gens = [[CXX] + REPOFLAGS + ['-O1', '-w', '-o', d + '/%s_gen' % k, REPO + '/src/%s_gen.cpp' % k] for k in TABS]
        sim = [CXX, '-std=c++14', '-O2', '-w', '-c', '-o', d + '/opsim.o', OPS + '/opsim.cpp']
        inst = []
        for v in VARIANTS:
            f = [CXX] + REPOFLAGS + ['-O' + v, '-w', '-fsanitize=thread'] + (['-DOPSHARED'] if ctx.prop == 'P27' else [])
            for u in UNITS:
                inst.append(f + ['-c', '-o', d + '/%s.%s.o' % (u, v), OPS + '/%s.cpp' % u])
            for k in TABS:
                inst.append(f + ['-c', '-o', d + '/%s.%s.o' % (k, v), REPO + '/src/%s.cpp' % k])
        box = []

        def tables():
            try:
                compile_all(gens)
                for k in TABS:
                    r = run([d + '/%s_gen' % k, d + '/%s_tbl.cpp' % k], cwd=d)
                    if r.returncode:
                        raise BuildError('%s_gen exits %d: %s' % (k, r.returncode, r.stdout[-500:]))
                compile_all([[CXX] + REPOFLAGS + ['-O1', '-w', '-c', '-o', d + '/%s_tbl.o' % k, d + '/%s_tbl.cpp' % k] for k in TABS])
            except Exception as e:
                box.append(e)
        t = threading.Thread(target=tables)
        t.start()
        err = None
        try:
            compile_all([sim] + inst)
        except Exception as e:
            err = e
        t.join()
        if err or box:
            raise err or box[0]
        names = []
        for k in TABS:
            names += sorted(elf_objects(d + '/%s_tbl.o' % k))
        idx = {n: i + 1 for i, n in enumerate(names)}
        link = []
        for v in VARIANTS:
            link.append([CXX, '-no-pie', '-o', d + '/opsim.' + v, d + '/opsim.o'] + [d + '/%s.%s.o' % (u, v) for u in UNITS + TABS] + [d + '/%s_tbl.o' % k for k in TABS]
                        + ['-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset', '-ldl', '-lpthread'])
        # static initialisers of everything under test run when the simulator says so
        ren = []
        for k, n in enumerate(['%s.{v}.o' % u for u in UNITS + TABS] + ['%s_tbl.o' % t for t in TABS]):
            for v in VARIANTS if '{v}' in n else ['']:
                ren.append(['/bin/sh', OPS + '/vinit.sh', d + '/' + n.replace('{v}', v), str(k)])
        compile_all(ren)
        compile_all(link)
        for v in VARIANTS:
            rows = []
            for l in run(['nm', '-S', d + '/opsim.' + v]).stdout.splitlines():
                p = l.split()
                if len(p) == 4 and p[2] in 'bBdDrRvVuw':
                    rows.append((int(p[0], 16), int(p[1], 16), idx.get(p[3], 0), p[3][:200]))
            rows.sort()
            open(d + '/opsim.%s.syms' % v, 'w').write(''.join('%x %x %d %s\n' % r for r in rows))
        self.ntables = len(names)
        if self.ctx.prop == 'P25':  # a foreign C locale, where the system can make one
            os.makedirs(d + '/loc', exist_ok=True)
            try:
                run(['localedef', '-i', 'de_DE', '-f', 'UTF-8', d + '/loc/de_DE.UTF-8'])
            except OSError:
                pass

    def popen(self, variant, *args, **kw):
        d = self.ctx.work
        return subprocess.Popen([d + '/opsim.' + variant] + [str(a) for a in args], env=dict(ENV, LOCPATH=d + '/loc', OPSIM_SYMS=d + '/opsim.%s.syms' % variant), text=True,
                                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True, **kw)


class Replayer:
    """A resident `opsim replay`; every plan still runs in forked children of a pristine process."""
    def __init__(self, W, variant):
        self.p = W.popen(variant, 'replay', stdin=subprocess.PIPE)

    def run(self, text):
        self.p.stdin.write(text.rstrip('\n') + '\nEND\n')
        self.p.stdin.flush()
        l = self.p.stdout.readline()
        if not l.startswith('RESULT '):
            raise SimError('replay gave %r' % l)
        head, _, detail = l[7:].partition('::')
        cls, h = head.split()
        return cls, h, detail.strip()

    def close(self):
        kill(self.p)


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def minimise(ctx, W, variant, text, cls):
    lines = [l for l in text.splitlines() if l and not l.startswith('#')]
    head = [l for l in lines if l.split()[0] in ('PROP', 'THREADS', 'START', 'ORDER', 'LONG')]
    st = [l for l in lines if l.startswith('STREAM')]
    calls = [l for l in lines if l.startswith('CALL')]
    decs = [l for l in lines if l.startswith('D ')]
    R = Replayer(W, variant)
    join = lambda st, calls, decs: '\n'.join(head + st + calls + decs) + '\n'
    try:
        f = lambda st, calls, decs: R.run(join(st, calls, decs))[0] == cls
        if cls == 'hang' or not f(st, calls, decs):
            return text
        for _ in range(3):
            n0 = len(calls) + len(decs)
            if decs:
                decs = ddmin(decs, lambda x: f(st, calls, x), budget=25, maxtests=2500)
            calls = ddmin(calls, lambda x: f(st, x, decs), budget=25, maxtests=2500)
            if len(calls) + len(decs) == n0:
                break
        for i, l in enumerate(st):
            for k, dv in ((2, '0'), (3, '6'), (4, '0'), (5, '32'), (6, '0'), (7, '0')):
                w = st[i].split()
                if w[k] != dv:
                    w[k] = dv
                    cand = st[:i] + [' '.join(w)] + st[i + 1:]
                    if f(cand, calls, decs):
                        st = cand
        return join(st, calls, decs)
    finally:
        R.close()


def confirm(W, variant, text):
    """The same plan in two fresh simulators."""
    out = []
    for _ in range(2):
        R = Replayer(W, variant)
        try:
            out.append(R.run(text))
        finally:
            R.close()
    return out


def report(ctx, W, v):
    text = open(v['plan']).read()
    small = minimise(ctx, W, v['variant'], text, v['cls'])
    for t in (small, text):
        a, b = confirm(W, v['variant'], t)
        if a[0] == b[0] == v['cls'] or (a[0] != 'ok' and a[0] == b[0]):
            path = ctx.replay_path()
            json.dump(dict(engine='opsim', property=ctx.prop, seed=ctx.seed, run_seed=v['seed'], build='-O' + v['variant'], variant=v['variant'], violation=[a[0], a[2]], hash=a[1],
                           exact=a[1] == b[1], plan=t.splitlines(), unminimised_lines=len(text.splitlines())), open(path, 'w'), indent=1)
            ctx.log('violation (%s, build -O%s, run seed %s): %s' % (a[0], v['variant'], v['seed'], a[2]))
            ctx.log('minimised from %d to %d lines; replayed twice with identical outcome%s' % (len(text.splitlines()), len(t.splitlines()), '' if a[1] == b[1] else ' class'))
            print('VIOLATION property=%s replay=%s' % (ctx.prop, path), flush=True)
            return path
    ctx.log('NOT REPRODUCED: %s %s' % (v['cls'], v['detail']))
    return None


def check(ctx):
    W = World(ctx)
    mode = MODE[ctx.prop]
    ctx.log('built %d units x %d builds, %d tables' % (len(UNITS), len(VARIANTS), W.ntables))
    # one seed = one execution: the same short search twice
    probe = []
    for _ in range(2):
        od = os.path.join(ctx.work, 'probe')
        os.makedirs(od, exist_ok=True)
        probe.append((VARIANTS[0], W.popen(VARIANTS[0], 'search', ctx.prop, ctx.seed, 99, 20, 60 if mode not in ('history', 'long') else 20, od)))
    chains = []
    for _, p in probe:
        o = p.communicate()[0]
        chains.append([json.loads(l[5:])['chain'] for l in o.splitlines() if l.startswith('STAT ')])
    deterministic = chains[0] == chains[1] and len(chains[0]) == 1
    if ctx.tier == 'quick':
        nruns, budget = QUICK.get(mode, 9000), 70
    else:
        nruns, budget = 0, 720
    od = os.path.join(ctx.work, 'out')
    os.makedirs(od, exist_ok=True)
    t1 = time.time()
    procs, viols, stats, lock, stop = [], [], [], threading.Lock(), threading.Event()
    for w in range(NCPU):
        v = VARIANTS[w % len(VARIANTS)]
        procs.append((w, v, W.popen(v, 'search', ctx.prop, ctx.seed, w, budget, nruns, od)))

    def reader(w, v, p):
        for l in p.stdout:
            with lock:
                if l.startswith('VIOL '):
                    head, _, detail = l[5:].partition('::')
                    f, s, c = head.split()
                    viols.append(dict(plan=f, seed=s, cls=c, detail=detail.strip(), variant=v, worker=w))
                    stop.set()
                elif l.startswith('STAT '):
                    stats.append(json.loads(l[5:]))
    ths = [threading.Thread(target=reader, args=x) for x in procs]
    for t in ths:
        t.start()
    while any(t.is_alive() for t in ths) and not stop.is_set():
        time.sleep(0.1)
    if stop.is_set():
        time.sleep(1.5)
        for _, _, p in procs:
            kill(p)
    for t in ths:
        t.join()
    rcs = [p.wait() for _, _, p in procs]
    dt = time.time() - t1
    path, unrep = None, 0
    if viols:
        seen = set()
        for v in sorted(viols, key=lambda v: v['cls'] == 'hang'):
            if len(seen) > 4:
                break
            seen.add(v['plan'])
            path = report(ctx, W, v)
            if path:
                break
            unrep += 1
    tot = {}
    for s in stats:
        for k, x in s.items():
            if isinstance(x, (int, float)) and k not in ('wall', 'viols', 'distinct', 'ops_used', 'ops_eligible'):
                tot[k] = tot.get(k, 0) + x
    hashes = set()
    for w in range(NCPU):
        f = os.path.join(od, 'hash-%d.txt' % w)
        if os.path.exists(f):
            hashes.update(open(f).read().split())
    samples = [open(os.path.join(od, 'sample-%d.plan' % i)).read() for i in (1, 2) if os.path.exists(os.path.join(od, 'sample-%d.plan' % i))]
    faults = {k: tot.get(k, 0) for k in ('switches', 'interrupts', 'rounding_changes', 'garbage_fills', 'stalls', 'parked_threads', 'allocation_failure_armed', 'allocations_failed', 'bit_flips', 'sink_failures', 'sink_chunks', 'lock_waits', 'abandoned_operations', 'fp_environment_changes', 'initialisers_run', 'exit_handlers_run', 'calls_during_initialisation', 'calls_during_exit', 'locale_changes', 'stack_guards', 'update_observations', 'shared_operands')}
    steps = tot.get('points', 0) + tot.get('history_calls', 0)
    cov = dict(evaluations=tot.get('runs', 0), distinct_nontrivial=len(hashes), rule=RULE[mode], samples=samples or ['search stopped at the first violation'],
               seeds='run seed = mix(VERIF_SEED=%d, worker 0..%d, epoch, run)' % (ctx.seed, NCPU - 1), runs_per_hour=int(tot.get('runs', 0) / max(dt, 1e-3) * 3600), nontrivial_runs=tot.get('nontrivial', 0),
               simulated_steps=steps, simulated_seconds=round(steps * 1e-6, 3), simulated_time_note='the library reads no clock; one scheduling point or history call counts as 1 us',
               faults_injected=faults, distinct_measure='distinct (operations, operands, executed decision trace) hashes', isolated_reference_runs=tot.get('alone_calls', 0), calls_without_reference=tot.get('dropped', 0), wide_history_distinct_calls=tot.get('wide_calls', 0),
               operations_eligible=max([s['ops_eligible'] for s in stats] or [0]), operations_used_max_per_worker=max([s['ops_used'] for s in stats] or [0]),
               shared_writes_seen=tot.get('shared_writes_seen', 0), allocations_seen=tot.get('allocations_seen', 0), atomics_seen=tot.get('atomics_seen', 0),
               determinism_selfcheck=deterministic, unreproduced=unrep, builds=['-O' + v for v in VARIANTS], components_real=REAL, components_stub=STUB)
    ctx.evidence(cov, assumptions=ASSUME, violations=1 if path else 0)
    ctx.log('%d runs (%d distinct non-trivial), %d steps, %.0f runs/s, deterministic=%s, faults %s' % (tot.get('runs', 0), len(hashes), steps, tot.get('runs', 0) / max(dt, 1e-3), deterministic, {k: v for k, v in faults.items() if v}))
    if path:
        return 1
    if not viols and (any(rcs) or len(stats) != len(procs)):
        raise SimError('simulator ended with %s' % rcs)
    if not viols and not tot.get('runs'):
        raise SimError('no run was made')
    return 0


def replay(ctx, d):
    W = World(ctx)
    text = '\n'.join(d['plan']) + '\n'
    print(text)
    (c, h, detail), (c2, h2, _) = confirm(W, d['variant'], text)
    print('outcome %s %s (recorded %s %s): %s' % (c, h, d['violation'][0], d['hash'], detail))
    if c == 'ok':
        print('not reproduced')
        return 0
    print('REPRODUCED%s' % (' exactly' if h == h2 == d['hash'] else ''))
    return 1
