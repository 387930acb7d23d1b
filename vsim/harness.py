"""Explores a property over seeded simulated runs, minimises and stores violations, writes evidence."""
import os, sys, json, time, random, hashlib, shutil, traceback, multiprocessing, copy, argparse, signal
from vsim import build, sim as simmod
from vsim.sim import Sim, Node, exit_of, evs, decisions
from vsim.model import Unmodelled

VERIF = build.VERIF
class Violation(Exception):
    def __init__(self, kind, msg, key=None): Exception.__init__(self, '%s: %s' % (kind, msg)); self.kind, self.msg, self.key = kind, msg, key

def H(*a): return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:7], 'big')
def scratch_root():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    return os.path.join(base, 'vsim-%d' % os.getppid() if multiprocessing.parent_process() else 'vsim-%d' % os.getpid())

class Ctx:
    def __init__(self, paths, cpu, root, seed=0, replay=None, wall=25):
        self.paths, self.cpu, self.root, self.seed, self.replay = paths, cpu, root, seed, replay
        self.sim = Sim(paths, cpu, wall)
        self.dir = os.path.join(root, 'w%d' % cpu)
        self.phase, self.decs, self.kinds, self.probes = 0, [], {}, {}
        self.loghash = hashlib.sha256()
        self.runs = self.steps = self.switches = self.now = 0
        self.inter = []
        self.last = None
        self.clean()
    def clean(self):
        if os.path.isdir(self.dir):
            for e in os.scandir(self.dir):
                if e.is_dir(follow_symlinks=False): shutil.rmtree(e.path, ignore_errors=True)
                else: os.unlink(e.path)
        else: os.makedirs(self.dir)
    def write(self, name, data):
        p = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(data if isinstance(data, bytes) else (data if isinstance(data, str) else json.dumps(data)).encode())
        return name
    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), 'rb') as f: return f.read()
        except FileNotFoundError: return None
    def path(self, name): return os.path.join(self.dir, name)
    def node(self, args, env=None, sub=None):
        d = os.path.join(self.dir, sub) if sub else self.dir
        return Node(args, d, env)
    def probe(self, name, n=1):
        if n: self.probes[name] = self.probes.get(name, 0) + n
    def run(self, nodes, cfg, expect_end=True):
        if not isinstance(nodes, list): nodes = [nodes]
        c = dict(cfg)
        i = self.phase; self.phase += 1
        c.setdefault('fsroot', self.dir)
        if os.environ.get('VSIM_TRACE'): c['trace'] = 1
        if self.replay is None: c['seed'] = H(self.seed, i)
        else: c['decisions'] = self.replay[i] if i < len(self.replay) else []
        r = self.sim.run(nodes, c)
        self.runs += 1; self.steps += r.steps; self.switches += r.switches; self.now += r.now
        self.inter.append((r.hash, r.sched))
        for k, (nz, _) in r.kinds.items(): self.kinds[k] = self.kinds.get(k, 0) + nz
        for e in r.events:
            if e[4][0] in ('crash', 'stall', 'clockjump'): self.kinds[e[4][0] + '!'] = self.kinds.get(e[4][0] + '!', 0) + 1
            elif e[4][0] == 'fault': k = 'fs-%s-%s' % (e[4][1], e[4][-1]); self.kinds[k] = self.kinds.get(k, 0) + 1
        self.decs.append(r.dec_raw)
        self.loghash.update(r.log_raw)
        r.cfg = c
        self.last = r
        if expect_end:
            for n in range(len(nodes)):
                x = exit_of(r, n)
                if x[0] == 'signal': raise Violation('crashed', 'process %d was ended by signal %d; stderr %r' % (n, x[1], bytes(r.outs[n][2][-600:])))
                if x[0] in ('deadlock', 'stepcap', 'hang', 'halt', 'none'): raise Violation('no-end', 'the run did not end (%s); stdout %r stderr %r' % (x[0], bytes(r.outs[n][1][-300:]), bytes(r.outs[n][2][-300:])))
                if x[0] not in ('exit',): raise RuntimeError('simulator ended with %r' % (x,))
        return r
    def decision_lists(self):
        class R: pass
        out = []
        for d in self.decs:
            r = R(); r.dec_raw = d; out.append(decisions(r))
        return out

class Prop:
    id = ''; title = ''
    quick = 400; thorough = 8000        # simulated scenarios
    quick_s = 45; thorough_s = 900      # wall caps
    real = 'the unmodified url-cleaner binary and every library in it (serde, reqwest, hyper, tokio, SQLite through diesel)'
    stub = 'kernel interfaces: thread scheduling, futexes, clocks, sleeping, randomness, STDIN/STDOUT/STDERR, name lookup, TCP, epoll, HTTP servers (scripted), TLS (plaintext stand-in at the OpenSSL call boundary)'
    rule = ''; note = ''
    def gen(self, rng, tier, idx): raise NotImplementedError
    def run(self, sc, ctx): raise NotImplementedError
    def shrink(self, sc): return generic_shrink(sc)

# ---- schedules and faults ----
def gen_sched(rng, faults=None, est=3000, maxsteps=None, threads=True):
    """faults: {kind: (ppm choices)}; each is switched on with probability 1/2 (swarm)."""
    s = {'hashseed': rng.randrange(1, 1 << 31)}
    x = rng.random()
    if x < 0.72: s['policy'] = ['rand', rng.choice([500000, 125000, 20000, 2000])]
    else:
        s['policy'] = ['pct', 0]; s['pct'] = sorted(rng.randrange(int(est * rng.choice([0.1, 1, 1]) + 10)) for _ in range(rng.choice([0, 1, 2, 3, 5])))
    f = {}
    for k, v in (faults or {}).items():
        if rng.random() < 0.5: f[k] = rng.choice(v) if isinstance(v, list) else v
    if 'stall' in f: f['stall'] = [f['stall'], 200]      # at most 10 s together: less than any timeout of the code under test
    s['faults'] = f
    if maxsteps: s['maxsteps'] = maxsteps
    return s
def cfg_of(sched, **kw):
    c = dict(sched); c.update(kw); return c

def generic_shrink(sc):
    """Smaller scenarios, biggest cuts first. Lists named tasks/rules/..., scheduling and fault settings."""
    def variants(node, path):
        if isinstance(node, list):
            if path and path[-1] in SHRINK_LISTS:
                n = len(node)
                if n > 3:
                    yield path, node[:n // 2]
                    yield path, node[n // 2:]
                for i in range(n): yield path, node[:i] + node[i + 1:]
            for i, x in enumerate(node): yield from variants(x, path + [i])
        elif isinstance(node, dict):
            if path and path[-1] == 'faults':
                if node: yield path, {}
                for k in node: yield path, {a: b for a, b in node.items() if a != k}
                return
            if path and path[-1] in ('world', 'hosts', 'urls'): return
            if path and path[-1] == 'sched' and node.get('policy') != ['rand', 0]:
                d = dict(node); d['policy'] = ['rand', 0]; d.pop('pct', None); yield path, d
            for k in sorted(node): yield from variants(node[k], path + [k])
    for path, new in variants(sc, []):
        c = copy.deepcopy(sc); p = c
        for k in path[:-1]: p = p[k]
        p[path[-1]] = new
        yield c
SHRINK_LISTS = {'tasks', 'rules', 'All', 'FirstNotError', 'chunks', 'diffs', 'runs', 'ops', 'Rules', 'Any', 'ConditionChain', 'sources', 'batches'}

# ---- workers ----
_W = {}
def _init(propname, paths, counter, root, seed, tier):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    with counter.get_lock(): i = counter.value; counter.value += 1
    cpus = sorted(os.sched_getaffinity(0))
    from vsim import props
    _W.update(prop=props.get(propname), paths=paths, cpu=cpus[i % len(cpus)], root=root, seed=seed, tier=tier)
def make_scenario(prop, seed, tier, idx):
    for t in range(400):
        rng = random.Random(H(seed, prop.id, idx, t))
        try: return prop.gen(rng, tier, idx)
        except Unmodelled: pass
    raise RuntimeError('no scenario could be generated')
def execute(prop, sc, paths, cpu, root, seed=0, replay=None):
    ctx = Ctx(paths, cpu, root, seed, replay)
    v = None
    try: prop.run(sc, ctx)
    except Violation as e: v = e
    return v, ctx
def _work(idx):
    p = _W['prop']
    try:
        sc = make_scenario(p, _W['seed'], _W['tier'], idx)
        rs = H(_W['seed'], p.id, idx, 'run')
        v, ctx = execute(p, sc, _W['paths'], _W['cpu'], _W['root'], rs)
        if v and v.kind == 'no-end' and '(hang)' in v.msg:   # wall clock: confirm before believing it
            v, ctx = execute(p, sc, _W['paths'], _W['cpu'], _W['root'], rs)
        out = dict(idx=idx, runs=ctx.runs, steps=ctx.steps, switches=ctx.switches, now=ctx.now, kinds=ctx.kinds, probes=ctx.probes, inter=ctx.inter, scid=H(json.dumps(sc, sort_keys=True)))
        if idx < 2: out['sample'] = summary(sc)
        if idx < 6 or idx % 50 == 0 or os.environ.get('VSIM_DET'):
            v2, ctx2 = execute(p, sc, _W['paths'], _W['cpu'], _W['root'], rs)
            out['det'] = ctx2.loghash.hexdigest() == ctx.loghash.hexdigest()
            if not out['det']: out['detsc'] = sc; out['detseed'] = rs
        if v: out.update(viol=(v.kind, v.msg, v.key), sc=sc, rs=rs, decs=ctx.decision_lists())
        return out
    except Exception: return dict(idx=idx, error=traceback.format_exc())
def summary(sc):
    s = json.dumps(sc, sort_keys=True)
    return sc if len(s) < 3000 else s[:3000] + '...'

def minimise(prop, sc, rs, decs, kind, paths, root, budget):
    cpu = sorted(os.sched_getaffinity(0))[0]
    t_end = time.time() + budget
    best = (sc, decs)
    def ok(sc2, seed=0, replay=None):
        try: v, c = execute(prop, sc2, paths, cpu, root, seed, replay)
        except Exception: return None
        return c.decision_lists() if v and v.kind == kind else None
    progress = True
    while progress and time.time() < t_end - budget * 0.35:
        progress = False
        for cand in prop.shrink(best[0]):
            if time.time() > t_end - budget * 0.35: break
            d = ok(cand, replay=best[1])
            if d is None:
                for k in range(3):
                    d = ok(cand, seed=H(rs, 'min', k))
                    if d is not None: break
            if d is not None: best = (cand, d); progress = True; break
    sc, decs = best
    flat = [(i, d) for i, ds in enumerate(decs) for d in ds]
    n = len(decs)
    def un(fl): return [[d for i, d in fl if i == p] for p in range(n)]
    def good(fl): return ok(sc, replay=un(fl)) is not None
    if flat and good([]): flat = []
    gran = 2
    while len(flat) > 1 and time.time() < t_end:
        size = max(1, len(flat) // gran); cut = False
        for a in range(0, len(flat), size):
            if time.time() > t_end: break
            t = flat[:a] + flat[a + size:]
            if good(t): flat = t; cut = True; gran = max(2, gran - 1); break
        if not cut:
            if size == 1: break
            gran = min(len(flat), gran * 2)
    return sc, un(flat)

def replay_file(prop, path, paths, root):
    d = json.load(open(path))
    cpu = sorted(os.sched_getaffinity(0))[0]
    if d['decisions'] is None: return d, execute(prop, d['scenario'], paths, cpu, root, d['run_seed'])
    decs = [[tuple(x) for x in ds] for ds in d['decisions']]
    return d, execute(prop, d['scenario'], paths, cpu, root, 0, decs)

def load_known(pid):
    known, path = {}, os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, desc = rest.split(' ', 1)
                known[key.split('=', 1)[1]] = desc
    return known

def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
    ap.add_argument('--runs', type=int); ap.add_argument('--seconds', type=float); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--jobs', type=int); ap.add_argument('--only', type=int); ap.add_argument('--nomin', action='store_true'); ap.add_argument('--all', action='store_true')
    a = ap.parse_args(argv)
    if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
    t0 = time.time()
    from vsim import props
    prop = props.get(a.prop)
    try: paths = build.ensure()
    except RuntimeError as e: print('ERROR building: %s' % e); return 3
    root = os.path.join('/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp', 'vsim-%d' % os.getpid())
    os.makedirs(root, exist_ok=True)
    try: return explore(a, prop, paths, root, t0)
    finally: shutil.rmtree(root, ignore_errors=True)

def explore(a, prop, paths, root, t0):
    if a.replay:
        d, (v, ctx) = replay_file(prop, a.replay, paths, root)
        if v is None: print('replay %s: the property held' % a.replay); return 0
        print('replay %s: %s: %s' % (a.replay, v.kind, v.msg))
        print('same violation: %s, same event log: %s' % (v.kind == d['kind'], ctx.loghash.hexdigest() == d['log_hash']))
        print('VIOLATION property=%s replay=%s' % (prop.id, a.replay)); return 1
    if a.only is not None:
        sc = make_scenario(prop, a.seed, a.tier, a.only)
        print(json.dumps(sc, indent=1, sort_keys=True)[:20000])
        v, ctx = execute(prop, sc, paths, sorted(os.sched_getaffinity(0))[0], root, H(a.seed, prop.id, a.only, 'run'))
        if ctx.last: print(ctx.last.log_raw.decode('latin1')[-6000:])
        print('probes', ctx.probes, 'kinds', ctx.kinds); print(v); return 1 if v else 0
    runs = a.runs or (prop.quick if a.tier == 'quick' else prop.thorough)
    secs = a.seconds or (prop.quick_s if a.tier == 'quick' else prop.thorough_s)
    jobs = a.jobs or len(os.sched_getaffinity(0))
    known = load_known(prop.id)
    print('property %s tier %s VERIF_SEED %d: up to %d scenarios, %d s, %d workers' % (prop.id, a.tier, a.seed, runs, secs, jobs), flush=True)
    counter = multiprocessing.Value('i', 0)
    pool = multiprocessing.Pool(jobs, _init, (prop.id, paths, counter, root, a.seed, a.tier))
    T = dict(runs=0, scen=0, steps=0, switches=0, now=0)
    kinds, probes, inter, sched, scids, samples = {}, {}, set(), set(), set(), []
    viol, errors, det, hits, stopped = None, [], [0, 0], {}, None
    te = time.time()
    def feed():
        for i in range(runs):
            if time.time() - te > secs or stop[0]: return
            yield i
    stop = [False]
    sem = multiprocessing.Semaphore(jobs * 4) if False else None
    pending = []
    it = iter(range(runs))
    done_feed = False
    def handle(o):
        nonlocal viol
        if 'error' in o: errors.append((o['idx'], o['error'])); return
        T['scen'] += 1
        for k in ('runs', 'steps', 'switches', 'now'): T[k] += o[k]
        for k, n in o['kinds'].items(): kinds[k] = kinds.get(k, 0) + n
        for k, n in o['probes'].items(): probes[k] = probes.get(k, 0) + n
        for h, s in o['inter']: inter.add(h); sched.add(s)
        scids.add(o['scid'])
        if 'sample' in o: samples.append(o['sample'])
        if 'det' in o:
            det[0] += 1
            if not o['det']: det[1] += 1; print('NOT DETERMINISTIC: scenario %d' % o['idx'], flush=True)
        if 'viol' in o:
            k = o['viol'][2]
            if k and k in known: hits[k] = hits.get(k, 0) + 1
            elif a.all: print('scenario %d: %s: %s' % (o['idx'], o['viol'][0], o['viol'][1][:1500]), flush=True); viol = viol or o
            elif viol is None or o['idx'] < viol['idx']: viol = o
    while True:
        while not done_feed and len(pending) < jobs * 3:
            if time.time() - te > secs or (viol and not a.all) or len(errors) > 3: done_feed = True; break
            try: pending.append(pool.apply_async(_work, (next(it),)))
            except StopIteration: done_feed = True
        if not pending: break
        rest = []
        for p in pending:
            if p.ready(): handle(p.get())
            else: rest.append(p)
        if len(rest) == len(pending): time.sleep(0.005)
        pending = rest
        if done_feed and viol and not a.all: break
    pool.terminate(); pool.join()
    wall = time.time() - te
    rc, path = 0, None
    if viol:
        rc = 1
        kind, msg, key = viol['viol']
        print('scenario %d violates %s: %s: %s' % (viol['idx'], prop.id, kind, msg), flush=True)
        sc, decs = viol['sc'], viol['decs']
        cpu = sorted(os.sched_getaffinity(0))[0]
        if not a.nomin: sc, decs = minimise(prop, sc, viol['rs'], decs, kind, paths, root, 60 if a.tier == 'quick' else 180)
        def again(sc, decs, seed=0):
            try: return execute(prop, sc, paths, cpu, root, seed, decs)
            except Exception: return None, None
        v, ctx = again(sc, decs)
        if not (v and v.kind == kind):
            sc, decs = viol['sc'], viol['decs']; v, ctx = again(sc, decs)
        if not (v and v.kind == kind):      # too long to list every decision: the seed repeats it
            decs = None; v, ctx = again(sc, None, viol['rs'])
        if not (v and v.kind == kind): print('ERROR: the violation could not be replayed'); rc = 3
        else:
            os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
            rec = dict(property=prop.id, kind=kind, message=v.msg, seed=a.seed, scenario_index=viol['idx'], run_seed=viol['rs'], scenario=sc, decisions=decs, log_hash=ctx.loghash.hexdigest(), tree=paths['tree'])
            path = os.path.join(VERIF, 'replay', '%s-%s.json' % (prop.id, ctx.loghash.hexdigest()[:10]))
            json.dump(rec, open(path, 'w'), indent=1)
            print('minimised: %s: %s' % (v.kind, v.msg))
            print('scenario: %s' % json.dumps(sc, sort_keys=True)[:3000])
            print('schedule and fault decisions: %s' % json.dumps(decs)[:2000])
    if errors and rc != 1:
        print('ERROR in %d scenarios, first (%d):\n%s' % (len(errors), errors[0][0], errors[0][1])); rc = 3
    if det[1]: print('WARNING: %d of %d re-executed scenarios did not repeat exactly' % (det[1], det[0]))
    ev = dict(property=prop.id, tier=a.tier, seed=a.seed, level='exploration', wall_s=round(time.time() - t0, 2), violations=1 if viol else 0,
        coverage=dict(evaluations=T['runs'], scenarios=T['scen'], distinct_nontrivial=len(inter), rule='One evaluation is one simulated execution of the whole program. ' + prop.rule + ' Two executions are distinct when the sequence of (thread, operation) steps together with every fault decision differs; an execution is non-trivial because each one runs the real program on a generated input list.',
            samples=samples or ['none'], distinct_scenarios=len(scids), distinct_schedules=len(sched), scheduling_steps=T['steps'], context_switches=T['switches'],
            simulated_seconds=round(T['now'] / 1e9, 3), runs_per_hour=int(T['runs'] / max(wall, .001) * 3600), seeds_per_hour=int(T['scen'] / max(wall, .001) * 3600),
            fault_decisions_fired={k: n for k, n in sorted(kinds.items()) if n}, probes=dict(sorted(probes.items())), determinism_checked=det[0], determinism_failed=det[1],
            real_components=prop.real, stubbed_components=prop.stub, known_findings_hit=hits),
        assumptions=['The simulated kernel interfaces behave as Linux documents them.', 'Threads interleave at intercepted calls and memory allocations, not at arbitrary instructions.'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop.id + '.json'), 'w'), indent=1)
    print('%d scenarios, %d executions, %d distinct interleavings, %.1f simulated s, %.1f s; faults %s; probes %s' % (T['scen'], T['runs'], len(inter), T['now'] / 1e9, wall, {k: n for k, n in sorted(kinds.items()) if n}, dict(sorted(probes.items()))))
    for k, dsc in known.items(): print('KNOWN-FINDING: property=%s %s' % (prop.id, dsc))
    if rc == 1: print('VIOLATION property=%s replay=%s' % (prop.id, path))
    return rc
