"""C01-C04, C06: the task pipeline."""
import json, copy
from vsim.harness import Prop, Violation, gen_sched, cfg_of, H
from vsim.gen import *
from vsim.model import Model, World
from vsim.wild import gen_wild

NETF = {'netchunk': [300000, 30000], 'netdelay': [100000], 'netshort': [200000], 'netintr': [50000]}
STDF = {'inshort': [300000, 30000], 'inintr': [100000], 'outshort': [200000], 'outintr': [100000], 'spur': [100000], 'wake': [500000]}
TIMEF = {'stall': [2000, 20000], 'clock': [20000]}
CHILDF = {'child': [300000]}

def bulk(rng, conf):
    """Some inputs set many flags and variables; every result shows some of them."""
    n = rng.choice([1, 3, 10, 17, 40, 70])
    many = [{'SetScratchpadVar': dict(name='b%d' % i, value=rng.choice([token(rng), {'Part': 'Host'}, token(rng) * 50]))} for i in range(n)] + [{'SetScratchpadFlag': dict(name='b%d' % i, value=True)} for i in range(rng.choice([0, n]))]
    c = rng.choice([{'PathIs': '/p0'}, {'PathIs': '/p1'}, {'QueryHasParam': 'a'}, {'QueryHasParam': 'b'}])
    i = rng.randrange(n)
    show = [{'NoneTo': dict(value={'Var': dict(type='Scratchpad', name='b%d' % i)}, if_none='none')}, {'IfFlag': {'type': 'Scratchpad', 'name': 'b%d' % rng.randrange(n), 'then': 'F', 'else': '-'}}, {'NoneToEmptyString': {'Part': 'Fragment'}}]
    rules = list(conf['rules'])
    first = {'condition': c, 'mapper': {'All': many}}
    if rng.random() < .5: rules = [first] + rules
    else: rules = rules + [first]
    return dict(conf, rules=rules + [{'Mapper': {'SetPart': dict(part='Fragment', value={'Join': dict(join='.', sources=show)})}}])

def run_plain(ctx, conf, tasks, threads, sched, js, extra=(), diag=False):
    """A run whose results are not modelled: it ends by itself with a result for every input, and with diagnostics and exit status that match them."""
    if conf: ctx.write('config.json', conf)
    n = ctx.node((['--config', 'config.json'] if conf else []) + (['--json'] if js else []) + ['--cache-path', ':memory:', '--threads', str(threads)] + list(extra))
    n.stdin(stdin_chunks(tasks, [0] * len(tasks)))
    r = ctx.run(n, cfg_of(sched, maxsteps=8000000, cpus=2)); x = exit_of(r); err = bytes(r.outs[0][2])
    if x[0] != 'exit' or x[1] not in (0, 1, 2): raise Violation('crashed', 'ended with %r: %r' % (x, err[:700]))
    es = entries_json(r) if js else entries_lines(r)
    if len(es) != len(tasks): raise Violation('count', '%d results for %d inputs' % (len(es), len(tasks)))
    bad = sum('Err' in e or 'Err' in e['Ok'] if js else not e for e in es)
    if x[1] != (0 if not bad else 1 if bad == len(es) else 2): raise Violation('status', 'exit %d, %d of %d failed' % (x[1], bad, len(es)))
    ds = [l for l in err.split(b'\n') if l.startswith(ERRP)]
    if not js and len(ds) != bad: raise Violation('diagnostics', '%d failed inputs and %d diagnostics' % (bad, len(ds)))
    return (es, ds) if diag else es

class Pipeline(Prop):
    """Common shape: a rule program, inputs from arguments and STDIN, a scripted world; the whole run is compared with the model."""
    feats = dict(net=True, cmd=True, commons=True)
    nmax = 14; wopts = {}; bulk = .08
    def gen(self, rng, tier, idx):
        feats = {k: (v if not isinstance(v, float) else rng.random() < v) for k, v in self.feats.items()}
        pg = PGen(rng, **feats)
        prog = pg.program()
        params = gen_params(rng, read_cache=False, write_cache=False)
        big = rng.random() < (0.04 if tier == 'quick' else 0.08)
        n = rng.choice([0, 1, 2, 3, 5, 8, self.nmax]) if not big else rng.choice([60, 300])
        if big and (feats.get('net') or feats.get('cmd')): prog = dict(rules=[{'Mapper': {'SetPart': dict(part='Fragment', value={'Part': 'Host'})}}] + [{'condition': {'PathIs': '/p0'}, 'mapper': {'Error': 'boom-big'}}]); pg.progs = {}
        tasks = [gen_task(rng, i, bad=self.bad(rng)) for i in range(n)]
        w = World(dict(progs=pg.progs), WGen(rng.randrange(1 << 40), slow=False, **self.wopts))
        job = {k: token(rng) for k in rng.sample(['j0', 'v0'], rng.choice([0, 1]))}
        conf = dict(prog)
        if rng.random() < self.bulk: conf = bulk(rng, conf)
        sc = dict(config=conf, params=params, tasks=tasks, nargs=rng.choice([0, 0, 0, 1, 2, n]), threads=rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 0] + ([17] if big else [])), cpus=rng.choice([1, 2, 4]), job=job,
            json=self.json_mode(rng), tail=rng.random() < .7, crlf=rng.random() < .15, sched=gen_sched(rng, dict(STDF, **NETF, **TIMEF, **CHILDF)), stallmax=3)
        sc['world'] = freeze(conf, params, tasks, w, job_vars=job)
        self.extra(rng, sc)
        sc['nargs'] = min(sc['nargs'], len(sc['tasks']))
        sc['times'] = batches_of(rng, sc['tasks'])
        return sc
    def bad(self, rng): return rng.choice([0, .1, .4])
    def json_mode(self, rng): return rng.random() < .25
    def extra(self, rng, sc): pass
    def args(self, sc, ctx):
        conf = dict(sc['config']); conf['params'] = sc['params']; conf['cache_path'] = ':memory:'
        ctx.write('config.json', conf)
        a = ['--config', 'config.json', '--threads', str(sc['threads'])]
        if sc.get('job'): a += ['--job-context', json.dumps({'vars': sc['job']})]
        if sc.get('json'): a += ['--json']
        return a
    def node(self, sc, ctx, tasks=None, times=None, extra=()):
        tasks = sc['tasks'] if tasks is None else tasks
        times = (sc['times'] if times is None else times)
        na = min(sc.get('nargs', 0), len(tasks))
        # arguments starting with '-' or empty ones are not used as positional arguments
        while any('hex' in t or not task_line(t) or task_line(t)[0] == '-' or '\0' in task_line(t) for t in tasks[:na]): na -= 1
        st = tasks[na:]; tm = [x for x in times[na:len(tasks)]]
        tm = tm + [tm[-1] if tm else 0] * (len(st) - len(tm))
        n = ctx.node(self.args(sc, ctx) + list(extra) + [task_line(t) for t in tasks[:na]], env=sc.get('env'))
        tail = sc.get('tail', True) or not st or not task_bytes(st[-1]).strip(b'\r')
        n.stdin(stdin_chunks(st, tm, tail, sc.get('crlf', False)))
        n.lines += World(copy.deepcopy(sc['world'])).lines()
        return n
    def expected(self, sc, tasks=None):
        m = Model(sc['config'], sc['params'], job_vars=sc['job'], world=World(sc['world']), env=sc.get('env'))
        tasks = sc['tasks'] if tasks is None else tasks
        e = expect(m, tasks)
        self.traces = [t.pop('_trace') for t in tasks]
        return e
    def cfg(self, sc, **kw): return cfg_of(sc['sched'], cpus=sc.get('cpus', 4), stallmax=sc.get('stallmax', 3), maxsteps=sc.get('maxsteps', 4000000), **kw)
    def run(self, sc, ctx):
        exp = self.expected(sc)
        r = ctx.run(self.node(sc, ctx), self.cfg(sc))
        self.probes(sc, exp, ctx)
        (check_json if sc.get('json') else check_lines)(r, exp)
        return r, exp
    def probes(self, sc, exp, ctx):
        ctx.probe('inputs', len(exp)); ctx.probe('failed_inputs', sum(e[0] != 'ok' for e in exp)); ctx.probe('changed', sum(1 for e, t in zip(exp, sc['tasks']) if e[0] == 'ok' and e[1] != t['url']))
        ctx.probe('multi_thread_runs', sc['threads'] != 1); ctx.probe('requests', sum(1 for t in self.traces for x in t if x[0] == 'req')); ctx.probe('commands', sum(1 for t in self.traces for x in t if x[0] == 'spawn'))

class C01(Pipeline):
    id = 'C01'
    quick = 6000; thorough = 180000; quick_s = 30
    rule = 'A random rule program (with requests and commands of random duration) runs over random arguments and STDIN lines, valid and invalid, arriving in batches, on 1 to 17 threads under random or priority schedules with short/interrupted reads and writes; the whole output is compared with the reference model.'
    feats = dict(net=0.5, cmd=0.3, commons=0.3, depth=2, budget=25, debug=.15)
    def gen(self, rng, tier, idx):
        if idx % 150 == 11: return self.flood(rng)
        return Pipeline.gen(self, rng, tier, idx)
    def flood(self, rng):
        """Many results pile up behind a slow input (or a slow reader of the output)."""
        n = rng.choice([700, 1300, 2200])
        t = [dict(url='http://h%d.test/%s' % (i, 'slow' if i == 0 or rng.random() < .001 else 'p0' if rng.random() < .02 else 'q')) if rng.random() > .01 else dict(raw='nope') for i in range(n)]
        conf = dict(rules=[{'condition': {'PathIs': '/p0'}, 'mapper': {'Error': 'boom'}}, {'condition': {'PathIs': '/slow'}, 'mapper': {'SetPart': dict(part='Path', value={'CommandOutput': dict(program='slow', args=[])})}}, {'Mapper': {'SetPart': dict(part='Fragment', value={'Part': 'Host'})}}])
        sc = dict(config=conf, params=dict(read_cache=False, write_cache=False), tasks=t, nargs=0, threads=rng.choice([2, 2, 3, 4, 8]), cpus=2, job={}, json=rng.random() < .3, tail=True, crlf=False, times=[0] * n, sched=gen_sched(rng, dict(STDF)), stallmax=3)
        w = World(dict(progs={'slow': [['z%d' % rng.choice([3000000, 60000000]), 'w1:' + b'/done'.hex()]]}), WGen(1))
        sc['world'] = freeze(conf, sc['params'], t, w)
        return sc

class C02(Pipeline):
    id = 'C02'
    quick = 2500; thorough = 75000; quick_s = 30
    rule = 'Rule programs (checked against the reference model) and the built-in configuration (checked run against run) clean the same inputs in several executions that differ in thread count, schedule, in-memory hash order, and the choice and order of the inputs; every input must give the same result in each. Every eighth scenario does the same with an unmodelled program of odd constructs over odd URLs.'
    feats = dict(net=0.4, cmd=0.2, commons=0.5, depth=3, budget=30, debug=.15); bulk = .35
    def gen(self, rng, tier, idx):
        if idx % 4 == 3: return self.gen_def(rng)
        if idx % 8 == 5: return self.gen_wild(rng)
        sc = Pipeline.gen(self, rng, tier, idx)
        sc['runs'] = self.variants(rng, len(sc['tasks']))
        return sc
    def variants(self, rng, n):
        vs = []
        for _ in range(rng.choice([2, 3])):
            order = list(range(n))
            if rng.random() < .8: rng.shuffle(order)
            if rng.random() < .5: order = order[:rng.randrange(n + 1)]
            vs.append(dict(order=order, threads=rng.choice([1, 2, 3, 5, 8]), sched=gen_sched(rng, dict(STDF, **NETF, **CHILDF))))
        return vs
    def gen_def(self, rng):
        tasks = [dict(url=def_url(rng)) if rng.random() < .95 else dict(raw=rng.choice(BAD)) for _ in range(rng.choice([2, 5, 12, 25]))]
        for t in tasks:
            if 'url' in t and rng.random() < .2: t['form'] = 'json'; t['ctx'] = {rng.choice(['faci_site_name', 'x']): rng.choice(['website', 'Facebook', token(rng)])}
        return dict(default=True, args=def_args(rng), tasks=tasks, job={'SOURCE_REG_DOMAIN': rng.choice(['furaffinity.net', 'x.test'])} if rng.random() < .5 else {}, threads=rng.choice([1, 2, 4]),
            sched=gen_sched(rng, STDF), runs=self.variants(rng, len(tasks)), json=True)
    def gen_wild(self, rng):
        conf, lines = gen_wild(rng)
        return dict(default=True, wild=conf, args=[], tasks=[dict(raw=l) for l in lines], job={}, threads=rng.choice([1, 2, 4]), sched=gen_sched(rng, STDF), runs=self.variants(rng, len(lines)), json=True)
    def run(self, sc, ctx):
        if sc.get('default'): return self.run_def(sc, ctx)
        exp = self.expected(sc)
        self.probes(sc, exp, ctx)
        r = ctx.run(self.node(sc, ctx), self.cfg(sc))
        (check_json if sc.get('json') else check_lines)(r, exp)
        for v in sc['runs']:
            s2 = dict(sc, threads=v['threads'], sched=v['sched'], nargs=0)
            o = [i for i in v['order'] if i < len(sc['tasks'])]
            t2 = [sc['tasks'][i] for i in o]
            r = ctx.run(self.node(s2, ctx, t2, [0] * len(o)), self.cfg(s2))
            (check_json if sc.get('json') else check_lines)(r, [exp[i] for i in o])
    def run_def(self, sc, ctx):
        go = lambda tasks, threads, sched: run_plain(ctx, sc.get('wild'), tasks, threads, sched, True, sc['args'] + (['--job-context', json.dumps({'vars': sc['job']})] if sc['job'] else []))
        base = go(sc['tasks'], sc['threads'], sc['sched'])
        ctx.probe('default_config_inputs', len(base)); ctx.probe('default_config_changed', sum(1 for e, t in zip(base, sc['tasks']) if 'url' in t and e != {'Ok': {'Ok': t['url']}}))
        for v in sc['runs']:
            o = [i for i in v['order'] if i < len(sc['tasks'])]
            es = go([sc['tasks'][i] for i in o], v['threads'], v['sched'])
            for i, e in zip(o, es):
                if e != base[i]: raise Violation('differs', 'input %r gave %r, and %r in another run' % (task_line(sc['tasks'][i]), base[i], e))

class C03(Pipeline):
    id = 'C03'
    rule = 'Inputs that fail in every known way are mixed with good ones; results, diagnostics on STDERR (one per failed input, in order) and the run with the failing inputs taken out are compared with the reference model. Every fifth scenario is an unmodelled program of odd constructs over odd URLs: nothing may end the run, and taking out the failing inputs may change nothing.'
    feats = dict(net=0.6, cmd=0.5, commons=0.4, depth=3, budget=30, errw=3, odderr=.5, debug=.15)
    wopts = dict(hostfail=.3, respfail=.4)
    quick = 4000; thorough = 120000; quick_s = 30
    def bad(self, rng): return rng.choice([.1, .3, .5])
    def json_mode(self, rng): return False
    def gen(self, rng, tier, idx):
        if idx % 5 != 3: return Pipeline.gen(self, rng, tier, idx)
        conf, lines = gen_wild(rng)
        for _ in range(rng.choice([0, 1, 4])): lines.insert(rng.randrange(len(lines) + 1), rng.choice(BAD[:6]))
        return dict(wild=conf, tasks=[dict(raw=l) for l in lines], threads=rng.choice([1, 2, 4]), sched=gen_sched(rng, STDF), cpus=2)
    def run_wild(self, sc, ctx):
        """What the program does is not modelled: nothing ends the run, failures and diagnostics match, and taking out the failed inputs changes nothing."""
        go = lambda tasks: run_plain(ctx, sc['wild'], tasks, sc['threads'], sc['sched'], False)
        ls = go(sc['tasks'])
        good = [i for i, l in enumerate(ls) if l]
        ctx.probe('wild_inputs', len(ls)); ctx.probe('wild_failed', len(ls) - len(good))
        if len(good) == len(ls): return
        for i, l in zip(good, go([sc['tasks'][i] for i in good])):
            if l != ls[i]: raise Violation('affected', 'input %r gave %r, and %r without the inputs that fail' % (task_line(sc['tasks'][i]), ls[i], l))
    def run(self, sc, ctx):
        if sc.get('wild'): return self.run_wild(sc, ctx)
        r, exp = Pipeline.run(self, sc, ctx)
        good = [i for i, e in enumerate(exp) if e[0] == 'ok']
        if len(good) != len(exp):
            s2 = dict(sc, nargs=0)
            r = ctx.run(self.node(s2, ctx, [sc['tasks'][i] for i in good], [0] * len(good)), self.cfg(s2))
            check_lines(r, [exp[i] for i in good])

class C04(Pipeline):
    id = 'C04'
    quick = 12000; thorough = 360000; quick_s = 30
    rule = 'Runs whose inputs all succeed, all fail, or mix, in line and JSON mode; the exit status is compared with the reference model and with the output of the same run.'
    feats = dict(net=0.2, cmd=0.2, commons=False, depth=2, budget=12)
    nmax = 6
    def gen(self, rng, tier, idx):
        if idx % 60 == 7: return self.many(rng)
        want = rng.choice(['all', 'none', 'mix', 'any'])
        for _ in range(60):
            self._bad = {'all': 1.0, 'none': 0.0, 'mix': .4, 'any': .2}[want]
            if want == 'none' or want == 'mix': self.feats = dict(C04.feats, errw=.3)
            else: self.feats = C04.feats
            sc = Pipeline.gen(self, rng, tier, idx)
            exp = self.expected(sc)
            st = status_of(exp)
            if want == 'any' or st == {'all': 1, 'none': 0, 'mix': 2}[want] or (want == 'all' and not exp): break
        return sc
    def many(self, rng):
        """Numbers of failures and successes around the limits of small counters."""
        n = lambda: rng.choice([0, 1, 127, 128, 255, 256, 256, 257, 512])
        t = [dict(raw=rng.choice(['nope', 'x y', ''])) for _ in range(n())] + [dict(url='http://h0.test/p0') for _ in range(n())] + [dict(url='http://h%d.test/ok' % i) for i in range(n() if rng.random() < .6 else 0)]
        if rng.random() < .5: rng.shuffle(t)
        sc = dict(config=dict(rules=[{'condition': {'PathIs': '/p0'}, 'mapper': {'Error': 'boom'}}]), params=dict(read_cache=False, write_cache=False), tasks=t, nargs=0, threads=rng.choice([1, 2, 3, 8]), cpus=2, job={}, json=rng.random() < .5, tail=True, crlf=False, times=[0] * len(t),
            sched=gen_sched(rng, dict(STDF)), stallmax=3)
        sc['world'] = freeze(sc['config'], sc['params'], t, World(dict(progs={}), WGen(1)))
        return sc
    def bad(self, rng): return self._bad
    def json_mode(self, rng): return rng.random() < .5
    def run(self, sc, ctx):
        r, exp = Pipeline.run(self, sc, ctx)
        ctx.probe('exit_%d' % exit_of(r)[1])

class C06(Pipeline):
    id = 'C06'
    quick = 5000; thorough = 150000; quick_s = 30
    rule = 'The same inputs are cleaned in line mode and in JSON mode, with error texts full of quotes, control and non-ASCII characters; the JSON document must parse and agree with line mode entry by entry, and both with the reference model. Every sixth scenario does the same with an unmodelled program of odd constructs.'
    feats = dict(net=0.4, cmd=0.3, commons=0.3, depth=3, budget=25, errw=3, odderr=.8)
    def gen(self, rng, tier, idx):
        if idx % 6 == 4:
            conf, lines = gen_wild(rng)
            for _ in range(rng.choice([0, 1, 3])): lines.insert(rng.randrange(len(lines) + 1), rng.choice(BAD[:6]))
            return dict(wild=conf, tasks=[dict(raw=l) for l in lines], threads=rng.choice([1, 2, 4]), sched=gen_sched(rng, STDF))
        sc = Pipeline.gen(self, rng, tier, idx)
        for t in sc['tasks']:
            if 'raw' in t and rng.random() < .4: t['raw'] = rng.choice(['{"url":"http://a.test/","' + o.replace('\n', '').replace('\r', '') + '":1' for o in ODDTEXT] + ['not a url ' + o.replace('\n', '').replace('\r', '') for o in ODDTEXT])
        return sc
    def json_mode(self, rng): return True
    def bad(self, rng): return rng.choice([0, .2, .5, 1.0])
    def run_wild(self, sc, ctx):
        """What the program does is not modelled: both modes are compared with each other."""
        js, (ls, ds) = run_plain(ctx, sc['wild'], sc['tasks'], sc['threads'], sc['sched'], True), run_plain(ctx, sc['wild'], sc['tasks'], sc['threads'], sc['sched'], False, diag=True)
        for t, j, l in zip(sc['tasks'], js, ls):
            u = j['Ok'].get('Ok', '') if 'Ok' in j else ''
            if u.encode() != l: raise Violation('disagree', 'input %r: JSON entry %r, line %r' % (task_line(t), j, l))
        a, b = [['M', 'D']['Ok' in j] for j in js if 'Err' in j or 'Err' in j['Ok']], [chr(d[0]) for d in ds]
        if a != b: raise Violation('disagree', 'failures in JSON mode: %s, in line mode: %s' % (''.join(a), ''.join(b)))
        ctx.probe('wild_inputs', len(js)); ctx.probe('wild_failed', len(a))
    def run(self, sc, ctx):
        if sc.get('wild'): return self.run_wild(sc, ctx)
        exp = self.expected(sc)
        self.probes(sc, exp, ctx)
        r = ctx.run(self.node(sc, ctx), self.cfg(sc)); check_json(r, exp)
        js = entries_json(r)
        s2 = dict(sc, json=False)
        r = ctx.run(self.node(s2, ctx), self.cfg(s2)); check_lines(r, exp, stderr=False)
        ls = entries_lines(r)
        for i, (j, l) in enumerate(zip(js, ls)):
            u = j.get('Ok', {}).get('Ok') if isinstance(j.get('Ok'), dict) else None
            if (u or '').encode() != l: raise Violation('disagree', 'input %d: JSON entry %r, line %r' % (i, j, l))

class C05(Prop):
    id = 'C05'
    quick = 2000; thorough = 60000; quick_s = 30
    rule = 'Inputs that wait for servers, commands, retries or time-outs arrive in batches; the simulated time at which every result is written and at which the run ends is compared with the bound done[i] = max(arrival[i], done[i-N]) + wait[i], plus the simulated computing time of the run.'
    W = [60000, 400000, 2000000, 7000000]
    def gen(self, rng, tier, idx):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20])
        tasks, t = [], 0
        times = []
        for i in range(n):
            k = rng.choice(['cmd', 'net', 'net', 'none', 'fail', 'retry', 'bad'] + (['stall'] if rng.random() < .15 else []))
            tasks.append(dict(k=k, w=rng.randrange(len(self.W)), n=rng.choice([0, 0, 0, 1, 1000, 600, 5000]) if k in ('none', 'net', 'cmd') else 0))
            times.append(t)
            if rng.random() < .35: t += rng.choice([1000, 300000, 3000000, 20000000])
        if rng.random() < .04:                  # many quick inputs between the slow ones
            tasks, times = [x for x in tasks if x['k'] in ('cmd', 'net', 'retry')][:6], []
            while len(tasks) < 200: tasks += [dict(k='none', n=0)] * 200
            tasks = tasks * rng.choice([1, 2, 5, 10])
            if rng.random() < .5: rng.shuffle(tasks)
            else: tasks = tasks[:1] + [dict(k='none', n=0)] * rng.choice([300, 1000, 3000]) + tasks[:10]
            k = [i for i, x in enumerate(tasks) if x['k'] != 'none'][8:]
            for i in k: tasks[i] = dict(k='none', n=0)
            times = [0] * len(tasks)
        return dict(tasks=tasks, times=times, threads=rng.choice([1, 2, 3, 4, 8, 0]), cpus=rng.choice([1, 2, 3]), nargs=rng.choice([0, 0, 1, 2]), eof=rng.choice([0, 0, 60000000, 3000000000]),
            sched=gen_sched(rng, {k: STDF[k] for k in ('inshort', 'outshort', 'outintr', 'spur', 'wake')}))
    def run(self, sc, ctx):
        W = self.W
        m = {'/cmd%d' % k: {'SetPart': dict(part='Fragment', value={'CommandOutput': dict(program='slow%d' % k, args=[{'Part': 'Host'}])})} for k in range(len(W))}
        m.update({'/net': {'ExpandRedirect': {}}, '/fail': {'Error': 'boom'}, '/retry0': {'Retry': dict(mapper={'Error': 'boom'}, delay=.5, limit=3)}})
        m['/stall'] = {'ExpandRedirect': {}}
        ctx.write('config.json', dict(cache_path=':memory:', params=dict(read_cache=False, write_cache=False), rules=[{'Mapper': {'PartMap': dict(part='Path', map=m)}}]))
        lines, d, world = [], [], dict(hosts={}, urls={}, progs={'slow%d' % k: [['z%d' % w, 'a']] for k, w in enumerate(W)})
        exp = []
        for i, t in enumerate(sc['tasks']):
            h = 'h%d.test' % i; q = '?' + 'q' * t['n'] if t.get('n') else ''
            if t['k'] == 'cmd': u = 'http://%s/cmd%d%s' % (h, t['w'], q); exp.append(('ok', u + '#' + h)); d.append(W[t['w']])
            elif t['k'] == 'none': u = 'http://%s/%s' % (h, q); exp.append(('ok', u)); d.append(0)
            elif t['k'] == 'fail': u = 'http://%s/fail' % h; exp.append(('err', 'boom', 'x')); d.append(0)
            elif t['k'] == 'retry': u = 'http://%s/retry0' % h; exp.append(('err', 'boom', 'x')); d.append(1000000)
            elif t['k'] == 'bad': u = 'nope'; exp.append(('bad',)); d.append(0)
            else:
                u = 'http://%s/%s' % (h, t['k'])
                w = W[t['w']]
                world['hosts'][h] = dict(dns=['ok'], conn=['ok'], tls='ok', ip='10.1.0.%d' % (i + 1), dnsdelay=w // 4, conndelay=w // 4)
                if t['k'] == 'net': world['urls'][u] = [dict(t='resp', status=302, headers=[['Location', 'http://%s/done%s' % (h, q)]], delay=w // 2)]; exp.append(('ok', 'http://%s/done%s' % (h, q))); d.append(w)
                else: world['urls'][u] = [dict(t='stall')]; exp.append(('err', None, 'x')); d.append(30000000)
                if t['k'] == 'net': # the target is asked too unless redirects are not followed
                    world['urls']['http://%s/done%s' % (h, q)] = [dict(t='resp', status=200, headers=[], delay=0)]; d[-1] += w // 4
            lines.append(u)
        na = min(sc['nargs'], len(lines))
        n = ctx.node(['--config', 'config.json', '--threads', str(sc['threads'])] + lines[:na])
        ch = []
        times = [0] * na + sc['times'][na:len(lines)]
        times += [times[-1] if times else 0] * (len(lines) - len(times))
        for l, t in zip(lines[na:], times[na:]):
            if ch and ch[-1][0] == t: ch[-1] = (t, ch[-1][1] + l.encode() + b'\n')
            else: ch.append((t, l.encode() + b'\n'))
        eof = (times[-1] if times else 0) + sc['eof']
        if sc['eof']: ch.append((eof, b''))
        n.stdin(ch); n.lines += World(world).lines()
        r = ctx.run(n, cfg_of(sc['sched'], cpus=sc['cpus']))
        check_lines(r, exp)
        N = sc['threads'] or sc['cpus']
        done, worst = [], 0
        slack = r.steps * 2 + 20000      # simulated computing: one microsecond a step
        seen, stamps = 0, []
        for tm, nd, fd, b in r.out_events:
            if fd == 1: stamps += [tm // 1000] * b.count(b'\n')
        lim = 0
        for i in range(len(exp)):
            done.append(max(times[i], done[i - N] if i >= N else 0) + d[i])
            lim = max(lim, done[i])
            if stamps[i] > lim + slack: raise Violation('late', 'result %d was written at %.3f s; it and all earlier ones were ready by %.3f s (%d threads, slack %.3f s)' % (i, stamps[i] / 1e6, lim / 1e6, N, slack / 1e6))
        if r.now // 1000 > max(lim, eof) + slack: raise Violation('late-end', 'the run ended at %.3f s; it had nothing to do after %.3f s' % (r.now / 1e9, max(lim, eof) / 1e6))
        ctx.probe('results_timed', len(exp)); ctx.probe('overlapping_runs', N > 1 and sum(x > 0 for x in d) > 1); ctx.probe('late_eof_runs', sc['eof'] > 0)

class C07(Prop):
    id = 'C07'
    quick = 15000; thorough = 450000; quick_s = 30
    rule = 'A byte stream of lines (LF, CRLF, stray CR and NUL bytes, invalid UTF-8, empty and very long lines, with or without a last line ending) is delivered on STDIN in arbitrary pieces, delays, short and interrupted reads, optionally with a read error at an arbitrary byte; results are compared with the lines of the stream.'
    # texts that look as if a line ended, was a comment or held two things: what follows the host, and how it is written out without the fragment
    ODD = [('/a b', '/a%20b'), ('/a #x', '/a%20'), ('/a # x y', '/a%20'), ('/a // c', '/a%20//%20c'), ('/a\tb', '/ab'), ('/a ', '/a'), ('/a  \t', '/a'), ('/a,http://b.test/', '/a,http://b.test/'), ('/a;b', '/a;b'), ('/a http://b.test/', '/a%20http://b.test/'),
        ('/"a"', '/%22a%22'), ("/'a'", "/'a'"), ('/{a}', '/%7Ba%7D'), ('/a|b', '/a|b'), ('/a\\b', '/a/b'), ('/a\\n', '/a/n'), ('/%0A', '/%0A'), ('/%zz', '/%zz'), ('/a\x0bb', '/a%0Bb'), ('/a\x0cb', '/a%0Cb'), ('/a\x1ab', '/a%1Ab'), ('/a\x1eb', '/a%1Eb'), ('/a\u0085b', '/a%C2%85b'), ('/a\u2028b', '/a%E2%80%A8b'), ('/a\u2029b', '/a%E2%80%A9b'),
        ('/a\u00a0', '/a%C2%A0'), ('/a\x7f', '/a%7F'), ('/a\ufeff', '/a%EF%BB%BF'), ('/?a=b c', '/?a=b%20c'), ('/?a=$(b)`c`', '/?a=$(b)`c`'), ('/a=1&b=2', '/a=1&b=2'), ('?x', '/?x'), ('', '/'), ('/-', '/-'), ('/a\x1b[0m', '/a%1B[0m')]
    def gen(self, rng, tier, idx):
        n = rng.choice([0, 1, 2, 3, 6, 12])
        tasks = []
        for i in range(n):
            x = rng.random()
            h = 'h%d.test' % i
            if x < .35: tasks.append(gen_task(rng, i, bad=0))
            elif x < .5: tasks.append(dict(raw=rng.choice(BAD if rng.random() < .4 else ODDBAD)))
            elif x < .65: tasks.append(dict(hex=rng.choice(HEXBAD)))
            elif x < .72: tasks.append(dict(url='http://%s/pq' % h, bytes=('http://%s/p\rq' % h).encode().hex()))
            elif x < .78: tasks.append(dict(url='http://%s/%%00x' % h, bytes=('http://%s/\0x' % h).encode().hex()))
            elif x < .84: tasks.append(dict(url='http://%s/%s' % (h, 'y' * rng.choice([100, 8190, 8191, 8192, 9000, 40000] if rng.random() < .94 else [65536, 131072, 200000, 1100000]))))
            elif x < .89:
                a, b = rng.choice(self.ODD); f = rng.choice(['http://%s', 'HTTP://%s', ' http://%s', '\thttp://%s', 'http:%s', 'http:\\\\%s', 'http:///%s', '\x01http://%s'])
                tasks.append(dict(url='http://%s' % h, bytes=(f % h + a).encode().hex(), canon='http://%s%s' % (h, b)))
            elif x < .93: tasks.append(dict(url='http://%s/\u00e9\u20ac' % h, canon='http://%s/%%C3%%A9%%E2%%82%%AC' % h))
            else: tasks.append(dict(raw=''))
        for t in tasks: t['nl'] = rng.choice(['0a', '0a', '0a', '0d0a'])
        return dict(tasks=tasks, tail=rng.random() < .6, threads=rng.choice([1, 2, 3, 8]), cuts=[rng.random() for _ in range(rng.choice([0, 1, 3, 10]))], gaps=rng.choice([0, 10, 100000]), nargs=rng.choice([0, 0, 1]),
            err=None if rng.random() < .55 else dict(at=rng.random(), line=rng.random() < .3, kind=rng.choice(['err', 'errforever']), errno=rng.choice([5, 5, 11, 21, 110])),
            sched=gen_sched(rng, dict(STDF, stall=[2000])))
    def run(self, sc, ctx):
        ctx.write('config.json', dict(cache_path=':memory:', rules=[{'condition': {'PathIs': '/p0'}, 'mapper': {'Error': 'boom'}}, {'Mapper': {'SetPart': dict(part='Fragment', value={'Part': 'Host'})}}]))
        body = b''; exp = []; ends = []
        for i, t in enumerate(sc['tasks']):
            last = i == len(sc['tasks']) - 1
            b = bytes.fromhex(t['bytes']) if 'bytes' in t else task_bytes(t)
            nl = bytes.fromhex(t['nl'])
            if last and not sc['tail'] and b: nl = b''
            body += b + nl; ends.append(len(body) if nl else len(body) + 1)
            if is_bad(t): exp.append(('bad',)); continue
            u = t.get('canon', t['url']); base = u.split('#')[0]; path = '/' + base.split('://')[1].split('?')[0].split('/', 1)[1]
            exp.append(('err', 'boom', 'x') if path == '/p0' else ('ok', base + '#' + base.split('://')[1].split('/')[0]))
        pos = sorted({int(c * len(body)) for c in sc['cuts']} - {0})
        ch, t, a = [], 0, 0
        cutat = None
        if sc['err'] and body:
            cutat = int(sc['err']['at'] * (len(body) + 1))
            if sc['err']['line']: cutat = min([e for e in ends if e >= cutat] or [len(body)]); cutat = min(cutat, len(body))
        for p in sorted(set(pos + [len(body)] + ([cutat] if cutat is not None else []))):
            if p > a: ch.append((t, body[a:p])); a = p; t += sc['gaps']
            if p == cutat: ch.append((t, sc['err']['kind'], sc['err']['errno'])); t += sc['gaps']
        if sc['err'] and not body: cutat = 0; ch.append((0, sc['err']['kind'], sc['err']['errno']))
        extra = []
        if sc['nargs']: extra = ['http://arg.test/']
        n = ctx.node(['--config', 'config.json', '--threads', str(sc['threads'])] + extra); n.stdin(ch)
        full = ([('ok', 'http://arg.test/#arg.test')] if extra else []) + exp
        r = ctx.run(n, cfg_of(sc['sched'], stallmax=3, maxsteps=300000 + 40 * len(body)))
        ctx.probe('lines', len(exp)); ctx.probe('stream_bytes', len(body))
        if not sc['err']: check_lines(r, full); return
        ctx.probe('read_errors')
        k = sum(1 for e in ends if e <= cutat) + len(extra)     # complete lines before the failure
        ls = entries_lines(r)
        want = [e[1].encode() if e[0] == 'ok' else b'' for e in full]
        if ls[:k] != want[:k]: raise Violation('result', 'lines complete before the read error gave %r, expected %r' % (ls[:k], want[:k]))
        rest, j = ls[k:], k
        for l in rest:
            if l == b'': continue
            while j < len(want) and want[j] != l: j += 1
            if j >= len(want): raise Violation('fragment', 'after the read error at byte %d of %r a result %r was written that belongs to no line' % (cutat, body[-200:], l))
            j += 1
        x = exit_of(r)
        if x[0] != 'exit' or x[1] == 0: raise Violation('unreported', 'a read error on STDIN ended with %r' % (x,))
        err = bytes(r.outs[0][2]).split(b'\n')[:-1]
        bad = sum(1 for e in full[:k] if e[0] != 'ok')
        if len(err) <= bad: raise Violation('unreported', 'no diagnostic for the read error on STDIN: %r' % err)
        if len(rest) > len(full) - k + 2: raise Violation('invented', '%d results after the read error, %d lines were left' % (len(rest), len(full) - k))

class C08(Pipeline):
    id = 'C08'
    quick = 5000; thorough = 150000; quick_s = 30
    rule = 'STDOUT fails (closed pipe, full disk, I/O error; once or for good) at an arbitrary byte, with short and interrupted writes, in line and JSON mode; what was written must be a prefix of the correct output and the exit status must not claim completion.'
    feats = dict(net=0.15, cmd=0.15, commons=False, depth=2, budget=15)
    def json_mode(self, rng): return rng.random() < .5
    def extra(self, rng, sc): sc['fail'] = None if rng.random() < .15 else dict(at=rng.random(), last=rng.random() < .2, errno=rng.choice([32, 28, 5, 27]), sticky=rng.random() < .7, fd=2 if rng.random() < .15 else 1)
    def run(self, sc, ctx):
        exp = self.expected(sc)
        # the correct output, from a run without faults (checked against the model)
        r0 = ctx.run(self.node(sc, ctx), self.cfg(dict(sc, sched=dict(sc['sched'], faults={}))))
        (check_json if sc.get('json') else check_lines)(r0, exp)
        good = bytes(r0.outs[0][1])
        n = self.node(sc, ctx)
        f = sc['fail']
        at = None
        if f and f.get('fd') == 2:      # STDERR fails: the results are right, or the run says that it did not complete
            e0 = bytes(r0.outs[0][2])
            if not e0: return
            n.lines.append('outfail 2 %d %d %d' % (len(e0) - 1 if f['last'] else int(f['at'] * len(e0)), f['errno'], f['sticky']))
            r = ctx.run(n, self.cfg(sc)); out = bytes(r.outs[0][1]); x = exit_of(r)
            ctx.probe('stderr_faults')
            if not good.startswith(out): raise Violation('not-prefix', 'STDERR failed; written %r, which is no prefix of %r' % (out[-300:], good[-300:]))
            if x[0] != 'exit' or x[1] in (0, 1, 2) and (out != good or x != exit_of(r0)): raise Violation('claims-success', 'STDERR failed (errno %d), %d of %d bytes were written and the run ended with %r' % (f['errno'], len(out), len(good), x))
            return
        if f and good: at = len(good) - 1 if f['last'] else int(f['at'] * len(good)); n.lines.append('outfail 1 %d %d %d' % (at, f['errno'], f['sticky']))
        r = ctx.run(n, self.cfg(sc))
        out = bytes(r.outs[0][1])
        if at is None:
            if out != good: raise Violation('differs', 'output %r, expected %r' % (out[-300:], good[-300:]))
            return
        ctx.probe('output_faults')
        if not good.startswith(out): raise Violation('not-prefix', 'STDOUT failed at byte %d; written %r, which is no prefix of %r' % (at, out[-300:], good[-300:]))
        x = exit_of(r)
        if x[1] in (0, 1, 2): raise Violation('claims-success', 'STDOUT failed at byte %d of %d (errno %d), and the run ended with status %d' % (at, len(good), f['errno'], x[1]))
