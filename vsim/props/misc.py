"""X01: external commands; L01: what the run is configured by."""
import json, copy, os, re
from urllib.parse import quote_plus
from vsim.harness import Prop, Violation, gen_sched, cfg_of, H
from vsim.gen import *
from vsim.model import Model, World, Err, apply_diff
from vsim.props.core import Pipeline, NETF, STDF, TIMEF, CHILDF
from vsim.sim import exit_of, hx

WEIRD = ['', ' ', 'a b', '\n', 'x\ny\n', '\t', '"q"', "'", '\\', '$HOME', '`id`', '; ls', '--flag', '-', '\u00e9', '\u20ac\U0001f600', '\ufeff', '%00', '\x01', '\x7f', '*', '~', '=', 'a=b', '\r\n', '\u0000', 'a\u0000b']
def text(r, big=False):
    x = r.random()
    if x < .4: return r.choice(WEIRD)
    if x < .7: return token(r)
    if x < .75 or not big: return token(r) + r.choice(WEIRD) + token(r)
    n = r.choice([4095, 4096, 65535, 65536, 65537, 70000, 131072, 200000, 300000])
    s = r.choice(['ab', 'x', '\u00e9', '\u20ac', '\U0001f600'])
    return token(r) + s * (n // len(s.encode())) + token(r)
def enc(x): return quote_plus(x, safe='*').replace('~', '%7E')

class X01(Prop):
    id = 'X01'
    quick = 15000; thorough = 450000; quick_s = 30
    rule = 'Inputs run one to three commands each, nested in arguments, environment and STDIN of one another, on several threads, with arbitrary text of up to 300 kB going in; the commands write before, while or after reading, copy, stop reading, close their streams, sleep, exit with any status, are killed by signals, print text split anywhere or not text at all, or cannot be started; results, and what every command was given and consumed, are compared with what was configured.'
    PROGS = ['p0', 'p1', 'p2', 'p3', '/bin/p4', './p5']
    def behaviour(self, r, stdin, big):
        tk = token(r)
        def write(): 
            x = r.random()
            if x < .35: return ['a']
            if x < .5: return ['v:E1']
            if x < .6: return ['v:E0', 'w1:' + hx('|'), 'v:E2']
            if x < .66: return ['v:INH']
            if x < .7: return ['N:' + r.choice(['E0', 'E1', 'E1', 'INH'])]
            if x < .8: return ['w1:' + hx(tk)]
            if x < .9: return ['W1:%d:%d' % (r.choice([1, 4096, 65536, 65537, 140000, 300000] if big else [1, 5, 100]), r.choice([97, 10, 122]))]
            s = ('\u00e9\u20ac\U0001f600' + tk).encode(); k = r.randrange(1, len(s))
            return ['w1:' + s[:k].hex(), 'z%d' % r.choice([0, 100, 5000]), 'w1:' + s[k:].hex()]
        ops = []
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            if x < .45: ops += write()
            elif x < .6: ops += ['r*']
            elif x < .7: ops += ['r%d' % r.choice([0, 1, 3, 4096, 65536, 100000])]
            elif x < .82: ops += ['e']
            elif x < .87: ops += ['c0']
            elif x < .9: ops += ['W2:%d:69' % r.choice([10, 70000])] if r.random() < .6 else ['w2:' + hx('DoTaskError\tforged\n')]
            else: ops += ['z%d' % r.choice([1, 100, 10000, 1000000])]
        if r.random() < .08: ops += ['w1:' + r.choice(['ff', 'c3', 'f09f98', 'eda080', '61ff62', 'c0af'])]
        if big == 2 and not any(o[0] == 'W' for o in ops): ops += ['W1:%d:%d' % (r.choice([1 << 20, 4200000, 5000000]), 97)]
        if r.random() < .06: ops += ['c1']
        x = r.random()
        if x < .3: ops += ['x%d' % r.choice([0, 0, 1, 2, 127, 255])]
        elif x < .4: ops += ['k%d' % r.choice([9, 11, 15, 6])]
        if big and r.random() < .5: ops = r.choice([['e'], ['r*', 'a'], ['a', 'r*'], ['W1:140000:97', 'r*'], ['r70000', 'W1:100000:98', 'e'], ['v:E0', 'e', 'v:E1'], ['r1', 'x0'], ['z1000']])
        if r.random() < .06: ops = ['spawnfail:%d' % r.choice([2, 7, 11, 12, 13, 26])]
        return ops
    def gen(self, rng, tier, idx):
        r = rng
        big = r.random() < .2
        if r.random() < .003: big = 2          # megabytes of output
        n = r.choice([1, 1, 2, 3, 5, 8]) if not big else r.choice([1, 1, 2, 3])
        progs = {p: None for p in r.sample(self.PROGS, r.choice([1, 2, 3, 4]))}
        for p in progs: progs[p] = self.behaviour(r, None, big)
        names = []
        def src(d):
            x = r.random()
            if d and x < .15: return dict(cmd=cmd(d - 1))
            if x < .25: return dict(lit=text(r))
            if x < .32: return dict(none=1)
            nm = 'x%d' % (r.randrange(4))
            names.append(nm); return dict(var=nm)
        def cmd(d):
            c = dict(program=r.choice(sorted(progs)) if r.random() < .95 else 'nosuch')
            c['args'] = [src(d) for _ in range(r.choice([0, 1, 1, 2, 3]))]
            if r.random() < .6: c['envs'] = {k: src(d if not i else 0) for i, k in enumerate(r.sample(['E0', 'E1', 'E2'], r.choice([1, 2])))}   # evaluated in no particular order: at most one has effects
            if r.random() < .6: c['stdin'] = src(d)
            if r.random() < .2: c['cwd'] = r.choice(['sub', 'sub/deeper', '.', 'missing', 'sub/../sub', 'file.txt'])
            return c
        cmds = [dict(c=cmd(big != 2), guard=r.random() < .7) for _ in range(r.choice([1, 1, 2, 3]) if big != 2 else 1)]
        if big == 2: n = 1
        tasks = [dict(url='http://h%d.test/' % i, form='json', ctx={nm: text(r, big) for nm in sorted(set(names)) if r.random() < .95}) for i in range(n)]
        env = {}
        if r.random() < .5: env['INH'] = r.choice([token(r), 'a b', ''])
        if r.random() < .3: env[r.choice(['E0', 'E1'])] = token(r)
        return dict(cmds=cmds, progs=progs, tasks=tasks, env=env, threads=r.choice([1, 1, 2, 3, 5]), cpus=r.choice([1, 2, 4]), times=batches_of(r, tasks), json=r.random() < .2, sched=gen_sched(r, dict(STDF, **CHILDF, stall=[2000])))
    # what should happen
    def value(self, s, t):
        if 'lit' in s: return s['lit']
        if 'none' in s: return None
        if 'var' in s: return t['ctx'].get(s['var'])
        return self.command(s['cmd'], t)
    def command(self, c, t):
        def req(s):
            v = self.value(s, t)
            if v is None: raise Err('none')
            return v
        args = [req(a) for a in c['args']]
        envs, bad = {}, None
        for k, s in (c.get('envs') or {}).items():   # in no particular order: all are evaluated unless one fails
            v = self.value(s, t)
            if v is not None: envs[k] = v
        stdin = req(c['stdin']) if 'stdin' in c else None
        nul = any('\0' in x for x in args + list(envs.values()))
        ops = self.sc['progs'].get(c['program'])
        if nul: raise Err('nul')
        if ops is None or ops[0].startswith('spawnfail') or c.get('cwd') in ('missing', 'file.txt'): self.fails.append(c['program']); raise Err('start')
        full = dict(self.sc['env'], **envs)
        out, rest, got, dead = b'', (stdin or '').encode(), b'', False
        w1 = True; r0 = True
        for o in ops:
            if o[0] == 'r':
                k = len(rest) if o[1] == '*' else int(o[1:])
                if r0: got += rest[:k]; rest = rest[k:]
            elif o[0] == 'e':
                if r0: got += rest; out += rest if w1 else b''; rest = b''
            elif o[0] == 'c': r0, w1 = r0 and o[1] != '0', w1 and o[1] != '1'
            elif o[0] in 'xk': break
            elif not w1: pass
            elif o[0] == 'w': out += bytes.fromhex(o[3:]) if o[1] == '1' and o[3:] != '-' else b''
            elif o[0] == 'W': out += bytes([int(o.split(':')[2])]) * int(o.split(':')[1]) if o[1] == '1' else b''
            elif o[0] == 'a': out += '\n'.join(args).encode()
            elif o[0] == 'v': out += full.get(o[2:], '').encode()
            elif o[0] == 'N': out += b'set' if o[2:] in full else b'unset'
        self.spawns.append((c['program'], got, 'pipe' if stdin is not None else None, c.get('cwd')))
        try: return out.decode('utf8')
        except UnicodeDecodeError: raise Err('text')
    def conf(self, sc):
        def src(s):
            if 'lit' in s: return s['lit']
            if 'none' in s: return {'ErrorToNone': {'Error': 'none'}}
            if 'var' in s: return {'Var': dict(type='TaskContext', name=s['var'])}
            return {'CommandOutput': com(s['cmd'])}
        def com(c):
            x = dict(program=c['program'], args=[src(a) for a in c['args']])
            if 'envs' in c: x['envs'] = {k: src(v) for k, v in c['envs'].items()}
            if 'stdin' in c: x['stdin'] = src(c['stdin'])
            if 'cwd' in c: x['current_dir'] = c['cwd']
            return x
        rs = []
        for i, g in enumerate(sc['cmds']):
            v = {'CommandOutput': com(g['c'])}
            rs.append({'Mapper': {'SetPart': dict(part={'QueryParam': 'o%d' % i}, value={'TryElse': {'try': v, 'else': 'command-failed'}} if g['guard'] else v)}})
        return dict(rules=rs, params={}, cache_path=':memory:')
    def run(self, sc, ctx):
        self.sc, self.spawns, self.fails, exp = sc, [], [], []
        for t in sc['tasks']:
            q = []; e = None
            for i, g in enumerate(sc['cmds']):
                try: q.append('o%d=%s' % (i, enc(self.command(g['c'], t))))
                except Err:
                    if not g['guard']: e = ('err', None, 'cmd'); break
                    q.append('o%d=command-failed' % i)
            exp.append(e or ('ok', t['url'] + '?' + '&'.join(q)))
        os.makedirs(ctx.path('sub/deeper')); ctx.write('file.txt', 'x')
        ctx.write('config.json', self.conf(sc))
        n = ctx.node(['--config', 'config.json', '--threads', str(sc['threads'])] + (['--json'] if sc['json'] else []), env=sc['env'])
        n.stdin(stdin_chunks(sc['tasks'], sc['times']))
        for p, ops in sc['progs'].items(): n.lines.append('child %s 0 %s' % (hx(p), ' '.join(ops)))
        r = ctx.run(n, cfg_of(sc['sched'], cpus=sc['cpus'], stallmax=2, maxsteps=6000000))
        (check_json if sc['json'] else check_lines)(r, exp)
        pids, fails, got, cwd = {}, [], {}, {}
        for e in r.events:
            f = e[4]
            if f[0] == 'child' and f[1] == 'spawn':
                pids[f[2]] = (f[3], f[4]); got[f[2]] = b''
                if f[5] != 'stdout=pipe': raise Violation('stream', 'a command writes to the run\'s own output')
            elif f[0] == 'child' and f[1] == 'spawn-fail': fails.append(f[2])
            elif f[0] == 'child' and f[1] == 'cwd': cwd[f[2]] = bytes.fromhex(f[3]).decode()
            elif f[0] == 'childin': got[f[1]] += bytes.fromhex(f[2]) if f[2] != '-' else b''
            elif f[0] == 'childout': raise Violation('stream', 'a command wrote to the run\'s own %s' % {'1': 'output', '2': 'diagnostics'}.get(f[1], f[1]))
        for p, (prog, si) in pids.items():
            if si == 'stdin=inherit': raise Violation('stream', 'command %s shares the run\'s own STDIN' % prog)
        real = lambda d: os.path.realpath(os.path.join(ctx.dir, d or '.'))
        a = sorted((pids[p][0], got[p], real(cwd.get(p))) for p in pids); b = sorted((s[0], s[1], real(s[3])) for s in self.spawns)
        if a != b: raise Violation('commands', 'commands started, what they read and where they ran: %r; expected %r' % ([(x, y[:80], len(y), z) for x, y, z in a if (x, y, z) not in b] or len(a), [(x, y[:80], len(y), z) for x, y, z in b if (x, y, z) not in a] or len(b)))
        if sorted(fails) != sorted(self.fails): raise Violation('commands', 'commands that could not be started: %r; expected %r' % (sorted(fails), sorted(self.fails)))
        ctx.probe('commands', len(a)); ctx.probe('failed_starts', len(fails)); ctx.probe('stdin_over_a_pipe', sum(len(x[1]) > 65536 for x in a)); ctx.probe('failed_inputs', sum(e[0] != 'ok' for e in exp)); ctx.probe('signals', sum(o[0] == 'k' for p in sc['progs'].values() for o in p))

FLAGS, VARS, SETS, ELS, MAPS, KEYS = ['f0', 'F0', ' f0 '], ['v0', 'v0 ', 'V0'], ['st0', 'st0 '], ['e0', 'E0', 'e0 '], ['m0', 'm1', '\u00e9 m'], ['x', 'X', 'x ']
def sub(r, l): return r.sample(l, r.choice([0, 0, 1, 2]))
def full_diff(r, client):
    d = {}
    def put(k, v):
        if v and r.random() < .5: d[k] = v
    put('flags', sub(r, FLAGS)); put('unflags', sub(r, FLAGS)); put('vars', {v: token(r) for v in sub(r, VARS)}); put('unvars', sub(r, VARS))
    put('init_sets', sub(r, SETS)); put('insert_into_sets', {s: sub(r, ELS) for s in sub(r, SETS)}); put('remove_from_sets', {s: sub(r, ELS) for s in sub(r, SETS)}); put('delete_sets', sub(r, SETS))
    put('init_maps', sub(r, MAPS)); put('map_diffs', {m: dict(insert_into_map={k: token(r) for k in sub(r, KEYS)}, remove_from_map=sub(r, KEYS)) for m in sub(r, MAPS)}); put('delete_maps', sub(r, MAPS))
    if r.random() < .1: d['read_cache'] = r.random() < .5
    if r.random() < .1: d['write_cache'] = r.random() < .5
    if client and r.random() < .4: d['http_client_config_diff'] = gen_clientdiff(r)
    return d
def cli_of(r):
    """Parameter options -> (arguments, the diff they mean)."""
    a, d = [], {}
    for f in sub(r, FLAGS): a.append([r.choice(['--flag', '-f']), f]); d.setdefault('flags', []).append(f)
    for f in sub(r, FLAGS): a.append([r.choice(['--unflag', '-F']), f]); d.setdefault('unflags', []).append(f)
    for v in sub(r, VARS): t = token(r); a.append([r.choice(['--var', '-v']), v, t]); d.setdefault('vars', {})[v] = t
    for v in sub(r, VARS): a.append([r.choice(['--unvar', '-V']), v]); d.setdefault('unvars', []).append(v)
    for opt, key, names, vals in (('--insert-into-set', 'insert_into_sets', SETS, ELS), ('--remove-from-set', 'remove_from_sets', SETS, ELS)):
        if r.random() < .4:
            for _ in range(r.choice([1, 1, 2, 3])): s, e = r.choice(names), sub(r, vals); a.append([opt, s] + e); d.setdefault(key, {}).setdefault(s, []).extend(e)
    if r.random() < .4:
        used = {}
        for _ in range(r.choice([1, 1, 2, 3])):
            m = r.choice(MAPS); ks = [k for k in r.sample(KEYS, r.choice([1, 1, 2])) if k not in used.setdefault(m, set())]   # the same key twice has no defined winner
            if ks: used[m] |= set(ks); kv = {k: token(r) for k in ks}; a.append(['--insert-into-map', m] + [y for x in kv.items() for y in x]); d.setdefault('map_diffs', {}).setdefault(m, {}).setdefault('insert_into_map', {}).update(kv)
    if r.random() < .4:
        for _ in range(r.choice([1, 2])): m, ks = r.choice(MAPS), sub(r, KEYS); a.append(['--remove-from-map', m] + ks); d.setdefault('map_diffs', {}).setdefault(m, {}).setdefault('remove_from_map', []).extend(ks)
    return a, d
S = lambda t, n: {'NoneTo': dict(value={'Var': dict(type=t, name=n)}, if_none='-')}
SHOW = {'Mapper': {'SetPart': dict(part='Fragment', value={'Join': dict(join='.', sources=[{'IfFlag': {'type': 'Params', 'name': f, 'then': 'F', 'else': '-'}} for f in FLAGS] + [S('Params', v) for v in VARS] +
    [{'IfStringMatches': {'value': e, 'matcher': {'InSet': s}, 'then': 'I', 'else': '-'}} for s in SETS for e in ELS] + [{'ErrorToNone': {'NoneTo': dict(value={'ParamsMap': dict(name=m, key=k)}, if_none='-')}} for m in MAPS for k in KEYS] + [S('JobContext', 'j0')])})}}
SHOW['Mapper']['SetPart']['value']['Join']['sources'] = [{'NoneTo': dict(value=x, if_none='!')} for x in SHOW['Mapper']['SetPart']['value']['Join']['sources']]

class L01(Prop):
    id = 'L01'
    quick = 20000; thorough = 600000; quick_s = 30
    rule = 'A run is configured by a config file, several parameter diff files, parameter options, a job context or test files. Some runs find one of these cut at any byte, emptied, zeroed, missing, unreadable, a directory, not UTF-8, with something after its end or with an unknown construct; opens and reads fail, come up short or are interrupted. Such a run must stop with a nonzero status before any result, connection, command or cache access; every other run must give exactly what the reference model, which is given the configuration as data, gives.'
    def gen(self, rng, tier, idx):
        r = rng
        mode = 'clean' if r.random() < .75 else 'tests'
        net = r.random() < .4 and mode == 'clean'
        pg = PGen(r, net=net, cmd=r.random() < .3 and mode == 'clean', commons=r.random() < .3, depth=2, budget=12)
        prog = pg.program(r.choice([1, 2]))
        pre = [{'Mapper': {'CacheUrl': dict(category='k', mapper={'SetPart': dict(part={'QueryParam': 'zz'}, value='1')})}}] if r.random() < .5 else []
        conf = dict(prog, rules=pre + prog['rules'] + [SHOW])
        params = gen_params(r); params['sets'] = {s: sub(r, ELS) for s in r.sample(SETS, r.choice([0, 1, 2]))}
        if net: params['http_client_config'] = gen_client(r)
        diffs = [full_diff(r, net) for _ in range(r.choice([0, 0, 1, 2, 3, 4]))]
        cli, cd = cli_of(r) if r.random() < .6 else ([], {})
        job = {'j0': token(r)} if r.random() < .6 else None
        n = r.choice([1, 1, 2, 3])
        tasks = [gen_task(r, i, bad=.05) for i in range(n)]
        sc = dict(config=conf, params=params, diffs=diffs, cli=cli, cd=cd, job=job, tasks=tasks, threads=r.choice([1, 2, 3]), json=r.random() < .2, sched=gen_sched(r, dict(STDF, **CHILDF)))
        sc['mode'] = mode
        fl = {}
        if r.random() < .35: fl.update(fsshort=r.choice([300000, 900000]), fsintr=r.choice([100000, 400000]))
        if r.random() < .3: fl[r.choice(['fsopen', 'fsread', 'fsread'])] = [r.choice([50000, 300000]), 1]
        sc['sched']['faults'] = dict(sc['sched']['faults'], **fl)
        w = World(dict(progs=pg.progs), WGen(r.randrange(1 << 40), slow=False))
        sc['world'] = freeze(conf, self.eff(sc), tasks, w, job_vars=job or {})
        if mode == 'tests': self.gen_tests(r, sc)
        sc['hurt'] = None
        if r.random() < .42:
            t = ['config'] * 3 + ['d%d' % i for i in range(len(diffs))] * 2 + (['t%d' % i for i in range(len(sc['tests']))] * 2 if mode == 'tests' else (['job'] if job else []) + ['opt'])
            t = r.choice(t)
            k = r.choice(['cut', 'cut', 'cut', 'cut', 'missing', 'dir', 'utf8', 'tail', 'empty', 'zeros', 'unknown', 'dup', 'perm', 'twice', 'twice'] if t != 'job' else ['cut', 'cut', 'tail', 'unknown', 'twice'])
            sc['hurt'] = dict(file=t, kind=k, at=r.random(), x=r.choice(['}', '{}', 'x', ',', ']', '\\u0000', 'null']))
        sc['times'] = batches_of(r, tasks)
        return sc
    def eff(self, sc):
        p = sc['params']
        for d in sc['diffs'] + ([sc['cd']] if sc['cd'] else []): p = apply_diff(p, d)
        return p
    def gen_tests(self, r, sc):
        """Test files whose expectations come from the model, and sometimes a wrong one."""
        sc['tests'] = []
        sc['wrong'] = False
        bad = r.random() < .35
        for _ in range(r.choice([1, 1, 2, 3])):
            sets = []
            for _ in range(r.choice([1, 2])):
                d = full_diff(r, False) if r.random() < .6 else None
                j = {'j0': token(r)} if r.random() < .5 else {}
                p = self.eff(sc)
                if d: p = apply_diff(p, d)
                m = Model(sc['config'], p, job_vars=j)
                ts = []
                for i in range(r.choice([0, 1, 2, 3]) if r.random() < .85 else r.choice([6, 9, 14, 20])):
                    t = gen_task(r, i, bad=0)
                    e = m.task(t['url'], t.get('ctx'))
                    ok = e[0] == 'ok'
                    res = e[1] if ok else t['url']
                    if bad and r.random() < (.4 if i < 3 else .1) and ok: res += r.choice(['x', '?q', '-']); ok = False
                    sc['wrong'] = sc['wrong'] or not ok
                    ts.append(dict(task_config=t['url'] if t.get('form', 'plain') != 'json' else dict(url=t['url'], context=dict(vars=t.get('ctx') or {})), result=res))
                s = dict(tests=ts)
                if d is not None: s['params_diff'] = d
                if j: s['job_context'] = dict(vars=j)
                sets.append(s)
            sc['tests'].append(dict(sets=sets))
    def put(self, ctx, sc, name, doc):
        h = sc['hurt']
        data = json.dumps(doc).encode()
        f = name + '.json'
        if not h or h['file'] != name: ctx.write(f, data); return f
        data = self.twice(h, doc) if h['kind'] == 'twice' else self.harm(h, data)
        if data is None: return f                       # missing
        if data == 'dir': os.makedirs(ctx.path(f)); return f
        ctx.write(f, data); return f
    def twice(self, h, doc):
        """States one parameter twice, with the same or another value."""
        doc = copy.deepcopy(doc)
        c = []
        def look(x):
            if isinstance(x, list):
                for v in x: look(v)
            if not isinstance(x, dict): return
            for k, v in x.items():
                if k in ('config', 'commons', 'rules', 'tests'): 
                    if k == 'tests': look(v)
                    continue
                if isinstance(v, dict) and v and k in ('vars', 'sets', 'lists', 'maps', 'map', 'named_partitionings', 'insert_into_sets', 'remove_from_sets', 'map_diffs', 'insert_into_map'): c.append(v)
                if isinstance(v, list) and v and k in ('flags', 'unflags', 'unvars', 'remove_from_map'): c.append(v)
                look(v)
        look(doc)
        if not c: return json.dumps(doc).encode()[:-1]
        v = c[int(h['at'] * len(c))]
        if isinstance(v, list): v.insert(0 if h['x'] == '}' else len(v), v[len(h['x']) % len(v)]); return json.dumps(doc).encode()
        k = sorted(v)[len(h['x']) % len(v)]
        w = dict(v)
        if h['x'] in ('}', ',', 'x'): v.clear(); v['@@TWICE@@'] = copy.deepcopy(w[k]); v.update(w)
        else: v['@@TWICE@@'] = copy.deepcopy(sorted(w.items())[0][1])
        return json.dumps(doc).replace('"@@TWICE@@"', json.dumps(k)).encode()
    def harm(self, h, data):
        k = h['kind']
        if k == 'twice': return self.twice(h, json.loads(data))
        if k == 'cut': return data[:int(len(data) * h['at'])]
        if k == 'missing': return None
        if k in ('dir', 'perm'): return 'dir'
        if k == 'empty': return b''
        if k == 'zeros': return bytes(len(data))
        if k == 'tail': return data + h['x'].encode()
        if k == 'dup': return data + data
        if k == 'utf8':
            i = [m.end() for m in re.finditer(rb'"[a-z]', data)]
            i = i[int(h['at'] * len(i))] if i else 0
            return data[:i] + b'\xff' + data[i:]
        if k == 'unknown': return b'{"rules":[{"Mapper":"NoSuchMapper"}],"flags":"not a list","sets":7,"vars":7}'
    def run(self, sc, ctx):
        h, tests = sc['hurt'], sc['mode'] == 'tests'
        conf = dict(sc['config']); conf['params'] = sc['params']; conf['cache_path'] = 'cache.sqlite'
        a = []
        if h and h['file'] == 'opt': a += [['--insert-into-map', 'm0', 'k'], ['--var', 'x'], ['--no-such-option'], ['--threads', 'x'], ['--read-cache', 'maybe'], ['--proxy', 'http://[::']][int(h['at'] * 6)]
        a += [x for o in sc['cli'] for x in o]
        a += ['--config', self.put(ctx, sc, 'config', conf), '--threads', str(sc['threads'])]
        for i, d in enumerate(sc['diffs']): a += ['--params-diff', self.put(ctx, sc, 'd%d' % i, d)]
        if tests:
            for i, t in enumerate(sc['tests']): a += ['--tests', self.put(ctx, sc, 't%d' % i, t)]
        elif sc['job'] is not None:
            j = json.dumps(dict(vars=sc['job']))
            if h and h['file'] == 'job': j = self.harm(h, j.encode()).decode()
            a += ['--job-context', j]
        if sc['json']: a += ['--json']
        n = ctx.node(a)
        n.stdin(stdin_chunks(sc['tasks'], sc['times']))
        n.lines += World(copy.deepcopy(sc['world'])).lines()
        r = ctx.run(n, cfg_of(sc['sched'], cpus=2, stallmax=2, lines=['fsfaultpath .json']))
        out, err = bytes(r.outs[0][1]), bytes(r.outs[0][2])
        x = exit_of(r, 0)
        fired = [e for e in r.events if e[4][0] == 'fault' and e[4][-1] not in ('4', 'EINTR')]
        opened = [e for e in r.events if e[4][:2] == ['fs', 'open'] and 'cache' in e[4][3]]
        used = [e for e in r.events if e[4][0] in ('net', 'child')]
        refuse = bool(h) or bool(fired)
        ctx.probe('refused', refuse); ctx.probe('hurt_' + h['kind'] if h else 'whole'); ctx.probe('read_faults', len(fired)); ctx.probe('test_runs', tests); ctx.probe('diffs', len(sc['diffs'])); ctx.probe('options', len(sc['cli']))
        if refuse:
            why = '%r %s' % (h, [' '.join(e[4]) for e in fired])
            if x[0] != 'exit' or x[1] == 0: raise Violation('accepted', 'the run went on with a configuration it cannot have understood (%s): exit %r, stdout %r' % (why, x, out[-300:]))
            if out and not tests or b'passed' in out: raise Violation('accepted', 'results were written although the configuration could not be used (%s): %r' % (why, out[-300:]))
            if used: raise Violation('accepted', 'a server or command was contacted although the configuration could not be used (%s): %r' % (why, used[0]))
            if opened or ctx.read('cache.sqlite') is not None: raise Violation('accepted', 'the cache was touched although the configuration could not be used (%s)' % why)
            if not err.strip(): raise Violation('silent', 'nothing says why the run stopped (%s)' % why)
            return
        if tests:
            if sc['wrong'] and (x[0] != 'exit' or x[1] == 0 or b'All tests passed' in out): raise Violation('tests', 'failing tests were reported as passing: exit %r stdout %r' % (x, out[-300:]))
            if not sc['wrong'] and (x != ('exit', 0) or out.strip() != b'All tests passed!'): raise Violation('tests', 'passing tests: exit %r stdout %r stderr %r' % (x, out[-300:], err[-600:]))
            ctx.probe('failing_tests', sc['wrong'])
            if used or opened: raise Violation('tests', 'tests touched the outside: %r' % ((used or opened)[0],))
            return
        m = Model(sc['config'], self.eff(sc), job_vars=sc['job'] or {}, world=World(copy.deepcopy(sc['world'])))
        exp = expect(m, sc['tasks']); traces = [t.pop('_trace') for t in sc['tasks']]
        (check_json if sc['json'] else check_lines)(r, exp)
        check_requests(r, traces)
