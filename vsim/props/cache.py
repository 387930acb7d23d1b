"""D01-D06: the cache."""
import json, copy, os, sqlite3, random, unicodedata
from urllib.parse import urlsplit, parse_qsl, quote
from vsim.harness import Prop, Violation, gen_sched, cfg_of, H
from vsim.sim import exit_of
from vsim.gen import *
from vsim.model import Model, World, Unmodelled
from vsim.props.core import Pipeline, NETF, STDF, TIMEF, CHILDF

NOENTRY = ('no entry',)
INF = (1 << 62, 0)
def key_of(op): return (op['cat'], op['key'])

# ---- operations on the cache, as inputs ----
# src: StringSource::Cache with category, key and value from the input's own context;  url: CacheUrl;  exp: ExpandRedirect against a server that answers differently each time
RULES = [{'Mapper': {'PartMap': {'part': 'Path', 'map': {
    '/src': {'SetPart': {'part': {'QueryParam': 'r'}, 'value': {'Cache': {'category': {'Var': {'type': 'TaskContext', 'name': 'c'}}, 'key': {'Var': {'type': 'TaskContext', 'name': 'k'}}, 'value': {'Var': {'type': 'TaskContext', 'name': 'v'}}}}}},
    '/url': {'CacheUrl': {'category': {'Var': {'type': 'TaskContext', 'name': 'c'}}, 'mapper': {'SetPart': {'part': 'Whole', 'value': {'Var': {'type': 'TaskContext', 'name': 'v'}}}}}},
    '/exp': {'ExpandRedirect': {'http_client_config_diff': {'redirect_policy': 'None'}}}}}}}]
TEXTS = ['a', 'A', 'b', 'a ', ' a', '', 'ab', 'a%', 'a_', '%', '_', "a'b", 'a"b', 'a\\', 'a\0', 'a\0b', 'a\0c', '\u00e9', 'e\u0301', 'redirect', 'cache', 'NULL', '1', '1.0', '01', ';--', 'x' * 3000, 'x' * 2999 + 'y', '\u20ac\U0001f600', '\n', '\r\n']
def op_line(op):
    c = {}
    if op['t'] == 'plain': return op['key']
    if op['t'] == 'src': u = 'http://op.test/src'; c = dict(c=op['cat'], k=op['key'])
    else: u = op['key']
    if op['t'] == 'url': c = dict(c=op['cat'])
    if op['t'] != 'exp' and op['val'] is not None: c['v'] = op['val']
    return json.dumps({'url': u, 'context': {'vars': c}} if c else {'url': u})
def op_result(op, line):
    """What an input's output line says the step's value was: a string, None (no value), or the failure 'err'."""
    if line == b'': return ('err',)
    s = line.decode()
    if op['t'] != 'src': return s
    q = [b for a, b in parse_qsl(urlsplit(s).query, keep_blank_values=True) if a == 'r']
    if not s.startswith('http://op.test/src') or len(q) > 1: raise Violation('result', 'unexpected result %r' % s[:300])
    return q[0] if q else None

def linearizable(ops, start):
    """Is there an order of the reads and writes of one key, respecting real time, that explains every result?  -> set of possible final values.
    An op: dict(s, e, res, own (set of values its own work may give), read, write, url, opt)."""
    n = len(ops)
    seen, finals, stack = set(), set(), [((0,) * n, start, frozenset())]
    while stack:
        st = stack.pop()
        if st in seen: continue
        seen.add(st)
        states, cur, used = st
        left = [i for i in range(n) if states[i] != 2]
        if all(ops[i]['opt'] for i in left): finals.add(cur)
        if not left: continue
        lim = min(ops[i]['e'] for i in left)
        for i in left:
            o = ops[i]
            if o['s'] > lim: continue
            def to(s2, c2, u2=used): stack.append((states[:i] + (s2,) + states[i + 1:], c2, u2))
            mine = lambda: [v for v in o['own'] if (o['res'] is ANY or v == o['res']) and not (o['uniq'] and v in used)]
            if states[i] == 0 and o['read'] and cur is not NOENTRY:
                if o['res'] is ANY or o['res'] == cur or (o['url'] and cur is None and o['res'] == ('err',)): to(2, cur)
            elif states[i] in (0, 1):
                if states[i] == 0 and o['read'] and o['write']: to(1, cur); continue       # missed; its own work comes later
                for v in mine(): to(2, v if o['write'] else cur, used | {v} if o['uniq'] else used)
                if o['opt'] and not o['write']: to(2, cur)
    return finals
class ANY: pass

def stdin_of(ops, times):
    ch = []
    for o, t in zip(ops, times):
        b = op_line(o).encode() + b'\n'
        if ch and ch[-1][0] == t: ch[-1] = (t, ch[-1][1] + b)
        else: ch.append((t, b))
    return ch
def line_times(r, node=0):
    out = []
    for tm, n, fd, b in r.out_events:
        if n == node and fd == 1: out += [tm] * b.count(b'\n')
    return out
def exp_world(ops, hosts_ip='10.9.0.1'):
    w = World({'hosts': {}, 'urls': {}, 'progs': {}})
    for o in ops:
        if o['t'] == 'exp':
            h = urlsplit(o['key']).hostname
            if h not in w.d['hosts']: w.add_host(h, dnsdelay=o.get('delay', 1000), conndelay=1000)
            k = o['key']
            if k not in w.d['urls']: w.d['urls'][k] = [dict(t='resp', status=302, headers=[['Location', '%s&r=%s-%d' % (k, o['val'], i)]], delay=o.get('delay', 1000)) for i in range(12)]
    return w
def own_of(o, world):
    if o['t'] != 'exp': return {o['val']}
    return {b['headers'][0][1] for b in world.d['urls'][o['key']]}
def gen_op(r, keys, i):
    c, k, t = r.choice(keys)
    v = 'v%d-%s' % (i, token(r))
    if t == 'src':
        x = r.random()
        v = None if x < .15 else '' if x < .2 else v + r.choice(['', '', ' ', '\0z', '\u20ac', '%41', '+', '&x=1', "'", 'y' * 5000, 'w' * r.choice([8200, 20000, 66000, 200000, 1100000])]) if x < .6 else v
    elif t == 'url': v = 'http://w.test/' + v
    return dict(t=t, cat=c, key=k, val=v, delay=r.choice([0, 1000, 50000]))
def near(r, x):
    return r.choice([lambda: x + r.choice(['/', ' ', '\n', '\t', '\0', '.', '#', '?', ':', '&', '=', ',', ';', '*', '-', '0', '\u00a0', '\ufeff', 'x' * 300]), lambda: r.choice([' ', '/', '\n', '0', '-', '\ufeff', '.', 'www.']) + x, lambda: x.swapcase(), lambda: x[:-1], lambda: x[1:], lambda: x[::-1], lambda: x + x,
        lambda: unicodedata.normalize(r.choice(['NFC', 'NFD', 'NFKC']), x), lambda: x.replace(r.choice('ab_'), r.choice('-_AB')), lambda: x.strip() + r.choice(['', ' '])])()
def gen_keys(r, n):
    ks = []
    cats = r.sample(TEXTS, r.choice([1, 2, 3]))
    for _ in range(n):
        t = r.choice(['src', 'src', 'src', 'url', 'exp'])
        if t == 'src': ks.append([r.choice(cats), r.choice(TEXTS), t])
        elif t == 'url': ks.append([r.choice(cats + ['redirect']), 'http://%s/url?K=%d' % (r.choice(['k0.test', 'k1.test']), r.randrange(3)), t])
        else: ks.append(['redirect', 'http://%s/exp?K=%d' % (r.choice(['k0.test', 'k1.test']), r.randrange(3)), t])
    if r.random() < .3 and len(cats[0]) > 0: s = r.choice(['', '', ':', '/', '\0', '|', ' ', ',', '\n', '-', '.', '\t', '_', '"']); ks += [[cats[0] + s + 'z', 'b', 'src'], [cats[0], 'z' + s + 'b', 'src']]
    for c, k, t in list(ks):                    # nearly the same entry
        if t == 'src' and r.random() < .35: ks.append([near(r, c), k, t] if r.random() < .3 else [c, near(r, k), t])
    for c, k, t in list(ks):                    # entries of one kind are read by another
        if t != 'src' and r.random() < .3: ks.append([c, k, 'srcu'])
    return ks
def cache_path(r, ctxpath=None):
    return r.choice([':memory:', 'cache.sqlite', 'cache.sqlite', './cache.sqlite', 'ABS', 'FILE', 'FILE', 'SUB'])
def resolve(p, ctx):
    """-> (the path to give, the file it means)"""
    if p == ':memory:': return p, None
    if p == 'ABS': return ctx.path('cache.sqlite'), ctx.path('cache.sqlite')
    if p == 'FILE': return 'file://' + ctx.path('cache.sqlite'), ctx.path('cache.sqlite')
    if p == 'SUB': os.makedirs(ctx.path('s u'), exist_ok=True); return 's u/c#1.db', ctx.path('s u/c#1.db')
    return p, ctx.path(p)
def db_entries(path):
    """Every entry of the cache file, oldest first; None when there is no file or table."""
    if not os.path.exists(path): return None
    c = sqlite3.connect('file:%s?mode=ro' % quote(path), uri=True)
    try:
        c.text_factory = lambda b: b.decode('utf8')
        ok = c.execute('pragma integrity_check').fetchall()
        if ok != [('ok',)]: raise Violation('corrupt', 'the cache file is damaged: %r' % ok[:3])
        if not c.execute("select 1 from sqlite_master where name='cache'").fetchall(): return []
        return c.execute('select category, "key", value from cache order by id').fetchall()
    except sqlite3.DatabaseError as e: raise Violation('corrupt', 'the cache file cannot be read: %s' % e)
    finally: c.close()

class KV(Prop):
    def base(self, sc, ctx):
        """The config file; the cache path and switches may come from it or from the command line."""
        ctx.write('config.json', dict(rules=RULES, cache_path='unused-%d/x' % 1 if False else ':memory:'))
    def kvnode(self, ctx, ops, times, path, threads, read, write, via='cli', extra=()):
        conf = dict(rules=RULES)
        a = []
        if via == 'conf': conf['cache_path'] = path; conf['params'] = dict(read_cache=read, write_cache=write)
        else:
            conf['params'] = dict(read_cache=not read, write_cache=not write) if via == 'over' else {}
            if via == 'over': conf['cache_path'] = 'other.sqlite' if path == ':memory:' or len(ops) % 2 else ':memory:'
            a += ['--cache-path', path] + (['--read-cache=%s' % str(read).lower(), '--write-cache=%s' % str(write).lower()] if not (read and write) or via == 'over' else [])
        name = 'config-%s.json' % H(json.dumps(conf, sort_keys=True))
        ctx.write(name, conf)
        n = ctx.node(['--config', name] + a + ['--threads', str(threads)] + list(extra))
        n.stdin(stdin_of(ops, times))
        w = exp_world(ops); n.lines += w.lines()
        return n, w
    def results(self, r, ops, node=0):
        ls = entries_lines(r, node)
        return [op_result(o, l) for o, l in zip(ops, ls)], line_times(r, node)
def fixops(ops):
    """srcu: a string read of an entry that CacheUrl or ExpandRedirect also use; its own values are URLs"""
    for o in ops:
        if o['t'] == 'srcu': o['t'] = 'src'; o['val'] = 'http://s.test/%s' % o['val'].replace('\0', '') if o['val'] else None
    return ops

class D01(KV):
    id = 'D01'
    quick = 3000; thorough = 90000; quick_s = 30
    rule = 'Histories of concurrent cached strings, cached URL changes and redirect expansions over confusable categories, keys and values (empty, absent, NUL, case, spaces, Unicode, SQL syntax), on several threads and over several runs with plain, file:// and in-memory caches; the results of every entry must have an order of reads and writes, consistent with real time, that explains them (linearizability), and a last run reads every entry.'
    def gen(self, rng, tier, idx):
        keys = gen_keys(rng, rng.choice([1, 2, 3, 5]))
        runs, i = [], 0
        mem = rng.random() < .25
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops, times, t = [], [], 0
            for _ in range(rng.choice([1, 2, 4, 7, 10])):
                ops.append(gen_op(rng, keys, i)); times.append(t); i += 1
                if rng.random() < .5: t += rng.choice([0, 1000, 200000, 100000000])
            runs.append(dict(ops=fixops(ops), times=times, threads=rng.choice([1, 2, 3, 4, 8]), path=':memory:' if mem else rng.choice(['cache.sqlite', 'cache.sqlite', './cache.sqlite', 'ABS', 'FILE', 'FILE']), read=rng.random() < .75, write=rng.random() < .85,
                via=rng.choice(['cli', 'cli', 'conf', 'over']), sched=gen_sched(rng, dict(STDF, **NETF, clock=[20000]))))
        if not mem and rng.random() < .15:
            for x in runs: x['path'] = 'SUB'
        return dict(runs=runs, cpus=rng.choice([1, 2, 4]))
    def run(self, sc, ctx):
        cur, hist, allk = {}, {}, {}
        for ri, x in enumerate(sc['runs']):
            if x['path'] == ':memory:': cur = {}
            path, f = resolve(x['path'], ctx)
            n, w = self.kvnode(ctx, x['ops'], x['times'], path, x['threads'], x['read'], x['write'], x['via'])
            r = ctx.run(n, cfg_of(x['sched'], cpus=sc['cpus']))
            res, ends = self.results(r, x['ops'])
            if len(res) != len(x['ops']): raise Violation('count', '%d results for %d inputs; stderr %r' % (len(res), len(x['ops']), bytes(r.outs[0][2][-500:])))
            by = {}
            for o, t, y, e in zip(x['ops'], x['times'], res, ends):
                by.setdefault(key_of(o), []).append(dict(s=(ri, t * 1000), e=(ri, e), res=y, own=own_of(o, w), read=x['read'], write=x['write'], url=o['t'] != 'src', uniq=o['t'] == 'exp', opt=False))
                allk[key_of(o)] = 1
            for k, ops in by.items():
                fs = set()
                for c in cur.get(k, [NOENTRY]): fs |= linearizable(ops, c)
                ctx.probe('key_histories'); ctx.probe('concurrent_histories', len(ops) > 1)
                if not fs: raise Violation('history', 'entry %r, run %d, possible values before %r: no order of reads and writes explains %s; stderr %r' % (k, ri, sorted(map(str, cur.get(k, [NOENTRY]))), [(o['s'][1], o['e'][1], o['res'], sorted(map(str, o['own']))[:2], o['read'], o['write']) for o in ops], bytes(r.outs[0][2][-300:])))
                cur[k] = fs
        if sc['runs'][-1]['path'] == ':memory:': return
        path, f = resolve(sc['runs'][-1]['path'], ctx)
        if any(x['write'] for x in sc['runs']) and any(o for x in sc['runs'] for o in x['ops'] if x['write']) and not os.path.exists(f): raise Violation('no-file', 'nothing was stored at %r' % x['path'])
        obs = [dict(t='src', cat=c, key=k, val='*no-entry*') for c, k in sorted(allk)] + [dict(t='src', cat=c, key=k + '~', val='*no-entry*') for c, k in sorted(allk)]
        n, w = self.kvnode(ctx, obs, [0] * len(obs), path, 2, True, False)
        r = ctx.run(n, cfg_of({'policy': ['rand', 20000]}))
        res, _ = self.results(r, obs)
        if len(res) != len(obs): raise Violation('count', '%d results for %d inputs' % (len(res), len(obs)))
        for o, y in zip(obs, res):
            want = cur.get(key_of(o), {NOENTRY})
            y = NOENTRY if y == '*no-entry*' else y
            if y not in want: raise Violation('stored', 'entry %r is %r at the end, expected one of %r; stderr %r' % (key_of(o), y, sorted(map(str, want)), bytes(r.outs[0][2][-300:])))

# ---- whole rule programs over a cache ----
BATCHGAP = 4000000000          # us; every input of one batch is done before the next arrives
class Programs(Pipeline):
    """A rule program is run several times over a cache; the model carries the cache from run to run."""
    feats = dict(commons=True, depth=3, budget=35, errw=1.2)
    cachew = 3
    def pgen(self, rng):
        pg = PGen(rng, **dict(self.feats, net=rng.random() < .7, cmd=rng.random() < .4, cache=True, retry=False, commons=rng.random() < .4, repeat=rng.random() < .3))
        return pg
    def prog(self, rng, pg):
        rs = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            k = rng.choice(['exp', 'url', 'src', 'src', 'rule'])
            if k == 'exp' and pg.on('net'): m = {'ExpandRedirect': {'http_client_config_diff': {'redirect_policy': 'None'}} if rng.random() < .6 else {}}
            elif k == 'url': m = {'CacheUrl': dict(category=rng.choice(['k0', 'k1']), mapper=pg.mapper(2))}
            elif k == 'src': m = {'SetPart': dict(part=rng.choice(['Fragment', {'QueryParam': 'd'}]), value={'Cache': dict(category=rng.choice(['k0', 'k1', 'k2']), key=pg.cachekey(), value=pg.ssrc(2))})}
            else: rs.append(pg.rule(3)); continue
            if k in ('exp', 'url') and rng.random() < .25:      # an entry made by a cached string, not by what reads it now
                cat = m['CacheUrl']['category'] if k == 'url' else 'redirect'
                v = rng.choice([None, None, pg.ssrc(1), 'https://c%d.test/%s' % (rng.randrange(3), pg.tok()), 'no url', ''])
                m = {'All': [{'SetScratchpadVar': dict(name='s1', value={'Cache': dict(category=rng.choice([cat, cat, cat, 'k2']), key={'Part': 'Whole'}, value=v)})}, m]}
            x = rng.random()
            rs.append({'Mapper': {'IgnoreError': m} if x < .3 else {'TryElse': {'try': m, 'else': pg.mapper(1)}} if x < .4 else {'RevertOnError': m} if x < .5 else m})
        rng.shuffle(rs)
        return dict(rules=rs, commons={k: v for k, v in pg.commons.items() if v})
    def switches(self, rng, ri): return True, True
    def worldopts(self, rng, ri): return dict(hostfail=.1, respfail=.15)
    def paths(self, rng): return rng.choice(['cache.sqlite', 'cache.sqlite', './cache.sqlite', 'ABS', 'FILE', ':memory:'])
    def gen(self, rng, tier, idx):
        pg = self.pgen(rng); conf = self.prog(rng, pg)
        n = rng.choice([1, 2, 3, 5, 8])
        tasks = [gen_task(rng, i, bad=0) for i in range(n)]
        runs = []
        path = self.paths(rng)
        p0 = gen_params(rng)
        for ri in range(rng.choice(self.nruns)):
            order = list(range(n)) if rng.random() < .6 else [rng.randrange(n) for _ in range(rng.choice([1, 2, 5, 8]))]
            rng.shuffle(order)
            batches = []
            for i in order:
                if not batches or i in batches[-1] or rng.random() < .25: batches.append([])
                batches[-1].append(i)
            if rng.random() < .4: batches.append(rng.sample(range(n), rng.randrange(1, n + 1)))
            rd, wr = self.switches(rng, ri)
            runs.append(dict(batches=batches, read=rd, write=wr, via=rng.choice(['params', 'diff', 'cli', 'override']), threads=rng.choice([1, 2, 3, 4, 8]), json=rng.random() < .25, sched=gen_sched(rng, dict(STDF, **NETF, **CHILDF))))
        sc = dict(config=conf, params=p0, path=path, tasks0=tasks, runs=runs, cpus=2)
        cache = {}
        for ri, x in enumerate(runs):
            if path == ':memory:': cache = {}
            w = World(dict(progs=copy.deepcopy(pg.progs)), WGen(rng.randrange(1 << 40), slow=False, **self.worldopts(rng, ri)))
            x['world'] = w.d
            m = Model(conf, dict(p0, read_cache=x['read'], write_cache=x['write']), world=w, cache=cache)
            self.predict(sc, x, m, True)
            w.gen = None
        return sc
    nruns = [1, 2, 2, 3]
    def predict(self, sc, x, m, check=False):
        exp, traces = [], []
        for b in x['batches']:
            seen, wrote = {}, set()
            for i in b:
                m.touch = []
                t = sc['tasks0'][i]
                exp.append(m.task(t['url'], t.get('ctx'))); traces.append(m.trace)
                for k in m.touch:
                    k2 = k[:2]
                    if seen.setdefault(k2, set()) - {i} and (len(k) > 2 or k2 in wrote): raise Unmodelled('inputs of one batch share an entry')
                    seen[k2].add(i)
                    if len(k) > 2: wrote.add(k2)
        return exp, traces
    def run(self, sc, ctx):
        cache = {}
        path, f = resolve(sc['path'], ctx)
        for ri, x in enumerate(sc['runs']):
            if f is None: cache = {}
            m = Model(sc['config'], dict(sc['params'], read_cache=x['read'], write_cache=x['write']), world=World(copy.deepcopy(x['world'])), cache=cache)
            before = dict(cache)
            exp, traces = self.predict(sc, x, m)
            conf = dict(sc['config']); p = dict(sc['params']); a = []
            p.pop('read_cache', None); p.pop('write_cache', None)
            if x['via'] == 'params': p.update(read_cache=x['read'], write_cache=x['write'])
            elif x['via'] == 'diff':
                p.update(read_cache=not x['read'], write_cache=not x['write'])
                ctx.write('diff.json', dict(read_cache=x['read'], write_cache=x['write'])); a += ['--params-diff', 'diff.json']
            elif x['via'] == 'cli':
                p.update(read_cache=not x['read'], write_cache=not x['write'])
                a += ['--read-cache=%s' % str(x['read']).lower(), '--write-cache=%s' % str(x['write']).lower()]
            else:
                p.update(read_cache=x['read'], write_cache=not x['write'])
                ctx.write('diff.json', dict(read_cache=not x['read'])); a += ['--params-diff', 'diff.json', '--read-cache=%s' % str(x['read']).lower(), '--write-cache=%s' % str(x['write']).lower()]
            conf['params'] = p
            if ri % 2: conf['cache_path'] = path
            else: conf['cache_path'] = 'nodir/unused'; a += ['--cache-path', path]
            ctx.write('config.json', conf)
            nd = ctx.node(['--config', 'config.json', '--threads', str(x['threads'])] + (['--json'] if x['json'] else []) + a)
            ch = [(bi * BATCHGAP, b''.join(task_bytes(sc['tasks0'][i]) + b'\n' for i in b)) for bi, b in enumerate(x['batches'])]
            nd.stdin(ch); nd.lines += World(copy.deepcopy(x['world'])).lines()
            r = ctx.run(nd, cfg_of(x['sched'], cpus=sc['cpus']))
            (check_json if x['json'] else check_lines)(r, exp)
            check_requests(r, traces)
            want = sorted(y[1] for t in traces for y in t if y[0] == 'spawn')
            got = sorted(y for y in (e[4][3] if e[4][1] == 'spawn' else e[4][2] for e in r.events if e[4][0] == 'child' and e[4][1] in ('spawn', 'spawn-fail')) if y != 'nosuch')
            if want != got: raise Violation('commands', 'commands started: %r, expected %r' % (got, want))
            ctx.probe('hits', sum(y[0] == 'hit' for t in traces for y in t)); ctx.probe('stores', sum(y[0] == 'store' for t in traces for y in t) or len(cache) - len(before))
            ctx.probe('failed_inputs', sum(e[0] != 'ok' for e in exp)); ctx.probe('requests', sum(y[0] == 'req' for t in traces for y in t))
            used = [e for e in r.events if e[4][0] == 'fs' and e[4][1] in ('open', 'openfail') and 'cache.sqlite' in ' '.join(e[4])]
            if not x['read'] and not x['write'] and used: raise Violation('cache-used', 'the cache file was opened although the cache is switched off: %r' % (used[0][4],))
            ctx.probe('switched_off', not x['read'] and not x['write']); ctx.probe('read_only', x['read'] and not x['write']); ctx.probe('write_only', x['write'] and not x['read'])
            if f is not None: self.entries(f, cache)
        self.after(sc, ctx, cache, path, f)
    def entries(self, f, cache):
        db = {}
        for c, k, v in db_entries(f) or []:
            db[c, k] = v
        if db != cache:
            d = [(k, db.get(k, NOENTRY), cache.get(k, NOENTRY)) for k in sorted(set(db) | set(cache)) if db.get(k, NOENTRY) != cache.get(k, NOENTRY)]
            raise Violation('entries', 'cache entries differ (entry, found, expected): %r' % d[:5])
    def after(self, sc, ctx, cache, path, f): pass

class D02(Programs):
    id = 'D02'
    quick = 2500; thorough = 75000; quick_s = 30
    rule = 'Random rule programs with cached strings, cached URL changes, redirects and commands run one to three times over the same cache with reading and writing switched on and off through the config, parameter diffs and options; results, requests, commands and the entries left are compared with a reference model that carries the cache along.'
    def switches(self, rng, ri):
        if ri == 0: return rng.random() < .7, rng.random() < .85
        return rng.random() < .7, rng.random() < .6
class D03(Programs):
    id = 'D03'
    quick = 2500; thorough = 75000; quick_s = 30
    rule = 'Rule programs around cached steps run first in a world where requests, answers and commands fail often, then again in one that has recovered; after each run the cache must hold exactly the entries of the steps that succeeded, and every result, request and command must be the one the reference model gives.'
    nruns = [2, 2, 3]
    feats = dict(Programs.feats, errw=2)
    def paths(self, rng): return rng.choice(['cache.sqlite', 'ABS'])
    def worldopts(self, rng, ri): return dict(hostfail=.35, respfail=.5) if ri == 0 else dict(hostfail=0, respfail=0) if rng.random() < .7 else dict(hostfail=.2, respfail=.2)

# ---- crashes ----
def read_image(d, skip):
    out = {}
    for e in os.scandir(d):
        if e.is_file() and not e.name.startswith(skip):
            with open(e.path, 'rb') as fh: out[e.name] = fh.read()
    return out
def power_image(r, before, rng, node=None):
    """What a machine that lost power may find: the directory changes are there up to some point at or after the last directory sync,
    and of the writes since a file was last synced any subset, torn at sector boundaries.  before: {name: bytes} at the start."""
    class F: pass
    files = {}                                   # inode id -> F
    def inode(base=b''):
        f = F(); f.synced = bytearray(base); f.pend = []; return f
    names = {n: inode(b) for n, b in before.items()}
    durable = dict(names)                        # durable directory
    dirops, fd = [], {}
    for e in r.events:
        t = e[4]
        if t[0] != 'fs' or (node is not None and e[2] != node): continue
        if t[1] == 'open':
            fid, kind = t[2], t[-1]; name = ' '.join(t[3:-1])
            if kind.startswith('dir'): fd[fid] = None; continue
            if kind.startswith('creat'): names[name] = inode(); dirops.append(('add', name, names[name]))
            fd[fid] = names.get(name)
            if 'trunc' in kind and fd[fid]: fd[fid].pend.append(('t', 0))
        elif t[1] == 'w':
            f = fd.get(t[2]); b = bytes.fromhex(t[4]) if t[4] != '-' else b''
            if f: f.pend.append(('w', int(t[3]), b))
        elif t[1] == 'trunc':
            f = fd.get(t[2])
            if f: f.pend.append(('t', int(t[3])))
        elif t[1] == 'sync':
            f = fd.get(t[2], 0)
            if f is None:
                for o in dirops: apply_dir(durable, o)
                dirops = []
            elif f:
                for o in f.pend: apply_op(f.synced, o)
                f.pend = []
        elif t[1] == 'unlink':
            name = ' '.join(t[2:]); dirops.append(('del', name)); names.pop(name, None)
        elif t[1] == 'rename':
            a, b = t[2], t[3]; dirops.append(('ren', a, b))
            if a in names: names[b] = names.pop(a)
    for o in dirops[:rng.randrange(len(dirops) + 1)]: apply_dir(durable, o)
    out = {}
    for n, f in durable.items():
        b = bytearray(f.synced)
        mode = rng.choice(['none', 'all', 'prefix', 'subset', 'subset'])
        cut = rng.randrange(len(f.pend) + 1)
        for i, o in enumerate(f.pend):
            if mode == 'none' or mode == 'prefix' and i >= cut or mode == 'subset' and rng.random() < .5: continue
            if o[0] == 'w' and len(o[2]) > 512 and rng.random() < .3:
                for s in range(0, len(o[2]), 512):
                    if rng.random() < .6: apply_op(b, ('w', o[1] + s, o[2][s:s + 512]))
            else: apply_op(b, o)
        out[n] = bytes(b)
    return out
def apply_dir(d, o):
    if o[0] == 'add': d[o[1]] = o[2]
    elif o[0] == 'del': d.pop(o[1], None)
    elif o[1] in d: d[o[2]] = d.pop(o[1])
def apply_op(b, o):
    if o[0] == 't':
        if o[1] <= len(b): del b[o[1]:]
        else: b.extend(b'\0' * (o[1] - len(b)))
    else:
        if len(b) < o[1]: b.extend(b'\0' * (o[1] - len(b)))
        b[o[1]:o[1] + len(o[2])] = o[2]

CF = 'cache.sqlite'
class D04(KV):
    id = 'D04'
    quick = 10000; thorough = 300000; quick_s = 30
    rule = 'Runs that store and overwrite entries are killed at a random file operation or output (also in the middle of a write, and while the file is being created), or lose power with any subset of unsynced writes and directory changes lost; the next run on what is left must work, give each entry a value it may have, and keep those whose results had been written.'
    def gen(self, rng, tier, idx):
        keys = [['c%d' % (i % 2), 'k%d' % i, 'src'] for i in range(6)] + [['c0', 'http://u%d.test/url?K=1' % i, 'url'] for i in range(3)] + [['redirect', 'http://e%d.test/exp?K=1' % i, 'exp'] for i in range(3)]
        runs, i = [], 0
        nr = rng.choice([1, 2, 2, 3, 4])
        for ri in range(nr):
            ops, times, t = [], [], 0
            for c, k, kt in rng.sample(keys, rng.choice([1, 1, 2, 4, 7, 10])):
                o = gen_op(rng, [[c, k, kt]], i); i += 1
                if rng.random() < .1 and o['t'] == 'src': o['val'] = 'L%d' % i + 'z' * rng.choice([5000, 20000])
                ops.append(o); times.append(t)
                if rng.random() < .4: t += rng.choice([1000, 100000, 2000000])
            crash = rng.random() < .8
            sched = gen_sched(rng, dict(outshort=[200000]) if rng.random() < .3 else {})
            if crash: sched['faults'] = dict(sched['faults'], crash=[rng.choice([3000, 10000, 30000, 100000, 400000]), 1])
            runs.append(dict(ops=ops, times=times, threads=rng.choice([1, 1, 2, 4]), read=rng.random() < .7, power=rng.random() < .5, imgseed=rng.randrange(1 << 30), sched=sched))
        return dict(runs=runs, cpus=2)
    def run(self, sc, ctx):
        P = {}                                    # entry -> set of values it may have
        for ri, x in enumerate(sc['runs'] + [None]):
            last = x is None
            if last:
                ks = sorted(P) + [('c0', 'never'), ('c9', 'k0')]
                x = dict(ops=[dict(t='src', cat=c, key=k, val='*no-entry*') for c, k in ks], times=[0] * len(ks), threads=2, read=True, power=False, sched={'policy': ['rand', 20000]})
            before = read_image(ctx.dir, 'config')
            n, w = self.kvnode(ctx, x['ops'], x['times'], CF, x['threads'], x['read'], not last)
            r = ctx.run(n, cfg_of(x['sched'], cpus=sc['cpus']), expect_end=False)
            xs = exit_of(r)
            crashed = any(e[4][0] == 'crash' for e in r.events)
            if not (crashed and xs == ('exit', 137) or not crashed and xs[0] == 'exit'): raise Violation('no-end', 'run %d ended with %r' % (ri, xs))
            out = bytes(r.outs[0][1])
            lines = out.split(b'\n')[:-1]
            if not crashed and len(lines) != len(x['ops']): raise Violation('count', 'run %d: %d results for %d inputs' % (ri, len(lines), len(x['ops'])))
            res = [op_result(o, l) for o, l in zip(x['ops'], lines)]
            maybelost = {}
            for i, o in enumerate(x['ops']):
                k = key_of(o); old = P.get(k, {NOENTRY}); own = own_of(o, w)
                if i >= len(res):                 # not acknowledged
                    P[k] = (old | own) if not x['read'] else (old - {NOENTRY}) | (({NOENTRY} | own) if NOENTRY in old else set())
                    continue
                y = res[i]
                if last: y = NOENTRY if y == '*no-entry*' else y; own = {NOENTRY}
                url = o['t'] != 'src'
                hits = {v for v in old if v is not NOENTRY and x['read']}
                if y == ('err',): raise Violation('failed', 'run %d: the input for entry %r failed; possible values before %r; stderr %r' % (ri, k, sorted(map(str, old))[:4], bytes(r.outs[0][2][-600:])))
                mine = (NOENTRY in old or not x['read']) and y in own
                if not mine and y not in hits: raise Violation('wrong', 'run %d: entry %r gave %r, expected %r%s' % (ri, k, y, sorted(map(str, hits))[:4], ' or its own %r' % sorted(map(str, own))[:2] if NOENTRY in old or not x['read'] else ''))
                P[k] = {y}
                if mine and x['power'] and crashed: maybelost[k] = old if not x['read'] else {NOENTRY}
            ctx.probe('crashes', crashed); ctx.probe('acknowledged_before_crash', crashed and sum(len(own_of(o, w)) for o in x['ops'][:len(res)])); ctx.probe('power_losses', crashed and x['power'])
            if crashed and x['power']:
                img = power_image(r, before, random.Random(x['imgseed']))
                for nme in read_image(ctx.dir, 'config'): os.unlink(ctx.path(nme))
                for nme, b in img.items(): ctx.write(nme, b)
                # without the directory sync after the last commit, the last transaction may be rolled back
                self.lastlost(sc, ctx, P, maybelost, ri)
            elif crashed: ctx.probe('torn_or_created', any(e[4][0] == 'crash' and e[4][1] in ('torn-write', 'after-create', 'before-create') for e in r.events))
    def lastlost(self, sc, ctx, P, maybelost, ri):
        """An observing run right after a power loss: at most one acknowledged store may be missing."""
        if not maybelost: return
        ks = sorted(maybelost)
        obs = [dict(t='src', cat=c, key=k, val='*no-entry*') for c, k in ks]
        n, w = self.kvnode(ctx, obs, [0] * len(obs), CF, 1, True, False)
        r = ctx.run(n, cfg_of({'policy': ['rand', 20000]}))
        lines = entries_lines(r)
        if len(lines) != len(ks): raise Violation('count', 'after power loss in run %d: %d results for %d inputs' % (ri, len(lines), len(ks)))
        lost = []
        for k, o, l in zip(ks, obs, lines):
            y = op_result(o, l); y = NOENTRY if y == '*no-entry*' else y
            if y == ('err',): raise Violation('failed', 'after power loss in run %d reading %r failed: %r' % (ri, k, bytes(r.outs[0][2][-600:])))
            if y in P[k]: P[k] = {y}; continue
            if y not in maybelost[k]: raise Violation('wrong', 'after power loss in run %d entry %r is %r, expected %r or %r' % (ri, k, y, sorted(map(str, P[k])), sorted(map(str, maybelost[k]))))
            lost.append(k); P[k] = {y}
        ctx.probe('lost_last', len(lost))
        if len(lost) > 1: raise Violation('lost', 'power loss in run %d: %d acknowledged entries are gone: %r' % (ri, len(lost), lost))

class D06(KV):
    id = 'D06'
    quick = 6000; thorough = 180000; quick_s = 30
    rule = 'Two to four runs share one cache file that exists or not, storing and reading overlapping entries at the same simulated time under seeded interleavings of their file operations (in some, one of them is killed); no input of the others may fail, the results of every entry must be linearizable over all runs, and a last run reads every entry.'
    def gen(self, rng, tier, idx):
        keys = gen_keys(rng, rng.choice([1, 2, 3, 5]))
        pre = [fixops([gen_op(rng, keys, 900 + j)])[0] for j in range(rng.choice([0, 0, 0, 1, 3]))]
        nodes, i = [], 0
        for _ in range(rng.choice([2, 2, 2, 3, 4])):
            ops, times, t = [], [], rng.choice([0, 0, 0, 500, 3000])
            for _ in range(rng.choice([1, 2, 3, 6])):
                ops.append(gen_op(rng, keys, i)); times.append(t); i += 1
                if rng.random() < .5: t += rng.choice([0, 100, 1000, 10000, 200000])
            nodes.append(dict(ops=fixops(ops), times=times, threads=rng.choice([1, 1, 2, 4]), path=rng.choice([CF, CF, './' + CF, 'ABS', 'FILE']), read=rng.random() < .75, write=rng.random() < .85))
        sched = gen_sched(rng, dict(outshort=[200000], stall=[2000, 20000]) if rng.random() < .5 else {})
        if sched['policy'][0] == 'rand' and rng.random() < .5: sched['policy'] = ['rand', 500000]
        if rng.random() < .2: sched['faults'] = dict(sched['faults'], crash=[rng.choice([3000, 30000, 100000]), 1])
        return dict(pre=pre, nodes=nodes, empty=rng.random() < .15, sched=sched, cpus=2)
    def run(self, sc, ctx):
        cur, hist = {}, {}
        if sc['pre']:
            n, w = self.kvnode(ctx, sc['pre'], [0] * len(sc['pre']), CF, 1, False, True)
            r = ctx.run(n, cfg_of({'policy': ['rand', 0]}))
            res, _ = self.results(r, sc['pre'])
            for o, y in zip(sc['pre'], res):
                if y not in own_of(o, w): raise Violation('result', 'entry %r gave %r alone; stderr %r' % (key_of(o), y, bytes(r.outs[0][2][-300:])))
                cur[key_of(o)] = y
        elif sc['empty']: ctx.write(CF, b'')
        ns, ws = [], []
        for x in sc['nodes']:
            n, w = self.kvnode(ctx, x['ops'], x['times'], resolve(x['path'], ctx)[0], x['threads'], x['read'], x['write'])
            ns.append(n); ws.append(w)
        r = ctx.run(ns, cfg_of(sc['sched'], cpus=sc['cpus'], stallmax=3, maxsteps=2000000), expect_end=False)
        keys = set(cur)
        for j, x in enumerate(sc['nodes']):
            xs = exit_of(r, j)
            dead = any(e[4][0] == 'crash' and e[2] == j for e in r.events)
            if dead: ctx.probe('killed')
            elif xs[0] != 'exit': raise Violation('no-end', 'run %d of %d at the same time ended with %r' % (j, len(ns), xs))
            ls = bytes(r.outs[j][1]).split(b'\n')[:-1]; ends = line_times(r, j)
            if not dead and len(ls) != len(x['ops']): raise Violation('count', 'run %d: %d results for %d inputs; stderr %r' % (j, len(ls), len(x['ops']), bytes(r.outs[j][2][-400:])))
            for i, (o, t) in enumerate(zip(x['ops'], x['times'])):
                y = op_result(o, ls[i]) if i < len(ls) else ANY
                h = dict(s=(0, t * 1000), e=(0, ends[i]) if i < len(ls) else INF, res=y, own=own_of(o, ws[j]), read=x['read'], write=x['write'], url=o['t'] != 'src', uniq=False, opt=i >= len(ls))
                if y == ('err',) and (not x['read'] or not h['url']): raise Violation('failed', 'run %d of %d sharing the cache: the input for entry %r failed; stderr %r' % (j, len(ns), key_of(o), bytes(r.outs[j][2][-500:])))
                hist.setdefault(key_of(o), []).append(h)
        for k, ops in hist.items():
            if len(ops) > 9: ctx.probe('history_too_long'); continue
            fs = linearizable(ops, cur.get(k, NOENTRY))
            ctx.probe('key_histories'); ctx.probe('shared_histories', len(ops) > 1)
            if not fs: raise Violation('history', 'entry %r, before %r: no order of reads and writes explains %s; stderr %r' % (k, cur.get(k, NOENTRY), [(o['s'][1], o['e'][1], o['res'], sorted(map(str, o['own']))[:2], o['read'], o['write']) for o in ops], bytes(r.outs[0][2][-300:])))
            hist[k] = fs
        ctx.probe('lock_waits', sum(e[4][:2] == ['fs', 'lockbusy'] for e in r.events))
        ks = sorted(set(cur) | set(hist))
        obs = [dict(t='src', cat=c, key=k, val='*no-entry*') for c, k in ks]
        n, w = self.kvnode(ctx, obs, [0] * len(obs), CF, 1, True, False)
        r = ctx.run(n, cfg_of({'policy': ['rand', 0]}))
        res, _ = self.results(r, obs)
        if len(res) != len(obs): raise Violation('count', '%d results for %d inputs' % (len(res), len(obs)))
        for k, y in zip(ks, res):
            want = hist.get(k, {cur.get(k, NOENTRY)})
            y = NOENTRY if y == '*no-entry*' else y
            if isinstance(want, set) and y not in want: raise Violation('stored', 'entry %r is %r at the end, expected one of %r; stderr %r' % (k, y, sorted(map(str, want)), bytes(r.outs[0][2][-300:])))
        db_entries(ctx.path(CF))

class D05(KV):
    id = 'D05'
    quick = 10000; thorough = 300000; quick_s = 30
    rule = 'Runs that store, overwrite and read entries meet failing opens, reads, writes (error, short, disk full), syncs, truncations, removals and locks of the cache file; every input must fail or give a right value, inputs that do not use the cache are untouched, and a later run without faults must work and find only right values.'
    def gen(self, rng, tier, idx):
        keys = [['c%d' % (i % 2), 'k%d' % i, 'src'] for i in range(6)] + [['c0', 'http://u%d.test/url?K=1' % i, 'url'] for i in range(3)] + [['redirect', 'http://e%d.test/exp?K=1' % i, 'exp'] for i in range(3)]
        runs, i = [], 0
        for ri in range(rng.choice([1, 2, 2, 3, 4])):
            ops, times, t = [], [], 0
            for c, k, kt in rng.sample(keys, rng.choice([1, 2, 4, 7, 10])):
                o = gen_op(rng, [[c, k, kt]], i); i += 1
                if rng.random() < .15 and o['t'] == 'src': o['val'] = 'L%d' % i + 'z' * rng.choice([5000, 20000])
                ops.append(o); times.append(t)
                if rng.random() < .25: ops.append(dict(t='plain', key='http://pl%d.test/x' % i)); times.append(t)
                if rng.random() < .4: t += rng.choice([1000, 100000, 2000000])
            fl = {}
            for k in rng.sample(['fsopen', 'fsread', 'fswrite', 'fssync', 'fsmisc', 'fsintr'], rng.choice([1, 1, 2, 3, 6])): fl[k] = rng.choice([[20000], [100000], [400000, 2], [300000, 1], [1000000, 1, 0, 40], [1000000]] if k != 'fsintr' else [[20000], [300000], [700000]])
            if rng.random() < .25: fl = {}
            sched = gen_sched(rng, dict(outshort=[200000]) if rng.random() < .3 else {})
            sched['faults'] = dict(sched['faults'], **fl)
            runs.append(dict(ops=ops, times=times, threads=rng.choice([1, 1, 2, 4]), read=rng.random() < .7, write=rng.random() < .9, faulty=bool(fl), sched=sched))
        return dict(runs=runs, cpus=2)
    def run(self, sc, ctx):
        P = {}
        for ri, x in enumerate(sc['runs'] + [None]):
            last = x is None
            if last:
                ks = sorted(P) + [('c0', 'never'), ('c9', 'k0')]
                x = dict(ops=[dict(t='src', cat=c, key=k, val='*no-entry*') for c, k in ks], times=[0] * len(ks), threads=2, read=True, write=False, faulty=False, sched={'policy': ['rand', 20000]})
            n, w = self.kvnode(ctx, x['ops'], x['times'], CF, x['threads'], x['read'], x['write'])
            r = ctx.run(n, cfg_of(x['sched'], cpus=sc['cpus'], lines=['fsfaultpath cache']))
            lines = entries_lines(r)
            if len(lines) != len(x['ops']): raise Violation('count', 'run %d: %d results for %d inputs; stderr %r' % (ri, len(lines), len(x['ops']), bytes(r.outs[0][2][-400:])))
            nf = 0
            fired = any(e[4][0] == 'fault' and e[4][-1] not in ('4', 'EINTR') for e in r.events)
            for o, l in zip(x['ops'], lines):
                if o['t'] == 'plain':
                    if l.decode() != o['key']: raise Violation('disturbed', 'run %d: an input that does not use the cache gave %r' % (ri, l))
                    continue
                y = op_result(o, l)
                k = key_of(o); old = P.get(k, {NOENTRY}); own = {'*no-entry*'} if last else own_of(o, w)
                if last and y == '*no-entry*': y = NOENTRY; own = {NOENTRY}
                hits = {v for v in old if v is not NOENTRY and x['read']}
                miss = NOENTRY in old or not x['read']
                if y == ('err',):
                    nf += 1
                    if not fired: raise Violation('failed', 'run %d, in which no fault happened: the input for entry %r failed; stderr %r' % (ri, k, bytes(r.outs[0][2][-600:])))
                    if x['write'] and miss: P[k] = old | own
                    continue
                mine = miss and y in own
                if not mine and y not in hits: raise Violation('wrong', 'run %d: entry %r gave %r, expected %r%s' % (ri, k, y, sorted(map(str, hits))[:4], ' or its own %r' % sorted(map(str, own))[:2] if miss else ''))
                P[k] = {y} if (x['write'] or y in hits and not mine) else (old & {NOENTRY} or old) if x['read'] else old
            ctx.probe('failed_inputs', nf); ctx.probe('faulty_runs', fired); ctx.probe('later_runs', ri > 0)
            if nf != bytes(r.outs[0][2]).count(b'DoTaskError\t'): raise Violation('diagnostics', 'run %d: %d inputs failed; stderr %r' % (ri, nf, bytes(r.outs[0][2][-400:])))
            want = 0 if nf == 0 else 1 if nf == len(lines) else 2
            if exit_of(r) != ('exit', want): raise Violation('status', 'run %d: exit %r with %d of %d inputs failed' % (ri, exit_of(r), nf, len(lines)))
        db_entries(ctx.path(CF))
