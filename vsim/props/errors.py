"""A01, A02: error handling; N06: retries."""
import json, copy
from vsim.harness import Prop, Violation, gen_sched, cfg_of, H
from vsim.gen import *
from vsim.model import Model, World
from vsim.wild import gen_equation
from vsim.props.core import run_plain, Pipeline, NETF, STDF, TIMEF, CHILDF

class TraceGen(PGen):
    """Programs whose mappers note in the scratch variable s9 that they were started."""
    n = 0
    def mapper(self, d):
        m = PGen.mapper(self, d)
        if self.r.random() < self.f.get('tracep', .5):
            self.n += 1
            m = {'All': [{'ModifyScratchpadVar': dict(name='s9', modification={'Append': 'x%d' % self.n})}, m]}
        return m
DUMP = {'Mapper': {'SetPart': dict(part='Fragment', value={'Join': dict(join='.', sources=[{'IfFlag': {'type': 'Scratchpad', 'name': 'g0', 'then': 'G', 'else': '-'}}, {'IfFlag': {'type': 'Scratchpad', 'name': 'g1', 'then': 'H', 'else': '-'}},
    {'NoneTo': dict(value={'Var': dict(type='Scratchpad', name='s0')}, if_none='n0')}, {'NoneTo': dict(value={'Var': dict(type='Scratchpad', name='s1')}, if_none='n1')}, {'NoneTo': dict(value={'Var': dict(type='Scratchpad', name='s9')}, if_none='n9')}, *({'NoneTo': dict(value={'Part': x}, if_none='n' + x[:3])} for x in ('Fragment', 'Subdomain', 'DomainMiddle', 'DomainSuffix'))])})}}

class A02(Pipeline):
    id = 'A02'
    quick = 9000; thorough = 270000; quick_s = 30
    rule = 'Rule programs made mostly of fallbacks (try/else, first-not-error, ignore-error, error-as-pass/fail, error-to-none, revert, retry) around steps that fail by explicit errors, failing requests, failing commands and failing cache access; a scratch variable records every step that was started, the scratch state is written into the result, and result, requests and commands are compared with the reference model.'
    feats = dict(commons=True, depth=4, budget=45, errw=2, revert=1.5, tracep=.5, retry=True)
    compw = None
    revert = False
    def gen(self, rng, tier, idx):
        if idx % 6 == 4: return dict(gen_equation(rng, self.revert), threads=rng.choice([1, 2, 4]), sched=gen_sched(rng, STDF), wild=True)
        f = dict(self.feats, net=rng.random() < .4, cmd=rng.random() < .4, cache=rng.random() < .4, commons=rng.random() < .4, repeat=rng.random() < .3, debug=rng.random() < .15)
        pg = self.pgen(rng, f)
        conf = self.prog(rng, pg)
        fail = f['cache'] and rng.random() < .6
        params = gen_params(rng, read_cache=fail and rng.random() < .5, write_cache=fail and rng.random() < .6)
        n = rng.choice([1, 1, 2, 3, 6])
        tasks = [gen_task(rng, i, bad=0) for i in range(n)]
        sc = dict(config=conf, params=params, tasks=tasks, nargs=0, threads=rng.choice([1, 2, 4]), cpus=2, job={}, json=rng.random() < .2, cachefail=bool(fail), sched=gen_sched(rng, dict(STDF, **NETF, **CHILDF)))
        w = World(dict(progs=pg.progs), WGen(rng.randrange(1 << 40), slow=False, hostfail=.25, respfail=.35))
        sc['world'] = freeze(conf, params, tasks, w, cachefail=fail)
        sc['times'] = batches_of(rng, tasks)
        return sc
    def pgen(self, rng, f): return TraceGen(rng, **f)
    def start(self, rng):
        rs = [{'Mapper': {'SetScratchpadVar': dict(name='s9', value='t')}}]
        if rng.random() < .6: rs.append({'Mapper': {'SetScratchpadVar': dict(name=rng.choice(['s0', 's1']), value=token(rng))}})
        if rng.random() < .4: rs.append({'Mapper': {'SetScratchpadFlag': dict(name=rng.choice(['g0', 'g1']), value=True)}})
        return rs
    def prog(self, rng, pg):
        body = [self.wrap(rng, pg, self.guard(rng, pg)) if rng.random() < .8 else pg.rule(3) for _ in range(rng.choice([1, 1, 2, 3]))]
        return dict(rules=self.start(rng) + body + [DUMP], commons={k: v for k, v in pg.commons.items() if v})
    def wrap(self, rng, pg, rule):
        """The same guarded step in other surroundings."""
        if rng.random() < .5: return rule
        k = rng.choice(['common', 'common', 'commonrule', 'shared', 'rules', 'repeat', 'map', 'all'])
        m = {'Rule': rule}
        if 'Mapper' in rule and rng.random() < .7: m = rule['Mapper']
        if k == 'common': return {'Mapper': {'Common': pg.call('mappers', lambda: m)}}
        if k == 'commonrule': return {'Common': pg.call('rules', lambda: rule)}
        if k == 'shared': return {'SharedCondition': dict(condition='Always', rules=[rule])}
        if k == 'rules': return {'Rules': [rule, pg.rule(1)]}
        if k == 'repeat': return {'Repeat': dict(rules=[rule], limit=rng.choice([1, 2]))}
        if k == 'map': return {'Mapper': {'PartMap': dict(part='Scheme', map={'http': m}, **{'else': m})}}
        return {'Mapper': {'All': [m, pg.mapper(1)]}}
    def guard(self, rng, pg):
        m = lambda: pg.mapper(rng.choice([1, 2, 3]))
        k = rng.choice(['ignore', 'try', 'first', 'cond', 'cond', 'string', 'mod', 'match', 'match', 'retry', 'loc', 'char'])
        test = lambda c: {'Mapper': {'IgnoreError': {'If': dict(condition=c, mapper=m(), else_mapper=m())}}}
        if k == 'loc': return test(rng.choice([{'PartContains': dict(part='Path', value=rng.choice(['p', '/p0', '1', '/']), where=pg.where(3))}, {'StringContains': dict(value={'Part': 'Path'}, substring=rng.choice(['p', '/p1']), where=pg.where(3))}, {'StringMatches': dict(value={'Part': 'Path'}, matcher={'Contains': dict(value='p', where=pg.where(3))})}]))
        if k == 'char': return test({'StringMatches': dict(value=rng.choice([{'Part': 'Path'}, 'a', '']), matcher={rng.choice(['AllCharsMatch', 'AnyCharMatches']): pg.char(3)})})
        if k == 'ignore': return {'Mapper': {'IgnoreError': m()}}
        if k == 'try': return {'Mapper': {'IgnoreError': {'TryElse': {'try': m(), 'else': m()}}}}
        if k == 'first': return {'Mapper': {'IgnoreError': {'FirstNotError': [m() for _ in range(rng.choice([2, 3, 4]))]}}}
        if k == 'retry': return {'Mapper': {'IgnoreError': {'Retry': dict(mapper=m(), delay=.01, limit=rng.choice([1, 2, 3]))}}}
        if k == 'cond':
            c = {rng.choice(['TreatErrorAsPass', 'TreatErrorAsFail']): dict(pg.errcond(rng.choice([1, 2])), **pg.filt())} if rng.random() < .6 else {'TryElse': dict({'try': pg.cond(2), 'else': pg.cond(1)}, **pg.filt())}
            if rng.random() < .3: c = rng.choice([{'Not': c}, {'All': [c, pg.cond(1)]}, {'Any': [c, pg.cond(1)]}, {'All': [pg.cond(1), c]}, {'Any': [pg.cond(1), c]}])
            return {'Mapper': {'IgnoreError': {'If': dict(condition=c, mapper=m(), else_mapper=m())}}}
        if k == 'string': return {'Mapper': {'IgnoreError': {'SetScratchpadVar': dict(name='s1', value={'ErrorToNone': pg.ssrc(3)} if rng.random() < .5 else {'TryElse': {'try': pg.ssrc(3), 'else': pg.ssrc(2)}})}}}
        if k == 'mod': return {'Mapper': {'IgnoreError': {'ModifyScratchpadVar': dict(name='s9', modification=pg.smod(3))}}}
        return {'Mapper': {'IgnoreError': {'If': dict(condition={'StringMatches': dict(value={'Part': 'Path'}, matcher=pg.smatch(3))}, mapper=m(), else_mapper=m())}}}
    def args(self, sc, ctx):
        a = Pipeline.args(self, sc, ctx)
        return a + (['--cache-path', 'nodir/cache.sqlite'] if sc['cachefail'] else [])
    def expected(self, sc, tasks=None):
        m = Model(sc['config'], sc['params'], world=World(copy.deepcopy(sc['world'])), cachefail=sc['cachefail'])
        e = expect(m, sc['tasks']); self.traces = [t.pop('_trace') for t in sc['tasks']]
        return e
    def run_equation(self, sc, ctx):
        """What the steps do is not modelled: the guarded step and the steps it is made of are run apart and compared."""
        base, es = run_plain(ctx, sc['config'], sc['tasks'], sc['threads'], sc['sched'], True), [None] * len(sc['tasks'])
        for p in sc['progs']:
            if p is None: return
            todo = [i for i, e in enumerate(es) if e is None]
            if not todo: break
            for i, e in zip(todo, run_plain(ctx, p, [sc['tasks'][i] for i in todo], sc['threads'], sc['sched'], True)):
                if 'Err' in e or 'Ok' in e['Ok']: es[i] = e
        for t, b, e in zip(sc['tasks'], base, es):
            k = [None if x is None or 'Err' in x else x['Ok'].get('Ok') for x in (b, e)]
            if k[0] != k[1]: raise Violation('fallback', 'input %r gave %r; its steps by themselves make that %r' % (task_line(t), b, e))
        ctx.probe('unmodelled_inputs', len(es)); ctx.probe('unmodelled_failures', sum(e is None for e in es))
    def run(self, sc, ctx):
        if sc.get('wild'): return self.run_equation(sc, ctx)
        r, exp = Pipeline.run(self, sc, ctx)
        check_requests(r, self.traces)
        want = sorted(x[1] for t in self.traces for x in t if x[0] == 'spawn')
        got = sorted(x for x in (e[4][3] if e[4][1] == 'spawn' else e[4][2] for e in r.events if e[4][0] == 'child' and e[4][1] in ('spawn', 'spawn-fail')) if x != 'nosuch')
        if want != got: raise Violation('commands', 'commands started: %r, expected %r' % (got, want))
        ctx.probe('cache_failures', sc['cachefail']); ctx.probe('guarded_failures', sum('try' in json.dumps(sc['config']) for _ in exp))

class A01(A02):
    id = 'A01'
    quick = 9000; thorough = 270000; quick_s = 30
    rule = 'Groups marked to be reverted on error, nested in each other and in fallbacks, contain URL and scratch changes before and after a step that fails by explicit error, failing request, command or cache access; the scratch state after the group is written into the result, which is compared with the reference model.'
    feats = dict(A02.feats, errw=1, revert=5, tracep=.35, retry=False)
    revert = True
    def guard(self, rng, pg):
        def change():
            k = rng.choice(['set', 'flag', 'var', 'mvar', 'url', 'rm', 'gen', 'join', 'host', 'parts'])
            if k == 'host': return rng.choice([{'SetHost': 'n%d.example.co.uk' % rng.randrange(9)}, {'SetPart': dict(part=rng.choice(['Subdomain', 'Domain', 'RegDomain', 'DomainMiddle', 'NotDomainSuffix', 'DomainSuffix', 'Host']), value=rng.choice(['v%d.test', 'v%d.com', 'a.b.v%d.co.uk']) % rng.randrange(9))}, {'SetHost': '10.0.0.%d' % rng.randrange(9)}])
            if k == 'parts':
                p = rng.choice(['Port', 'Port', 'Username', 'Query', 'Fragment', {'QueryParam': 'b'}, {'PathSegment': 0}])
                return {'SetPart': dict(part=p, value=rng.choice(['8080', '81', None] if p == 'Port' else ['b=1', 'xyz'] if p != 'Username' else ['xyz', 'bob']))}
            if k == 'set': return {'SetPart': dict(part=pg.part(), value='/c' + token(rng))}
            if k == 'flag': return {'SetScratchpadFlag': dict(name=rng.choice(['g0', 'g1']), value=rng.random() < .5)}
            if k == 'var': return {'SetScratchpadVar': dict(name=rng.choice(['s0', 's1']), value=rng.choice([None, token(rng)]))}
            if k == 'mvar': return {'ModifyScratchpadVar': dict(name=rng.choice(['s0', 's1', 's9']), modification={'Append': token(rng)})}
            if k == 'url': return {'SetPart': dict(part='Whole', value='http://w%d.test/%s?a=1' % (rng.randrange(9), token(rng)))}
            if k == 'rm': return rng.choice(['RemoveQuery', {'RemoveQueryParam': 'a'}])
            if k == 'join': return {'Join': '/j' + token(rng)}
            return pg.mapper(1)
        def failing(d):
            k = rng.choice(['err', 'gen', 'gen', 'no', 'nest', 'net', 'cmd', 'cache', 'cond', 'mod'])
            if k == 'err': return {'Error': pg.err()}
            if k == 'no': return change()
            if k == 'nest' and d: return group(d - 1)
            if k == 'net' and pg.on('net'): return {'ExpandRedirect': {'http_client_config_diff': {'redirect_policy': 'None'}}}
            if k == 'cmd' and pg.on('cmd'): return {'SetScratchpadVar': dict(name='s0', value=pg.cmd(1))}
            if k == 'cache' and pg.on('cache'): return {'CacheUrl': dict(category='k0', mapper=change())}
            if k == 'cond': return {'If': dict(condition=pg.cond(2), mapper=change())}
            if k == 'mod': return {'ModifyPart': dict(part='Path', modification=pg.smod(2))}
            return pg.mapper(2)
        def group(d):
            ms = [change() for _ in range(rng.choice([1, 2, 3, 4]))]
            ms.insert(rng.randrange(len(ms) + 1), failing(d))
            g = {'RevertOnError': {'All': ms} if rng.random() < .8 else {'Rules': [{'Mapper': x} for x in ms]}}
            k = rng.choice(['', '', 'ignore', 'try', 'first', 'all'])
            if k == 'ignore': return {'IgnoreError': g}
            if k == 'try': return {'TryElse': {'try': g, 'else': change()}}
            if k == 'first': return {'FirstNotError': [g, change()]}
            if k == 'all': return {'All': [change(), g, change()]}
            return g
        g = group(2)
        x = rng.random()
        return {'Mapper': {'IgnoreError': g} if x < .6 else {'TryElse': {'try': g, 'else': {'SetScratchpadFlag': dict(name='g1', value=True)}}} if x < .85 else g}

class N06(Prop):
    id = 'N06'
    quick = 2000; thorough = 60000; quick_s = 30
    rule = 'Each input retries a step (a command, a request, an explicit error, nested retries) that fails a scripted number of times with attempts of known duration, on several threads and with clock jumps; the number of attempts, every pause between them, the results and the simulated time of each result and of the end of the run are compared with what was configured.'
    def gen(self, rng, tier, idx):
        n = rng.choice([1, 2, 3, 4, 6])
        tasks, times, t = [], [], 0
        for i in range(n):
            k = rng.choice(['cmd', 'cmd', 'net', 'net', 'err', 'nest', 'try', 'none', 'slow', 'said'])
            lim = rng.choice([1, 1, 2, 3, 4, 10, None])
            L = lim or 10
            fails = rng.choice([0, 1, L - 1, L, L + 2, rng.randrange(L + 1)])
            tasks.append(dict(k=k, lim=lim, delay=rng.choice([0, .001, .02, .5, 2, 7.25]) if rng.random() < .9 else rng.choice([12.25, 31.5, 65, 3600.75]), fails=fails, dur=rng.choice([0, 10000, 300000]), ilim=rng.choice([1, 2, 3]), idelay=rng.choice([.003, .1, 1]), how=rng.choice(['reset', 'refuse', 'dns', 'cut', 'noloc'])))
            times.append(t)
            if rng.random() < .3: t += rng.choice([1000, 300000, 3000000])
        return dict(tasks=tasks, times=times, threads=rng.choice([1, 1, 2, 3, 4, 8]), cpus=rng.choice([1, 2, 3]), eof=0, sched=gen_sched(rng, {k: dict(STDF, clock=[20000])[k] for k in ('inshort', 'outshort', 'spur', 'wake', 'clock')}))
    def run(self, sc, ctx):
        m, world, exp, att, d, lines = {}, dict(hosts={}, urls={}, progs={}), [], [], [], []
        for i, t in enumerate(sc['tasks']):
            h, L = 'h%d.test' % i, t['lim'] or 10
            u = 'http://%s/t%d' % (h, i)
            f, dur, dl = t['fails'], t['dur'], t['delay']
            rt = lambda mp: {'Retry': dict([('mapper', mp), ('delay', dl)] + ([('limit', t['lim'])] if t['lim'] else []))}
            cmd = {'SetPart': dict(part='Fragment', value={'CommandOutput': dict(program='pr%d' % i, args=[{'Part': 'Host'}])})}
            bad, good = ['z%d' % dur, 'w1:ff', 'x0'], ['z%d' % dur, 'a', 'x0']
            n = min(f + 1, L)          # attempts
            ok = f < L
            wait = n * dur + int((n - 1) * dl * 1e6)
            gaps = [dur / 1e6 + dl] * (n - 1)
            if t['k'] == 'cmd':
                mp = rt(cmd); world['progs']['pr%d' % i] = [bad] * f + [good]
                exp.append(('ok', u + '#' + h) if ok else ('err', None, 'x')); att.append(('cmd', n, gaps)); d.append(wait)
            elif t['k'] == 'said':                 # the configuration itself says the attempt has failed
                mp = rt({'All': [cmd, {'If': dict(condition={'PartIs': dict(part='Fragment', value='bad')}, mapper={'Error': 'said-%d' % i})}]})
                world['progs']['pr%d' % i] = [['z%d' % dur, 'w1:' + hx('bad'), 'x0']] * f + [good]
                exp.append(('ok', u + '#' + h) if ok else ('err', 'said-%d' % i, 'x')); att.append(('cmd', n, gaps)); d.append(wait)
            elif t['k'] == 'nest':
                I = t['ilim']; tot = min(f + 1, L * I); ok = f < L * I
                mp = rt({'Retry': dict(mapper=cmd, delay=t['idelay'], limit=I)}); world['progs']['pr%d' % i] = [bad] * f + [good]
                gaps = [dur / 1e6 + (dl if j % I == 0 else t['idelay']) for j in range(1, tot)]
                exp.append(('ok', u + '#' + h) if ok else ('err', None, 'x')); att.append(('cmd', tot, gaps)); d.append(int(sum(gaps) * 1e6) + dur)
            elif t['k'] == 'err':
                mp = rt({'Error': 'boom-%d' % i}); exp.append(('err', 'boom-%d' % i, 'x')); att.append(None); d.append(int((L - 1) * dl * 1e6))
            elif t['k'] == 'try':
                mp = {'TryElse': {'try': rt(cmd), 'else': {'SetPart': dict(part='Fragment', value='gaveup')}}}; world['progs']['pr%d' % i] = [bad] * f + [good]
                exp.append(('ok', u + '#' + (h if ok else 'gaveup'))); att.append(('cmd', n, gaps)); d.append(wait)
            elif t['k'] == 'net':
                mp = rt({'ExpandRedirect': {'http_client_config_diff': {'redirect_policy': 'None'}}})
                H_ = dict(dns=['ok'], conn=['ok'], tls='ok', ip='10.1.0.%d' % (i + 1), dnsdelay=1000, conndelay=2000)
                b = {'reset': dict(t='reset', delay=dur), 'cut': dict(t='resp', status=302, headers=[['Location', 'http://done.test/']], delay=dur, cut=10, cutkind='reset'), 'noloc': dict(t='resp', status=302, headers=[], delay=dur)}.get(t['how'])
                good_b = dict(t='resp', status=302, headers=[['Location', 'http://done.test/%d' % i]], delay=dur)
                w = dur + 3000
                if t['how'] == 'dns': H_['dns'] = ['fail'] * f + ['ok']; w = 1000; world['urls'][u] = [good_b]
                elif t['how'] == 'refuse': H_['conn'] = ['refuse'] * f + ['ok']; w = 3000; world['urls'][u] = [good_b]
                else: world['urls'][u] = [b] * f + [good_b]
                world['hosts'][h] = H_
                exp.append(('ok', 'http://done.test/%d' % i) if ok else ('err', None, 'x')); att.append(('net', n, [w / 1e6 + dl] * (n - 1))); d.append((n - 1) * (w + int(dl * 1e6)) + dur + 3000)
            elif t['k'] == 'slow':
                mp = cmd; world['progs']['pr%d' % i] = [good]; exp.append(('ok', u + '#' + h)); att.append(('cmd', 1, [])); d.append(dur)
            else: mp = 'None'; exp.append(('ok', u)); att.append(None); d.append(0)
            m['/t%d' % i] = mp; lines.append(u)
        ctx.write('config.json', dict(cache_path=':memory:', params=dict(read_cache=False, write_cache=False), rules=[{'Mapper': {'PartMap': dict(part='Path', map=m)}}]))
        times = sc['times'][:len(lines)]; times += [times[-1] if times else 0] * (len(lines) - len(times))
        ch = []
        for l, t in zip(lines, times): ch.append((t, l.encode() + b'\n'))
        nd = ctx.node(['--config', 'config.json', '--threads', str(sc['threads'])]); nd.stdin(ch); nd.lines += World(world).lines()
        r = ctx.run(nd, cfg_of(sc['sched'], cpus=sc['cpus']))
        check_lines(r, exp)
        slack = r.steps * 2e-6 + .02
        for i, a in enumerate(att):
            if a is None: continue
            if a[0] == 'cmd': ts = [e[1] / 1e9 for e in r.events if e[4][:2] == ['child', 'spawn'] and e[4][3] == 'pr%d' % i]
            else: ts = [e[1] / 1e9 for e in r.events if e[4][:3] == ['net', 'dns', 'h%d.test' % i]]
            if len(ts) != a[1]: raise Violation('attempts', 'input %d made %d attempts, expected %d (%r)' % (i, len(ts), a[1], sc['tasks'][i]))
            for j, g in enumerate(a[2]):
                x = ts[j + 1] - ts[j]
                if not g - .0005 <= x <= g + slack: raise Violation('pause', 'input %d: attempt %d began %.4f s after attempt %d; with the pause configured that is %.4f s (slack %.4f s)' % (i, j + 2, x, j + 1, g, slack))
            ctx.probe('attempts', len(ts)); ctx.probe('pauses', len(a[2]))
        N = sc['threads']; done = []; lim = 0; stamps = []
        for tm, n_, fd, b in r.out_events:
            if fd == 1: stamps += [tm / 1e9] * b.count(b'\n')
        for i in range(len(exp)):
            done.append(max(times[i], done[i - N] if i >= N else 0) + d[i]); lim = max(lim, done[i])
            if stamps[i] > lim / 1e6 + slack: raise Violation('late', 'result %d was written at %.3f s; it and all earlier ones were ready by %.3f s' % (i, stamps[i], lim / 1e6))
        if r.now / 1e9 > lim / 1e6 + slack: raise Violation('late-end', 'the run ended at %.3f s; it had nothing to do after %.3f s' % (r.now / 1e9, lim / 1e6))
