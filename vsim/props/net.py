"""N01-N07: requests."""
import json, copy
from vsim.harness import Prop, Violation, gen_sched, cfg_of, H
from vsim.gen import *
from vsim.model import Model, World, apply_diff, segs, hx
from vsim.props.core import Pipeline, NETF, STDF, TIMEF, CHILDF

class Net(Pipeline):
    """Programs full of requests in a world full of faults; output and everything sent are compared with the model."""
    feats = dict(net=True, client=True, commons=0.3, depth=2, budget=16, errw=.4, netw=9)
    nmax = 8; wopts = dict(odd=True, shared=.35, hostfail=.15, respfail=.2, seq=False); slow = True
    quick = 700; thorough = 21000; quick_s = 40
    def program(self, rng):
        pg = PGen(rng, **{k: (v if not isinstance(v, float) or k in ('errw', 'netw') else rng.random() < v) for k, v in self.feats.items()})
        return pg.program(), pg.progs
    def params(self, rng): return gen_params(rng, read_cache=False, write_cache=False, http_client_config=gen_client(rng))
    def bad(self, rng): return rng.choice([0, 0, .1])
    def ntasks(self, rng): return rng.choice([1, 2, 3, 4, 5, self.nmax])
    def task(self, rng, i): return gen_task(rng, i, bad=self._bad)
    def gen(self, rng, tier, idx):
        conf, progs = self.program(rng)
        params = self.params(rng)
        self._bad = self.bad(rng)
        n = self.ntasks(rng)
        tasks = [self.task(rng, i) for i in range(n)]
        sc = dict(config=conf, params=params, tasks=tasks, nargs=rng.choice([0, 0, 1]), threads=rng.choice([1, 2, 3, 4, 8]), cpus=rng.choice([1, 2, 4]), job={}, json=rng.random() < .15, tail=True,
            sched=gen_sched(rng, dict({k: STDF[k] for k in ('inshort', 'outshort', 'spur', 'wake')}, **NETF, **TIMEF, **CHILDF)), stallmax=3)
        self.extra(rng, sc)
        sc['world'] = freeze(conf, self.eff(sc), tasks, World(dict(progs=progs), self.wgen(rng, sc)), env=sc.get('env'))
        sc['nargs'] = min(sc['nargs'], len(tasks))
        sc['times'] = batches_of(rng, tasks)
        return sc
    def wgen(self, rng, sc): return WGen(rng.randrange(1 << 40), slow=self.slow and rng.random() < .3, **self.wopts)
    def eff(self, sc): return sc['params']
    def expected(self, sc, tasks=None):
        m = Model(sc['config'], self.eff(sc), job_vars=sc['job'], world=World(copy.deepcopy(sc['world'])), env=sc.get('env'))
        tasks = sc['tasks'] if tasks is None else tasks
        e = expect(m, tasks)
        self.traces = [t.pop('_trace') for t in tasks]
        return e
    def run(self, sc, ctx):
        exp = self.expected(sc)
        r = ctx.run(self.node(sc, ctx), self.cfg(sc))
        self.probes(sc, exp, ctx)
        (check_json if sc.get('json') else check_lines)(r, exp)
        n = check_requests(r, self.traces)
        self.more(sc, ctx, r, exp)
        return r, exp
    def more(self, sc, ctx, r, exp): pass

class N01(Net):
    id = 'N01'
    quick = 1200; thorough = 36000; quick_s = 30
    rule = 'ExpandRedirect-heavy rule programs run over inputs whose servers redirect (every 3xx status; absolute, relative, malformed, non-UTF-8 and missing targets), fail, stall, cut or garble answers, on shared hosts and threads; every result and every request is compared with the reference model.'
    def program(self, rng):
        if not self._simple and rng.random() < .5: return Net.program(self, rng)
        x = {}
        if rng.random() < .3: x['headers'] = {n: token(rng) for n in hnames(rng)}
        c = gen_clientdiff(rng)
        if rng.random() < .5: c['redirect_policy'] = 'None'
        if c: x['http_client_config_diff'] = c
        m = {'ExpandRedirect': x}
        k = rng.choice(['plain', 'twice', 'repeat', 'ignore', 'try', 'frag'] if not self._simple else ['plain', 'twice', 'frag'])
        if k == 'twice': rs = [{'Mapper': m}, {'Mapper': m}]
        elif k == 'repeat': rs = [{'Repeat': dict(rules=[{'Mapper': m}], limit=rng.choice([1, 2, 4]))}]
        elif k == 'ignore': rs = [{'Mapper': {'IgnoreError': m}}, {'Mapper': m}]
        elif k == 'try': rs = [{'Mapper': {'TryElse': {'try': m, 'else': {'SetPart': dict(part='Fragment', value='failed')}}}}]
        elif k == 'frag': rs = [{'Mapper': m}, {'Mapper': {'SetPart': dict(part='Fragment', value={'Part': 'Host'})}}]
        else: rs = [{'Mapper': m}]
        return dict(rules=rs), {}
    def gen(self, rng, tier, idx):
        if idx % 8 != 5: return Net.gen(self, rng, tier, idx)
        # threads, sockets and other descriptors run out
        self._simple = True
        try: sc = Net.gen(self, rng, tier, idx)
        finally: self._simple = False
        sc['sched']['faults'][rng.choice(['thread', 'fd'])] = [rng.choice([20000, 100000, 400000]), rng.choice([1, 2, 1000000])]
        sc['res'] = True
        return sc
    _simple = False
    def run(self, sc, ctx):
        if not sc.get('res'): return Net.run(self, sc, ctx)
        exp = self.expected(sc)
        r = ctx.run(self.node(sc, ctx), self.cfg(sc))
        self.probes(sc, exp, ctx)
        check_honest(r, exp, sc.get('json'))
    def task(self, rng, i):
        t = gen_task(rng, i, bad=self._bad)
        if 'url' in t and rng.random() < .35:      # hosts shared between inputs
            u = 'http%s://sh%d.test/%d-%s' % (rng.choice(['', 's']), rng.randrange(3), i, token(rng))
            t['url'] = u
        return t

class N03(Net):
    id = 'N03'
    quick = 1500; thorough = 45000; quick_s = 30
    rule = 'Requests to shared and private hosts that set cookies, redirect across hosts and schemes, carry credentials, and differ in default headers, referer setting and bodies; every lookup, connection and request of the run must be one the reference model expects, header by header and byte by byte.'
    feats = dict(Net.feats, budget=24)
    wopts = dict(shared=.5, hostfail=.05, respfail=.06, userinfo=True, redir=.6)
    slow = False

class N07(Net):
    id = 'N07'
    quick = 2500; thorough = 75000; quick_s = 45
    rule = 'Bodies, headers, cookies and final URLs of answers in every framing (length, chunked, close), split at arbitrary bytes and cut at arbitrary bytes by end, reset or stall, are taken into the result and compared with what was sent; requests with text, form and JSON bodies are compared byte by byte.'
    feats = dict(net=True, client=True, commons=0.2, depth=2, budget=16, errw=.3, netw=9, heads=True)
    @staticmethod
    def body(r):
        x = r.random()
        if x < .3: return token(r)
        if x < .5: return ''.join(r.choice(['\u00e9', '\u20ac', '\U0001f600', 'a', ' ', '"', '<', 'z', '%', '+', '\x1f']) for _ in range(r.choice([1, 5, 200])))
        if x < .53: return ''
        if x < .7: return r.choice(['', ' ', '\n', '\r\n', '\ufeff']) + token(r) + r.choice(['\n', '\r\n', '\n\n', '\r', ' \n', '\t', '\0', '\n' + token(r), '\r\n' + token(r) + '\r\n'])
        if x < .706: return ''.join(r.choice('abcdefghij') for _ in range(500)) * r.choice([2100, 2100, 2600]) + token(r)
        return ''.join(r.choice('abcdefghij') for _ in range(r.choice([1, 4095, 8192, 8193, 70000]))) + token(r)
    wopts = dict(shared=.3, hostfail=.02, respfail=.2, redir=.2, bodies=None, heads=True)
    def __init__(self): self.wopts = dict(self.wopts, bodies=self.body)
    def program(self, rng):
        conf, progs = Net.program(self, rng)
        if rng.random() < .8:
            g = PGen(rng, **self.feats)
            def one():
                x = g.http(2)
                if rng.random() < .5:
                    x['HttpRequest']['response_handler'] = 'Body'
                    if x['HttpRequest'].get('method') == 'HEAD': del x['HttpRequest']['method']
                return x
            val = lambda: one() if rng.random() < .15 else {'Join': dict(sources=[{'TryElse': {'try': one(), 'else': 'failed'}} for _ in range(rng.choice([2, 2, 3]))], join='|')}
            conf = dict(rules=[{'Mapper': {'SetPart': dict(part=rng.choice(['Fragment', {'QueryParam': 'zq'}, {'QueryParam': 'zq'}]), value=val())}} for _ in range(rng.choice([1, 2]))] + (conf['rules'][:1] if rng.random() < .3 else []), commons=conf['commons'])
        return conf, progs
    def ntasks(self, rng): return rng.choice([1, 2, 3])

class N04(Net):
    id = 'N04'
    quick = 1500; thorough = 45000; quick_s = 30
    rule = 'Proxies from the configuration, parameter diff files, the command line, per-request overrides and the environment, per protocol and with authentication, refuse, stall, reset, answer CONNECT with errors or garbage; every lookup, connection, CONNECT and request of the run must be one the reference model expects.'
    feats = dict(Net.feats, proxy=True)
    wopts = dict(shared=.3, hostfail=.05, respfail=.1, proxyfail=.25, redir=.6)
    def params(self, rng): return gen_params(rng, read_cache=False, write_cache=False, http_client_config=gen_client(rng, rng.random() < .5, True))
    def extra(self, rng, sc):
        x = rng.random()
        sc['diffs'], sc['cli'] = [], []
        if x < .35:      # proxies from the environment; nothing else may configure one
            sc['params']['http_client_config'].pop('proxies', None)
            self.strip(sc['config'])
            e = {}
            for k in rng.sample(['http_proxy', 'https_proxy', 'all_proxy', 'HTTPS_PROXY', 'ALL_PROXY'], rng.choice([1, 2, 3])):
                if k.lower() not in {a.lower() for a in e}: e[k] = 'http://px%d.test:3128' % rng.randrange(4)
            if rng.random() < .4: e[rng.choice(['no_proxy', 'NO_PROXY'])] = self.noproxy(rng)
            sc['env'] = e
            y = rng.random()
            if y < .2: sc['params']['http_client_config']['no_proxy'] = True
            elif y < .4: sc['cli'] = ['--no-proxy']
            elif y < .5: sc['cli'] = ['--no-proxy=true']
            elif y < .6: sc['cli'] = ['--no-proxy=false']; sc['params']['http_client_config']['no_proxy'] = rng.random() < .5
            elif y < .75: sc['diffs'] = [{'http_client_config_diff': {'no_proxy': rng.random() < .6}}]
            elif y < .9:
                for k, x in self.requests(sc['config']):
                    if rng.random() < .5: x.setdefault('http_client_config_diff' if k == 'ExpandRedirect' else 'client_config_diff', {})['no_proxy'] = rng.random() < .6
            if rng.random() < .3: sc['diffs'].append({'http_client_config_diff': gen_clientdiff(rng)})
        else:
            if rng.random() < .35: sc['cli'] = ['--proxy', rng.choice(['http://px%d.test:%d' % (rng.randrange(4), rng.choice([3128, 8080])), 'http://px%d.test:%d' % (rng.randrange(4), rng.choice([3128, 8080])), 'socks5h://px%d.test' % rng.randrange(4), 'socks5://cu:cp@px%d.test:8080' % rng.randrange(4), 'socks4a://px%d.test:3128' % rng.randrange(4), 'socks4://cu:cp@px0.test'])]
            if rng.random() < .4: sc['diffs'] = [{'http_client_config_diff': gen_clientdiff(rng, rng.random() < .5, True)} for _ in range(rng.choice([1, 2]))]
            if rng.random() < .2: sc['env'] = {rng.choice(['http_proxy', 'https_proxy', 'all_proxy']): 'http://px9.test:3128'}
            if rng.random() < .15: sc['cli'] += ['--no-proxy=false']
            if rng.random() < .25: sc['env'] = dict(sc.get('env') or {}, **{rng.choice(['no_proxy', 'NO_PROXY']): self.noproxy(rng)})
    def noproxy(self, rng): return rng.choice(['*', 'test', '.test', 'h0.test', 'h0.test,h1.test,t1.test', 'x.test', '.h1.test,sh1.test', ''])
    def requests(self, x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ('ExpandRedirect', 'HttpRequest') and isinstance(v, dict): yield k, v
                yield from self.requests(v)
        elif isinstance(x, list):
            for v in x: yield from self.requests(v)
    def strip(self, x):
        if isinstance(x, dict):
            x.pop('set_proxies', None); x.pop('add_proxies', None)
            for v in x.values(): self.strip(v)
        elif isinstance(x, list):
            for v in x: self.strip(v)
    def eff(self, sc):
        p = sc['params']
        for d in sc['diffs']: p = apply_diff(p, d)
        d = {}
        c = sc['cli']
        if '--proxy' in c: d['set_proxies'] = [c[c.index('--proxy') + 1]]
        if '--no-proxy' in c or '--no-proxy=true' in c: d['no_proxy'] = True
        if '--no-proxy=false' in c: d['no_proxy'] = False
        return apply_diff(p, {'http_client_config_diff': d}) if d else p
    def args(self, sc, ctx):
        a = Net.args(self, sc, ctx)
        for i, d in enumerate(sc['diffs']): ctx.write('diff%d.json' % i, d); a += ['--params-diff', 'diff%d.json' % i]
        return sc["cli"] + a
    def more(self, sc, ctx, r, exp):
        ctx.probe('proxied_requests', sum(1 for t in self.traces for x in t if x[0] == 'req' and x[2] in (1080, 3128, 8080)))
        for t in self.traces:
            for x in t:
                if x[0] == 'req' and x[5] is not None and x[4] in ('SOCKS4', 'SOCKS5', 'CONNECT'): ctx.probe('tunnels_' + x[4].lower())
                elif x[0] == 'socks': ctx.probe('socks_passwords')

class N08(N04):
    id = 'N08'
    quick = 1500; thorough = 45000; quick_s = 30
    rule = 'Servers show certificates of the built-in roots, of one of three authorities given as extra certificates in the configuration, parameter diff files or single requests, of nobody, or for another name; requests with and without each authority, broken certificates and https-only mixed run on several threads, directly, through redirects and proxies; who is talked to and every result are compared with the reference model.'
    feats = dict(Net.feats, certs=True)
    wopts = dict(shared=.5, hostfail=0, respfail=.05, redir=.7, tlsmix=True)
    slow = False
    def params(self, rng):
        c = gen_client(rng, rng.random() < .3, rng.random() < .2)
        if rng.random() < .5: c['extra_certificates'] = gen_certs(rng, rng.choice([0, 1, 1, 2]))
        if rng.random() < .2: c['https_only'] = True
        return gen_params(rng, read_cache=False, write_cache=False, http_client_config=c)
    def extra(self, rng, sc):
        sc['diffs'] = [{'http_client_config_diff': gen_clientdiff(rng, rng.random() < .3, False, True)} for _ in range(rng.choice([0, 0, 1, 2]))]; sc['cli'] = []
    def more(self, sc, ctx, r, exp):
        for t in r.events:
            if t[4][:2] == ['net', 'tls']:
                h = sc['world']['hosts'].get(t[4][3])
                ctx.probe('handshakes_' + ('authority' if h and h['tls'][:2] == 'ca' else h['tls'] if h else 'ok'))

class N05(Net):
    id = 'N05'
    quick = 700; thorough = 21000; quick_s = 30
    rule = 'Redirect graphs with chains, loops (self, two-cycle, longer, joined by chains) and endless fresh targets are followed by Repeat rules and inside single requests with every limit around the length of the chain; the exact multiset of requests and the result are compared with the reference model.'
    wopts = dict(shared=0, hostfail=.02, respfail=.02, redir=1.0)
    slow = False
    def ntasks(self, rng): return rng.choice([1, 2, 3, 4])
    def task(self, rng, i): return dict(url='http%s://h%d.test/n0' % (rng.choice(['', 's']), i))
    def program(self, rng):
        x = {}
        k = rng.choice(['repeat', 'repeat', 'follow', 'both', 'string'])
        if k in ('repeat',): x['http_client_config_diff'] = {'redirect_policy': 'None'}
        elif k in ('follow', 'both') and rng.random() < .8: x['http_client_config_diff'] = {'redirect_policy': {'Limited': rng.choice([0, 1, 2, 3, 5, 9, 10, 11])}}
        e = {'Mapper': {'ExpandRedirect': x}}
        if k == 'string':
            d = {'redirect_policy': rng.choice(['None', {'Limited': rng.choice([0, 1, 2, 3, 5])}])}
            rs = [{'Mapper': {'SetPart': dict(part='Whole', value={'HttpRequest': dict(response_handler=rng.choice(['Url', {'Header': 'location'}]), client_config_diff=d)})}}]
            if rng.random() < .5: rs = [{'Repeat': dict(rules=rs, limit=rng.choice([1, 2, 3, 5]))}]
        elif k == 'follow': rs = [e]
        else:
            inner = [e]
            if rng.random() < .3: inner = [{'condition': {'PathIs': '/n%d' % rng.randrange(4)}, 'mapper': {'SetScratchpadFlag': dict(name='g0', value=True)}}, e]
            elif rng.random() < .2: inner = [{'Mapper': {'IgnoreError': e['Mapper']}}]
            elif rng.random() < .2: inner = [e, {'Mapper': {'SetScratchpadVar': dict(name='s0', value={'Part': 'Path'})}}]
            elif rng.random() < .2: inner = [{'Rules': [e, {'condition': {'PathIs': '/n1'}, 'mapper': 'RemoveQuery'}]}]
            rep = {'Repeat': dict(rules=inner)}
            lim = rng.choice([None, 0, 1, 2, 3, 5, 12, 25])
            if lim is not None: rep['Repeat']['limit'] = lim
            rs = [rep]
            if rng.random() < .2: rs = [{'Mapper': {'Rule': rep}}]
            if rng.random() < .15: rs = [{'Repeat': dict(rules=rs, limit=rng.choice([1, 2, 3]))}]
        if rng.random() < .2: rs.append({'Mapper': {'SetPart': dict(part='Fragment', value='end')}})
        return dict(rules=rs), {}
    def extra(self, rng, sc):
        # one graph per input: a chain of some length that ends, or goes back to one of its nodes, or never ends
        urls = {}
        for i, t in enumerate(sc['tasks']):
            sch, h = t['url'].split('://')[0], t['url'].split('://')[1].split('/')[0]
            n = rng.choice([1, 1, 2, 3, 4, 6, 10, 11, 12]); end = rng.choice(['ok', 'self', 'loop', 'loop', 'fail', 'endless'])
            if end == 'endless': n = 40
            node = lambda j: '%s://%s/n%d' % (sch, h, j)
            for j in range(n):
                nxt = node(j + 1)
                if j == n - 1: nxt = {'self': node(j), 'loop': node(rng.randrange(n))}.get(end, nxt)
                b = dict(t='resp', status=rng.choice([301, 302, 303, 307, 308]), headers=[['Location', nxt]], body='', frame='cl', delay=100)
                if j == n - 1 and end == 'ok': b = dict(t='resp', status=200, headers=[], body='done', frame='cl', delay=100)
                if j == n - 1 and end == 'fail': b = dict(t='reset', delay=100)
                urls[node(j)] = [b]
        class G:
            def host(s, name): return dict(dns=['ok'], conn=['ok'], tls='ok', dnsdelay=100, conndelay=100)
            def url(s, key, w): return urls.get(key)
        self._g = G()
    def wgen(self, rng, sc): return self._g
    def more(self, sc, ctx, r, exp): ctx.probe('longest', max([sum(1 for x in t if x[0] == 'req') for t in self.traces] + [0]) >= 10)

class N02(Prop):
    id = 'N02'
    quick = 700; thorough = 21000; quick_s = 30
    rule = 'URLs of every kind the built-in configuration treats specially are cleaned first with network access (servers redirect, answer pages, or fail), then with the no-network flag (given on the command line or in a parameter diff file) and the cache the first run filled; names looked up in the first run must be those the configuration expands, the second must look up, connect and send nothing and give every input a result.'
    PAGE = '<a href="http://rt.test/p">x</a> value="https://rt.test/v"/> window.location.replace("https:\\/\\/rt.test\\/s") "originalUrl":"https:\\/\\/rt.test\\/o" destination = {"url":"https://rt.test/d"};\n {"result":"https://rt.test/b"} URL=https://rt.test/u"'
    def gen(self, rng, tier, idx):
        c = corpus()
        def one():
            x = rng.random()
            if x < .45: return def_url(rng)
            if x > .8:
                h, p = rng.choice([('awin1.com', '/cread.php'), ('shareasale.com', '/r.cfm'), ('shareasale-analytics.com', '/r.cfm'), ('overpass-turbo.eu', '/s/' + token(rng)), ('tinyurl.com', rng.choice(['/', '/preview/', '/app/']) + token(rng)), ('x.lnk.to', '/' + token(rng)), ('smarturl.it', '/' + token(rng)), ('1link.club', '/' + token(rng)), ('bfy.tw', '/' + token(rng)), ('reurl.cc', '/' + token(rng)), ('gprivate.com', '/' + token(rng)), (rng.choice(c['hosts']), rng.choice(c['paths']))])
                return 'http%s://%s%s%s%s' % (rng.choice(['', 's']), rng.choice(['', 'www.']), h, p, rng.choice(['', '?b=2&u=1&m=3', '?p=1', '?ued=' + rng.choice(['', 'x', 'http%3A%2F%2Ftg.test%2F']), '?urllink=' + rng.choice(['', 'tg.test'])]))
            h = rng.choice(c['nethosts'] + c['netreg'])
            if h in c['netreg'] or rng.random() < .2: h = rng.choice(['www.', 'go.', 'ab.', 'l.']) + h
            if rng.random() < .05: h += '.'
            p = rng.choice(['/r.cfm?u=1&b=2&m=3', '/' + token(rng), '/%s/%s' % (token(rng), token(rng)), '/s/' + token(rng), '/share/' + token(rng), '/link/out?id=1', '/url_shortener/x/y', '/oauth_authentications/1', '/redirect/%s' % token(rng), '/cread.php?p=1', '/lic/x', '/?p=3', '/app-link/post?x=1', '/page/email/click/1/2', '/'])
            return 'http%s://%s%s' % (rng.choice(['', 's', 's']), h, p)
        tasks = [dict(url=one()) if rng.random() < .97 else dict(raw=rng.choice(BAD)) for _ in range(rng.choice([1, 3, 8, 20, 40]))]
        for t in tasks:
            if 'url' in t and rng.random() < .1: t['form'] = 'json'; t['ctx'] = {rng.choice(['faci_site_name', 'redirect_shortcut', 'link_text']): rng.choice(['website', 'https://rt.test/z', token(rng)])}
        args = [a for a in def_args(rng, True)]
        if rng.random() < .3: args += ['--flag', 'bypass.vip']
        if rng.random() < .1: args += ['--var', 'bypass.vip-api-key', 'k' + token(rng)]
        return dict(tasks=tasks, args=args, job={'SOURCE_REG_DOMAIN': rng.choice(['furaffinity.net', 'x.com', 'allmylinks.com', 'x.test'])} if rng.random() < .4 else {}, threads=rng.choice([1, 2, 4, 8]), by=rng.choice(['flag', 'flag', 'diff', 'file']),
            answer=rng.choice(['redirect', 'page', 'both', 'refuse', 'dnsfail', 'mixed']), cache=rng.random() < .7, first=rng.random() < .8, fresh=rng.random() < .4, json=rng.random() < .5,
            sched=gen_sched(rng, dict({k: STDF[k] for k in ('inshort', 'outshort', 'spur', 'wake')}, **NETF)))
    def node(self, sc, ctx, off):
        a = (['--json'] if sc['json'] else []) + ['--cache-path', ('off.sqlite' if off and sc.get('fresh') else 'cache.sqlite') if sc['cache'] else ':memory:', '--threads', str(sc['threads'])]
        ar = list(sc['args'])
        if off:
            if sc['by'] == 'flag': ar += ['--flag', 'no-network']
            elif sc['by'] == 'diff': ctx.write('off.json', dict(flags=['no-network'])); ar += ['--params-diff', 'off.json']
            else:
                ctx.write('a.json', dict(vars={'x': 'y'})); ctx.write('off.json', dict(flags=['no-network'], unflags=['zz'])); ar += ['--params-diff', 'a.json', '--params-diff', 'off.json']
        n = ctx.node(a + ar + (['--job-context', json.dumps({'vars': sc['job']})] if sc['job'] else []))
        n.stdin(stdin_chunks(sc['tasks'], [0] * len(sc['tasks'])))
        w = sc['answer']
        n.lines.append('dns * 0 %s 1000' % ('fail:-2' if w == 'dnsfail' else '10.9.9.9'))
        n.lines.append('conn * 0 0 %s 1000' % ('refuse' if w == 'refuse' else 'ok'))
        if w == 'mixed': n.lines.append('conn * 0 1 refuse 1000'); n.lines.append('conn * 0 2 ok 1000')
        b = dict(t='resp', status=302 if w in ('redirect', 'both', 'mixed') else 200, headers=[['Location', 'https://rt.test/x']] if w != 'page' else [], body=self.PAGE if w != 'redirect' else '', frame='cl', delay=1000)
        n.lines.append('resp * 0 %s' % segs(b)); 
        for sch in ('http', 'https'): n.lines.append('resp %s 0 %s' % (hx(sch + '://rt.test/x'), segs(dict(t='resp', status=200, headers=[], body='', frame='cl', delay=100))))
        return n
    def count(self, sc, r):
        n = len(entries_json(r)) if sc['json'] else bytes(r.outs[0][1]).count(b'\n')
        if n != len(sc['tasks']): raise Violation('count', '%d results for %d inputs' % (n, len(sc['tasks'])))
    def run(self, sc, ctx):
        c = corpus()
        cfg = cfg_of(sc['sched'], maxsteps=8000000, stallmax=3)
        if sc['first']:
            r = ctx.run(self.node(sc, ctx, False), cfg)
            self.count(sc, r)
            ok = set(c['nethosts']) | {'rt.test'}
            names = {e[4][2] for e in r.events if e[4][:2] == ['net', 'dns']}
            ctx.probe('looked_up', len(names))
            for h in sorted(names):
                k = h.rstrip('.'); k2 = k[4:] if k.startswith('www.') else k
                if not (k in ok or k2 in ok or any(k == d or k.endswith('.' + d) for d in c['netreg'])): raise Violation('lookup', '%s was looked up; the configuration does not expand it (inputs %r)' % (h, [task_line(t) for t in sc['tasks']][:6]))
        r = ctx.run(self.node(sc, ctx, True), cfg)
        bad = [' '.join(e[4][:6]) for e in r.events if e[4][0] == 'net']
        if bad: raise Violation('network', 'with no-network: %s (inputs %r)' % (bad[0][:200], [task_line(t) for t in sc['tasks']][:6]))
        self.count(sc, r)
        ctx.probe('offline_inputs', len(sc['tasks']))
