"""Generators: rule programs, inputs, worlds; and checks of a run's output against the model."""
import json, random, re, copy
from vsim.model import Model, World, U, Err, Unmodelled, wire, BADLOC, certs
from vsim.harness import Violation, H
from vsim.sim import exit_of, hx

# ---- world ----
class WGen:
    """Invents servers on demand, deterministically from (seed, name)."""
    def __init__(self, seed, **o):
        self.seed, self.o, self.k = seed, o, 0
    def opt(self, k, d): return self.o.get(k, d)
    def host(self, name):
        r = random.Random(H(self.seed, 'h', name))
        if name.startswith('gone'): return None
        h = dict(dns=['ok'], conn=['ok'], tls='ok')
        if name.startswith('pxdown'): h['conn'] = [r.choice(['refuse', 'unreach'])]; h['dnsdelay'] = h['conndelay'] = 1000; return h
        if name.startswith('sh'): h['dnsdelay'] = h['conndelay'] = 1000; return h
        nseq = r.choice([1, 1, 1, 2, 3]) if self.opt('seq', False) else 1
        p = self.opt('hostfail', 0.1) if not name.startswith('px') else self.opt('proxyfail', 0.2)
        if name.startswith('px'): nseq = 1
        for i in range(nseq - 1): h['dns'].append('ok'); h['conn'].append('ok')
        for i in range(nseq):
            if r.random() < p:
                k = r.choice(['dns', 'conn', 'conn', 'tls'] if nseq == 1 else ['dns', 'conn', 'conn'])
                if k == 'dns': h['dns'][i] = r.choice(['fail', 'again'])
                elif k == 'conn': h['conn'][i] = r.choice(['refuse', 'refuse', 'unreach', 'hang'] if self.opt('slow', True) else ['refuse', 'unreach'])
                else: h['tls'] = r.choice(['fail', 'badcert', 'badname'])
        # the sequences of names and connections advance together: a failed lookup makes no connection
        if self.opt('tlsmix', False): h['tls'] = r.choice(['ok', 'ca0', 'ca0', 'ca1', 'ca1', 'ca2', 'badcert', 'badname'])
        h['dnsdelay'] = r.choice([0, 200, 1000, 20000])
        h['conndelay'] = r.choice([0, 200, 1000, 20000])
        return h
    def newhost(self):
        self.k += 1; return 't%d.test' % self.k
    def target(self, r):
        if self.opt('odd', False) and r.random() < .15: return r.choice(BADLOC + ['/rel/%s' % token(r), '?r=%s' % token(r), 'rel-%s' % token(r), '//%s/%s' % (self.newhost(), token(r)), '', '#x', 'http://%s/\u00e9' % self.newhost()])
        self.k += 1
        h = 'sh%d.test' % r.randrange(3) if r.random() < self.opt('shared', 0) else 't%d.test' % self.k
        if r.random() < .1: h += ':%d' % r.choice([8000, 80, 443])
        u = r.choice(['', '', '', '', 'us%d:pw@' % self.k, 'us%d@' % self.k]) if self.opt('userinfo', False) else ''
        return '%s://%s%s/%s-%d%s' % (r.choice(['http', 'https']) if self.opt('tls', True) else 'http', u, h, token(r), self.k, r.choice(['', '', '?a=1', '?id=%d&b=2' % r.randrange(1000)]) + (r.choice(['', '', '#f1']) if self.opt('userinfo', False) else ''))
    def url(self, key, world):
        r = random.Random(H(self.seed, 'u', key))
        if '/loop' in key: return None
        if key.startswith('socks'):
            if r.random() > self.opt('connectfail', .25) * .7: return [dict(t='socks', data=r.choice(['05000001' + '00' * 6, '05000001' + '7f' * 6, '050000030a' + b'bound.test'.hex() + '0050', '05000004' + '00' * 18]), delay=r.choice([100, 1000, 50000]))] if key[5] == '5' else None
            bad = [dict(t='reset', delay=1000), dict(t='fin', delay=1000), dict(t='raw', data='HTTP/1.1 400 Bad Request\r\n\r\n', delay=0)] + ([dict(t='stall', delay=0)] if self.opt('slow', True) else [])
            say = {'h': ['05ff', '0500', '0502', '0401', '05'], 'a': ['0101', '01ff', '0500', '01'], '5': ['05%02x0001' % r.randrange(1, 10) + '00' * 6, '04000001' + '00' * 6, '0500', '050000', '05000001' + '00' * 5, '050000030a' + '00'], '4': ['005b' + '00' * 6, '005c' + '00' * 6, '005d' + '00' * 6, '005a' + '00' * 5, '045a' + '00' * 6, '00']}[key[5]]
            return [r.choice(bad + [dict(t='socks', data=d, delay=1000, fin=True) if d not in ('0500', '0502') else dict(t='socks', data=d, delay=1000, fin=key[5] != 'h') for d in say])]
        if key.startswith('connect://'):
            if r.random() > self.opt('connectfail', .25): return [dict(t='resp', status=200, headers=[], body='', frame='none', delay=1000)]
            return [r.choice([dict(t='reset', delay=1000), dict(t='fin', delay=1000), dict(t='raw', data='garbage\r\n\r\n', delay=0), dict(t='resp', status=407, headers=[], body='no', delay=1000), dict(t='resp', status=502, headers=[], body='', delay=1000), dict(t='resp', status=200, headers=[], body='', frame='none', cut=5, cutkind='reset')] + ([dict(t='stall', delay=0)] if self.opt('slow', True) else []))]
        n = r.choice([1, 1, 2, 3, 4]) if self.opt('seq', False) else 1
        return [self.behaviour(r, key) for _ in range(n)]
    def behaviour(self, r, key):
        d = r.choice([100, 1000, 5000, 50000, 300000])
        x = r.random()
        pf = self.opt('respfail', 0.15)
        if x < pf:
            k = r.choice(['reset', 'fin', 'raw', 'cut', 'cut', 'cut'] + (['stall', 'cut'] if self.opt('slow', True) else []))
            if k == 'raw': return dict(t='raw', data=r.choice(['HTP/1.1 200 OK\r\n\r\n', '\x00\x01\x02\x03' * 5, 'HTTP/1.1 abc\r\n\r\n', '<html>\r\n\r\n', 'HTTP/1.1 200 OK\r\nbroken header\r\n\r\n']), delay=d)
            if k != 'cut': return dict(t=k, delay=d)
            b = self.resp(r, key, d)
            w, head, fr = wire(b)
            b['cut'] = r.choice([r.randrange(1, len(w)), r.randrange(1, head), len(w) - 1, min(head, len(w) - 1)])
            b['cutkind'] = r.choice(['fin', 'reset', 'stall'] if self.opt('slow', True) else ['fin', 'reset'])
            if fr == 'close' and b['cutkind'] == 'fin' and b['cut'] >= head: b['cutkind'] = 'reset'
            return b
        return self.resp(r, key, d)
    def resp(self, r, key, d):
        b = dict(t='resp', delay=d)
        hs = []
        if r.random() < self.opt('redir', 0.6):
            b['status'] = r.choice([301, 302, 302, 303, 307, 308] + ([300, 304, 305] if self.opt('odd', False) else []))
            x = r.random()
            if x < 0.93: hs.append([r.choice(['Location', 'location', 'LOCATION']), self.target(r)])
            b['body'] = r.choice(['', '', 'moved', '<a href="http://decoy.test/">x</a>'])
        else:
            b['status'] = r.choice([200, 200, 200, 404, 500, 201])
            b['body'] = self.body(r)
            if r.random() < 0.15: hs.append(['Location', 'http://decoy.test/%s' % token(r)])
        if r.random() < 0.5: hs.append(['X-Tok', token(r)])
        if r.random() < 0.4: hs.append(['Set-Cookie', 'ck=%s; Path=/' % token(r)])
        if r.random() < 0.2: hs.append(['Set-Cookie', 'other=%s' % token(r)])
        if self.opt('heads', False): self.heads(r, b, hs)
        r.shuffle(hs)
        b['headers'] = hs
        b['frame'] = r.choice(['cl', 'cl', 'chunked', 'close'])
        if b['frame'] == 'chunked': b['chunks'] = [r.choice([1, 2, 7, 100]) * (1 + len(b['body']) // 2000) for _ in range(r.choice([1, 2, 3]))]
        if r.random() < 0.4: b['split'] = [r.randrange(1, 60) for _ in range(r.choice([1, 2, 4]))]; b['gap'] = r.choice([0, 1000, 100000])
        return b
    def heads(self, r, b, hs):
        """Everything a head may say twice, oddly or in another alphabet."""
        v = lambda: r.choice([token(r), token(r), '', ' %s\t' % token(r), 'a  b', 'a,b', '"q"', 'x;y=z', 'caf\u00e9', '\udcff\udcfe', 'a\tb', '=', 'k' * 5000, "q'%22"])
        if r.random() < .5: hs += [[r.choice(['X-Tok', 'x-tok', 'X-TOK', 'X-Tok-2', 'XX-Tok', 'X']), v()] for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .5: hs += [['Set-Cookie', r.choice(['ck', 'ck', 'CK', 'ckx', 'c', ' ck ', 'other', '']) + r.choice(['=', '=', '=', ' = ', '']) + v() + r.choice(['', '; Path=/; HttpOnly', ';ck=no', '; Max-Age=0', '; Domain=other.test; Secure', '; Expires=Thu, 01 Jan 1970 00:00:00 GMT'])] for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .15: hs += [['X-Fill-%d' % i, token(r)] for i in range(40)]
        if r.random() < .15: hs.append([r.choice(['Location', 'location']), self.target(r)])
        if r.random() < .2: b['pre'] = r.choice(['HTTP/1.1 100 Continue\r\n\r\n', 'HTTP/1.1 103 Early Hints\r\nX-Tok: early\r\nSet-Cookie: ck=early\r\nLocation: http://decoy.test/early\r\n\r\n', 'HTTP/1.1 102 Processing\r\n\r\n' * 2])
        if r.random() < .2: b['trailer'] = r.choice(['X-Tok: trailer\r\n', 'Set-Cookie: ck=trailer\r\nX: y\r\n'])
        if r.random() < .2: b['chunkfmt'] = r.choice(['%X', '00%x', '%x;ext=1', '%x ; a="b"'])
        if r.random() < .4:
            l, e, t = r.choice([('ISO-8859-1', 'cp1252', '\u00e9\u20ac\u201cq\u00ff'), ('windows-1251', 'cp1251', '\u0416\u044f'), ('utf-16le', 'utf-16-le', 'u\u20ac'), ('UTF-16', 'utf-16-le', 'u\u00e9'), ('utf-16be', 'utf-16-be', '\u00e9x'), ('Shift_JIS', 'shift_jis', '\u65e5\u672c'), ('EUC-JP', 'euc_jp', '\u65e5\u672c'), ('koi8-r', 'koi8-r', '\u0416'), ('utf-8', 'utf8', '\u20ac'), ('utf8', 'utf8', '\u00e9\udcff\udce2\udc82x'), ('no-such', 'utf8', '\u00e9'), (None, 'utf8', '\u00e9\udcc3x'), (None, 'utf8', '\ufeff\u00e9'), ('ISO-8859-1', 'utf8', '\ufeff\u00e9'), ('utf-8', 'utf-16-le', '\ufeffa\u00e9')])
            b['enc'] = e; b['body'] = t * r.choice([1, 1, 2, 40, 3000]) + token(r)
            if t[0] == '\ufeff' and e == 'utf-16-le': b['body'] = t + token(r)
            if l: hs.append(['Content-Type', r.choice(['text/html; charset=%s', 'text/plain;charset=%s', 'text/html; charset="%s"', 'text/html; a=b; charset=%s']) % l])
            elif r.random() < .5: hs.append(['Content-Type', r.choice(['text/html', 'text/plain; a=b', 'application/octet-stream', 'nonsense', ''])])
    def body(self, r):
        if self.o.get('bodies'): return self.o['bodies'](r)
        return r.choice([token(r), token(r) + '/' + token(r), 'x' * r.choice([1, 100, 3000]) + token(r)])

def token(r): return ''.join(r.choice('abcdefghjkmnpqrstuvwxyz23456789') for _ in range(r.choice([3, 4, 6])))

HVALS = ['', ' ', ' lead', 'trail ', 'a\tb', 'caf\u00e9 \u20ac', '"q"; a=b, c', 'x' * 5000, 'a  b', '%20', '\t', ':', 'a: b']
def hnames(r): return r.sample(['X-E', 'X-D', 'Cookie', 'Authorization', 'User-Agent', 'Accept', 'Accept-Language', 'Referer', 'DNT', 'If-None-Match', 'x-long-' + 'n' * 60], r.choice([1, 1, 2, 3]))
# ---- rule programs ----
ODDTEXT = ['"', '\\', '\n', '\r', '\t', '\0', '\x01', '\x1b[31m', '\x7f', '\u2028', '\u20ac', '\U0001f600', "'", '</script>', '{}', ',', '\\u0041', '\xa0', '\ufeff', '%s', '{"Ok":1}', '\n\n', '\r\n', '\x85', '\ud7ff', '\u0300', 'x' * 3000, 'y' * 5000]
NAMES = ['a', 'b', 'c', 'd', 'id']
def debugged(f):
    """Sometimes wrapped in Debug, which shows the construct on STDERR and must not change what it does."""
    def g(self, *a, **k):
        x = f(self, *a, **k)
        return {'Debug': x} if self.dbg and x is not None and self.r.random() < .07 else x
    return g
class PGen:
    def __init__(self, rng, **f):
        self.r, self.f, self.q = rng, f, 0
        self.commons = dict(rules={}, conditions={}, mappers={}, string_sources={}, string_matchers={}, string_modifications={})
        self.rich = f['rich'] if 'rich' in f else rng.random() < .5
        self.progs = {}
        self.dbg = self.on('debug')
        self.budget = f.get('budget', 60)
    def on(self, k): return self.f.get(k, False)
    def w(self, pairs):
        pairs = [(w, x) for w, x in pairs if w > 0]
        t = self.r.random() * sum(w for w, _ in pairs)
        for w, x in pairs:
            t -= w
            if t <= 0: return x
        return pairs[-1][1]
    def tok(self): return token(self.r)
    def err(self):
        if self.r.random() < self.f.get('odderr', 0): return 'boom-%s%s%s' % (self.tok(), ''.join(self.r.choice(ODDTEXT) for _ in range(self.r.choice([0, 1, 3]))), self.tok())
        return 'boom-%s' % self.tok()
    @debugged
    def part(self):
        if self.rich and self.r.random() < .25: return self.r.choice([{self.r.choice(['PathSegment', 'PathSegment', 'BeforePathSegment', 'AfterPathSegment']): self.r.choice([0, -1, 1])}, 'NextPathSegment', {'QueryParam': dict(name=self.r.choice(NAMES), index=self.r.choice([0, 1, 1]))}])
        return self.r.choice(['Path', 'Path', 'Fragment', 'Query', {'QueryParam': self.r.choice(NAMES)}])
    def program(self, n=None):
        rules = [self.rule(self.f.get('depth', 3)) for _ in range(n or self.r.choice([1, 2, 3, 4]))]
        return dict(rules=rules, commons={k: v for k, v in self.commons.items() if v})
    def rule(self, d):
        self.budget -= 1
        k = self.w([(4, 'normal'), (4, 'mapper'), (1, 'rules'), (1, 'shared'), (1, 'map'), (self.on('repeat') and 1, 'repeat'), (d > 1 and self.on('commons') and 0.7, 'common')] if d > 0 and self.budget > 0 else [(1, 'mapper')])
        if k == 'normal':
            x = dict(condition=self.cond(d - 1), mapper=self.mapper(d - 1))
            if self.r.random() < 0.4: x['else_mapper'] = self.mapper(d - 1)
            return x
        if k == 'mapper': return {'Mapper': self.mapper(d)}
        if k == 'rules': return {'Rules': [self.rule(d - 1) for _ in range(self.r.choice([1, 2]))]}
        if k == 'shared': return {'SharedCondition': dict(condition=self.cond(d - 1), rules=[self.rule(d - 1) for _ in range(self.r.choice([1, 2]))])}
        if k == 'map':
            k = self.r.choice(['StringMap'] + self.rich * ['PartMap', 'PartRuleMap', 'PartRulesMap', 'StringRuleMap', 'StringRulesMap'])
            f = (lambda: [self.rule(d - 1) for _ in range(self.r.choice([0, 1, 2]))]) if 'Rules' in k else (lambda: self.rule(d - 1)) if 'Rule' in k else (lambda: self.mapper(d - 1))
            return {k: dict(map={x: f() for x in self.keys()}, **dict(self.mapdef(f), **(dict(part='Path') if 'Part' in k else dict(value=self.keysrc()))))}
        if k == 'repeat': return {'Repeat': dict(rules=[self.rule(d - 1)], limit=self.r.choice([0, 1, 2, 3, 5]))}
        return {'Common': self.call('rules', lambda: self.rule(d - 2))}
    def call(self, kind, mk):
        c = self.commons[kind]
        if self.r.random() < 0.06: return 'missing'
        if c and self.r.random() < 0.4: n = self.r.choice(sorted(c))
        else:
            n = 'c%d' % len(c); c[n] = None; c[n] = mk()
        if self.r.random() < 0.5: return n
        return dict(name=n, args=dict(flags=self.r.sample(['f0', 'f1'], self.r.choice([0, 1])), vars={v: self.ssrc(0) for v in self.r.sample(['v0', 'v1'], 1)}))
    def keysrc(self): return self.r.choice([{'Part': 'Path'}, {'Part': {'QueryParam': 'a'}}, {'Var': dict(type='TaskContext', name='k')}, {'Var': dict(type='Scratchpad', name='s0')}])
    def keys(self): return self.r.sample(['/p0', '/p1', '/p2', '1', '2', 'k0', 'k1'], self.r.choice([1, 2, 3]))
    def mapdef(self, f):
        d = {}
        if self.r.random() < 0.3: d['if_null'] = f()
        if self.r.random() < 0.5: d['else'] = f()
        return d
    @debugged
    def mapper(self, d):
        self.budget -= 1
        leaf = [(1, 'none'), (self.f.get('errw', 1.2), 'error'), (1, 'rmq'), (1, 'rmqp'), (1, 'getq'), (4, 'set'), (2, 'modify'), (1, 'copy'), (0.6, 'move'), (2, 'sflag'), (2, 'svar'), (1, 'mvar'),
            (self.on('net') and self.f.get('netw', 3), 'expand'), (1, 'join'), (self.rich and 1.5, 'host'), (self.rich and 1, 'badpart'), (self.rich and 1, 'rqpm'), (self.rich and 1.5, 'twin')]
        comp = [(2, 'if'), (1, 'chain'), (3, 'all'), (1, 'pmap'), (1.5, 'ignore'), (2, 'try'), (1.5, 'first'), (self.f.get('revert', 1.5), 'revert'), (0.7, 'rules'),
            (self.on('retry') and 1, 'retry'), (self.on('cache') and 2, 'cacheurl'), (d > 1 and self.on('commons') and 1, 'common')]
        k = self.w(leaf + comp if d > 0 and self.budget > 0 else leaf)
        r = self.r
        if k == 'none': return 'None'
        if k == 'error': return {'Error': self.err()}
        if k == 'rmq': return 'RemoveQuery'
        if k == 'rmqp':
            x = r.random()
            if x < .4: return {'RemoveQueryParam': r.choice(NAMES)}
            return {'RemoveQueryParams' if x < .7 else 'AllowQueryParams': r.sample(NAMES, 2)}
        if k == 'host': return r.choice([{'SetHost': self.host()}, {'SetPart': dict(part='Host', value=self.host())}, {'SetPart': dict(part=r.choice(['Subdomain', 'DomainMiddle', 'NotDomainSuffix', 'DomainSuffix', 'RegDomain', 'Domain']), value=r.choice([None, '', self.tok(), self.tok(), 'x' + self.tok() + '.com', 'co.uk', 'test', 'com', '1.2.3.4', '7']))}, {'SetPart': dict(part='Username', value=self.tok())}, {'CopyPart': {'from': r.choice(['Subdomain', 'RegDomain', 'DomainMiddle', 'DomainSuffix', 'Domain']), 'to': r.choice(['Fragment', 'Host', 'Domain', 'Subdomain', 'Path'])}}, {'SetPart': dict(part='Port', value=r.choice(['8080', '80', '443', None]))}])
        if k == 'badpart':
            return {'SetPart': r.choice([dict(part='Port', value='x' + self.tok()), dict(part='Scheme', value=None), dict(part='Path', value=None), dict(part='Username', value=None), dict(part='Host', value=r.choice([None, ''])), dict(part='Whole', value=r.choice([None, 'no url', '/x'])), dict(part={'PathSegment': 7}, value='x'), dict(part={'QueryParam': dict(name='a', index=5)}, value='x')])} if r.random() < .85 else {'SetHost': r.choice([None, ''])}
        if k == 'twin':
            # nearly the same step twice, which of them depending on the input: neither may be taken for the other
            p = r.choice(['Path', 'Path', self.part()])
            a = r.choice([lambda: {'ModifyPart': dict(part=p, modification=self.rx())}, lambda: {'ModifyPart': dict(part=p, modification=self.smod(d - 1))}, lambda: {'SetPart': dict(part='Fragment', value={'RegexFind': dict(value={'Part': p}, regex=self.regex())})},
                lambda: {'If': dict(condition={'PartMatches': dict(part=p, matcher={'Regex': self.regex()})}, mapper={'SetPart': dict(part='Fragment', value=self.tok())})}, lambda: {'RemoveQueryParamsMatching': {'Regex': self.regex()}}, lambda: {'SetPart': dict(part=p, value=self.ssrc(d - 1, path=True))}])()
            return {'If': dict(condition=r.choice([{'StringMatches': dict(value={'Part': 'Path'}, matcher={'Contains': dict(value=r.choice(['1', '0', 'p1']))})}, {'HostIs': r.choice(['h0.test', 'h1.test'])}, self.cond(0)]), mapper=a, else_mapper=self.altered(a))}
        if k == 'rqpm': return {r.choice(['RemoveQueryParamsMatching', 'AllowQueryParamsMatching']): self.smatch(d - 1)}
        if k == 'getq': return {'GetUrlFromQueryParam': 'u'}
        if k == 'set': return {'SetPart': dict(part=self.part(), value=self.ssrc(d - 1, path=True))}
        if k == 'modify': return {'ModifyPart': dict(part=self.part(), modification=self.smod(d - 1))}
        if k == 'copy': return {'CopyPart': dict([('from', r.choice(['Path', 'Fragment', 'Query'])), ('to', r.choice(['Fragment', {'QueryParam': r.choice(NAMES)}]))])}
        if k == 'move': return {'MovePart': dict([('from', r.choice(['Fragment', 'Query', {'QueryParam': 'a'}])), ('to', r.choice(['Fragment', {'QueryParam': 'd'}]))])}
        if k == 'sflag': return {'SetScratchpadFlag': dict(name=r.choice(['g0', 'g1']), value=r.random() < .7)}
        if k == 'svar': return {'SetScratchpadVar': dict(name=r.choice(['s0', 's1']), value=self.ssrc(d - 1))}
        if k == 'mvar': return {'ModifyScratchpadVar': dict(name=r.choice(['s0', 's1']), modification=self.smod(d - 1))}
        if k == 'expand':
            x = {}
            if r.random() < .3: x['headers'] = {n: self.tok() for n in hnames(r)}
            if self.on('client'):
                c = self.clientdiff()
                if r.random() < .4: c['redirect_policy'] = 'None'
                if c: x['http_client_config_diff'] = c
            elif r.random() < .5: x['http_client_config_diff'] = {'redirect_policy': 'None'}
            return {'ExpandRedirect': x}
        if k == 'join': return {'Join': r.choice(['/j%s' % self.tok(), '/j?a=9', 'http://j%d.test/%s' % (r.randrange(100), self.tok())])}
        if k == 'if':
            x = dict(condition=self.cond(d - 1), mapper=self.mapper(d - 1))
            if r.random() < .5: x['else_mapper'] = self.mapper(d - 1)
            return {'If': x}
        if k == 'chain': return {'ConditionChain': [dict(condition=self.cond(d - 1), mapper=self.mapper(d - 1)) for _ in range(r.choice([1, 2, 3]))]}
        if k == 'all': return {'All': [self.mapper(d - 1) for _ in range(r.choice([1, 2, 3, 4]))]}
        if k == 'pmap': return {'PartMap': dict(part='Path', map={x: self.mapper(d - 1) for x in self.keys()}, **self.mapdef(lambda: self.mapper(d - 1)))}
        if k == 'ignore': return {'IgnoreError': self.mapper(d - 1)}
        if k == 'revert': return {'RevertOnError': self.mapper(d - 1)}
        if k == 'try': return {'TryElse': {'try': self.mapper(d - 1), 'else': self.mapper(d - 1)}}
        if k == 'first': return {'FirstNotError': [self.mapper(d - 1) for _ in range(r.choice([1, 2, 3]))]}
        if k == 'rules': return {'Rules': [self.rule(d - 1) for _ in range(r.choice([1, 2]))]}
        if k == 'retry': return {'Retry': dict(mapper=self.mapper(d - 1), delay=r.choice([0.001, 0.01, 0.5]), limit=r.choice([1, 2, 3]))}
        if k == 'cacheurl': return {'CacheUrl': dict(category=r.choice(['k0', 'k1']), mapper=self.mapper(d - 1))}
        return {'Common': self.call('mappers', lambda: self.mapper(d - 2))}
    def host(self): return self.tok() + self.r.choice(['', '.' + self.tok(), '.' + self.tok() + '.' + self.tok()]) + self.r.choice(['.test', '.test', '.test', '.com', '.co.uk']) if self.r.random() < .9 else self.r.choice(['10.9.8.7', 'test', 'co.uk', 'com', '127.0.0.1'])
    @debugged
    def where(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .5: return r.choice(['Anywhere', 'Start', 'End', 'Equals', 'Always', 'Never', {'Error': self.err()}, {'StartsAt': r.choice([0, 1, 2, -1, 60])}, {'EndsAt': r.choice([0, 1, 2, -1, 60])}, {'After': r.choice([0, 1, -2, 60])}, {'Before': r.choice([1, 3, -1, 60])}, {'Range': dict(start=r.choice([0, 1, -2]), end=r.choice([None, 2, 3, 60]), location='Anywhere')}])
        k = r.choice(['Not', 'All', 'Any', 'TreatErrorAsPass', 'TreatErrorAsFail', 'TryElse', 'FirstNotError', 'If', 'AnySegment', 'NthSegment'])
        f = lambda: self.where(d - 1)
        if k in ('Not', 'TreatErrorAsPass', 'TreatErrorAsFail'): return {k: f()}
        if k in ('All', 'Any', 'FirstNotError'): return {k: [f() for _ in range(r.choice([1, 2, 3]))]}
        if k == 'TryElse': return {k: {'try': f(), 'else': f()}}
        if k == 'If': return {k: {'if': f(), 'then': f(), 'else': f()}}
        if k == 'AnySegment': return {k: dict(split=r.choice(['/', '=', '&']), location=f())}
        return {k: dict(split=r.choice(['/', '=', '&']), n=r.choice([0, 1, -1, 5]), location=f())}
    def regex(self):
        # the same few patterns with and without flags, so that one could be taken for another
        r = self.r
        if not getattr(self, 'patterns', None): self.patterns = [r.choice(['P([0-9])', '/P', 'P', '[A-P]+', '(?P<x>[A-Z])[0-9]']), r.choice(['[0-9]+', 'p[0-9]', '^/.', 'zz$', '(p)([0-9]+)', 'a|1', '/([a-z0-9]+)', 'p.+'])]
        p = r.choice(self.patterns * 4 + ['(['])
        return p if r.random() < .5 else dict(pattern=p, **{k: r.random() < .7 for k in r.sample(['case_insensitive', 'case_insensitive', 'dot_matches_new_line', 'swap_greed'], r.choice([0, 1, 2]))})
    def template(self): return self.r.choice(['[$1]', '$0$0', '${1}x', '$$', '$2', '$nope', '$x', '$1x', self.tok(), self.ssrc(-1)])
    @debugged
    def char(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .4: return r.choice(['Always', 'Never', 'Error', 'IsAsciiDigit', 'IsAsciiLowercase', 'IsAscii', r.choice(['IsAlphabetic', 'IsAlphanumeric', 'IsAsciiAlphabetic', 'IsAsciiAlphanumeric', 'IsAsciiControl', 'IsAsciiGraphic', 'IsAsciiHexdigit', 'IsAsciiPunctuation', 'IsAsciiUppercase', 'IsAsciiWhitespace', 'IsControl', 'IsDigit', 'IsLowercase', 'IsNumeric', 'IsUppercase', 'IsWhitespace']), {'Equals': r.choice('/p1a')}, {'Between': dict(min='a', max=r.choice('cz'))}, {'IsOneOf': r.sample(list('/p012abc'), r.choice([1, 3, 8]))}, {'IsDigitRadix': r.choice([0, 1, 2, 10, 16, 36, 37])}])
        k = r.choice(['Not', 'All', 'Any', 'TreatErrorAsPass', 'TreatErrorAsFail', 'TryElse', 'FirstNotError', 'If'])
        f = lambda: self.char(d - 1)
        if k in ('Not', 'TreatErrorAsPass', 'TreatErrorAsFail'): return {k: f()}
        if k in ('All', 'Any', 'FirstNotError'): return {k: [f() for _ in range(r.choice([1, 2, 3]))]}
        if k == 'TryElse': return {k: {'try': f(), 'else': f()}}
        return {k: {'if': f(), 'then': f(), 'else': f()}}
    def filt(self):
        """Which kinds of condition errors count."""
        if not self.rich or self.r.random() < .5: return {}
        return dict(filter=self.r.choice([None, [], ['ExplicitError'], self.r.sample(['ExplicitError', 'PartIsNone', 'StringSourceIsNone', 'StringMatcherError', 'StringLocationError', 'StringSourceError', 'TryElseError', 'CommonConditionNotFound', 'CommonCallArgsError', 'GetFlagError', 'GetVarError'], self.r.choice([2, 5, 10]))]))
    @debugged
    def cond(self, d):
        self.budget -= 1
        r = self.r
        leaf = [(1, 'const'), (self.f.get('errw', 1.2), 'error'), (2, 'path'), (2, 'qhas'), (2, 'flag'), (2, 'var'), (1.5, 'contains'), (1, 'sis'), (1, 'smatch'), (1, 'partis')] + self.rich * [(1, 'oneof'), (1, 'pmatch'), (1, 'hostis'), (1, 'scontains'), (1, 'where')]
        comp = [(1, 'if'), (1.5, 'not'), (1.5, 'all'), (1.5, 'any'), (2, 'pass'), (2, 'fail'), (1.5, 'try'), (1, 'map'), (d > 1 and self.on('commons') and .7, 'common')]
        k = self.w(leaf + comp if d > 0 and self.budget > 0 else leaf)
        if k == 'const': return r.choice(['Always', 'Always', 'Never'])
        if k == 'error': return {'Error': self.err()}
        if k == 'path': return {'PathIs': r.choice(['/p0', '/p1', '/p2'])}
        if k == 'qhas': return {'QueryHasParam': r.choice(NAMES)}
        if k == 'flag':
            t = r.choice(['Params', 'Scratchpad', 'Scratchpad'] + (['Common'] if self.on('commons') else []))
            n = r.choice(['g0', 'g1']) if t == 'Scratchpad' else r.choice(['f0', 'f1'])
            return {'FlagIsSet': n if t == 'Params' else dict(type=t, name=n)}
        if k == 'var':
            t, n = self.varref()
            return {'VarIs': dict(type=t, name=n, value=self.ssrc(0))}
        if k == 'contains': return {'PartContains': dict(part=r.choice(['Path', 'Fragment', 'Query', {'QueryParam': r.choice(NAMES)}]), value=r.choice(['1', 'p', 'a']))}
        if k == 'oneof': return {'PartIsOneOf': dict(part=r.choice(['Path', 'Fragment', 'Query', 'Port', {'QueryParam': 'a'}, {'PathSegment': 0}]), values=r.sample(['/p0', '/p1', '1', '2', 'p0', 'p2', '8080'], 3))} if r.random() < .7 else {'HostIsOneOf': ['h%d.test' % r.randrange(4) for _ in range(2)] + ['x.test']}
        if k == 'pmatch': return {'PartMatches': dict(part=r.choice(['Path', 'Fragment', 'Query', 'Host', {'QueryParam': 'a'}]), matcher=self.smatch(d - 1))}
        if k == 'hostis' and r.random() < .3: return r.choice(['UrlHasHost', 'HostIsFqdn', 'HostIsDomain', 'HostIsIp', 'HostIsIpv4', 'HostIsIpv6'])
        if k == 'hostis': x = r.choice(['HostIs', 'DomainIs', 'RegDomainIs', 'SubdomainIs', 'DomainMiddleIs', 'NotDomainSuffixIs', 'DomainSuffixIs']); return {x: None if r.random() < .3 else {'Subd': 'www', 'Doma': 'h%d.test'}.get(x[:4], 'h%d.test') % (() if x[0] == 'S' else r.randrange(3)) if 'Mid' not in x and 'Suf' not in x else 'test' if x == 'DomainSuffixIs' else 'h%d' % r.randrange(3)}
        if k == 'scontains': return {'StringContains': dict(value=self.ssrc(d - 1), substring=r.choice(['a', '1', 'p', None, self.ssrc(0)]), **({'where': self.where()} if r.random() < .7 else {}))}
        if k == 'where': return {'PartContains': dict(part=r.choice(['Path', 'Fragment', {'QueryParam': r.choice(NAMES)}]), value=r.choice(['1', 'p', 'a', '/p']), where=self.where())}
        if k == 'partis': return {'PartIs': dict(part=r.choice(['Path', 'Fragment', {'QueryParam': 'a'}]), value=self.ssrc(d - 1))}
        if k == 'sis': return {'StringIs': dict(left=self.ssrc(d - 1), right=self.ssrc(0))}
        if k == 'smatch': return {'StringMatches': dict(value=self.ssrc(d - 1), matcher=self.smatch(d - 1))}
        if k == 'if': return {'If': {'if': self.cond(d - 1), 'then': self.cond(d - 1), 'else': self.cond(d - 1)}}
        if k == 'not': return {'Not': self.cond(d - 1)}
        if k == 'all': return {'All': [self.cond(d - 1) for _ in range(r.choice([1, 2, 3]))]}
        if k == 'any': return {'Any': [self.cond(d - 1) for _ in range(r.choice([1, 2, 3]))]}
        if k == 'pass': return {'TreatErrorAsPass': dict(self.errcond(d - 1), **self.filt())}
        if k == 'fail': return {'TreatErrorAsFail': dict(self.errcond(d - 1), **self.filt())}
        if k == 'try': return {'TryElse': dict({'try': self.cond(d - 1), 'else': self.cond(d - 1)}, **self.filt())}
        if k == 'map' and self.rich and r.random() < .5: return {'StringMap': dict(value=self.keysrc(), map={x: self.cond(d - 1) for x in self.keys()}, **self.mapdef(lambda: self.cond(d - 1)))}
        if k == 'map': return {'PartMap': dict(part='Path', map={x: self.cond(d - 1) for x in self.keys()}, **self.mapdef(lambda: self.cond(d - 1)))}
        return {'Common': self.call('conditions', lambda: self.cond(d - 2))}
    def errcond(self, d):
        c = self.cond(d)
        return {'All': [c]} if isinstance(c, str) else c   # the condition is flattened into the parent
    def varref(self):
        r = self.r
        t = r.choice(['Params', 'TaskContext', 'TaskContext', 'JobContext', 'Scratchpad', 'Scratchpad'] + (['Common'] if self.on('commons') else []) + (['Env'] if self.on('env') else []))
        return t, {'Params': ['v0', 'v1'], 'TaskContext': ['k', 'v0', 'id'], 'JobContext': ['j0', 'v0'], 'Scratchpad': ['s0', 's1'], 'Common': ['v0', 'v1'], 'Env': ['E0', 'E1']}[t][r.randrange(2)]
    @debugged
    def ssrc(self, d, path=False):
        self.budget -= 1
        r = self.r
        lit = ('/' if path else '') + self.tok()
        leaf = [(3, 'lit'), (0.7, 'none'), (self.f.get('errw', 1.2), 'error'), (2, 'part'), (3, 'var'), (d >= 0 and self.on('net') and self.f.get('netw', 3), 'http'), (d >= 0 and self.on('cmd') and 2, 'cmd')]
        comp = [(1, 'enone'), (1, 'eempty'), (2, 'try'), (1, 'nempty'), (1, 'noneto'), (1.5, 'join'), (1, 'ifflag'), (1, 'ifnone'), (1, 'map'), (1, 'pmap'), (1, 'mod'), (.7, 'between'), (1, 'ifmatch'), (self.rich and 1, 'rfind'), (self.rich and 1, 'npart'), (self.rich and 1, 'xpart'),
            (self.on('cache') and 2, 'cache'), (d > 1 and self.on('commons') and 1, 'common')]
        if d <= 0 or self.budget <= 0:
            k = self.w(leaf)
        else: k = self.w(leaf + comp)
        if k == 'lit': return lit
        if k == 'none': return None
        if k == 'error': return {'Error': self.err()}
        if k == 'part' and self.rich and r.random() < .4: return {'Part': r.choice(['Domain', 'Subdomain', 'RegDomain', 'NotDomainSuffix', 'DomainMiddle', 'DomainSuffix', 'Port', 'Username', {'PathSegment': r.choice([0, 1, -1])}, {'QueryParam': dict(name=r.choice(NAMES), index=r.choice([0, 1]))}])}
        if k == 'part': return {'Part': r.choice(['Path', 'Fragment', 'Host', {'QueryParam': r.choice(NAMES)}])}
        if k == 'var':
            t, n = self.varref(); return {'Var': dict(type=t, name=n)}
        if k == 'http': return self.http(d)
        if k == 'cmd': return self.cmd(d)
        if k == 'enone': return {'ErrorToNone': self.ssrc(d - 1)}
        if k == 'eempty': return {'ErrorToEmptyString': self.ssrc(d - 1)}
        if k == 'try': return {'TryElse': {'try': self.ssrc(d - 1), 'else': self.ssrc(d - 1)}}
        if k == 'nempty': return {'NoneToEmptyString': self.ssrc(d - 1)}
        if k == 'noneto': return {'NoneTo': dict(value=self.ssrc(d - 1), if_none=self.ssrc(d - 1))}
        if k == 'join': return {'Join': dict(sources=[{'NoneToEmptyString': self.ssrc(d - 1)} for _ in range(2)], join=r.choice(['', '-']))}
        if k == 'rfind': return {'RegexFind': dict(value=self.ssrc(d - 1), regex=self.regex())}
        if k == 'npart': return {'ParamsNamedPartitioning': dict(name=r.choice(['n0', 'n0', 'n0', 'nope']), element=self.keysrc())}
        if k == 'xpart': return {'ExtractPart': dict(value=r.choice([{'Part': 'Whole'}, self.ssrc(d - 1), 'http://x.test/' + self.tok(), 'no url']), part=r.choice(['Path', 'Host', {'QueryParam': 'a'}]))}
        if k == 'ifflag': return {'IfFlag': dict([('type', r.choice(['Scratchpad'] + self.rich * ['Params', 'Common'])), ('name', r.choice(['g0'] + self.rich * ['f0', 'g1'])), ('then', self.ssrc(d - 1)), ('else', self.ssrc(d - 1))])}
        if k == 'ifnone': return {'IfStringIsNone': {'value': self.ssrc(d - 1), 'then': self.ssrc(d - 1), 'else': self.ssrc(d - 1)}}
        if k == 'ifmatch': return {'IfStringMatches': {'value': self.ssrc(d - 1), 'matcher': self.smatch(d - 1), 'then': self.ssrc(d - 1), 'else': self.ssrc(d - 1)}}
        if k == 'map': return {'Map': dict(value=self.keysrc(), map={x: self.ssrc(d - 1) for x in self.keys()}, **self.mapdef(lambda: self.ssrc(d - 1)))}
        if k == 'pmap': return {'ParamsMap': dict(name=r.choice(['m0', 'm0', 'm1', 'nomap']), key=r.choice(['x', 'y', {'Part': 'Path'}]))}
        if k == 'mod': return {'Modified': dict(value=self.ssrc(d - 1), modification=self.smod(d - 1))}
        if k == 'between': return {'ExtractBetween': dict(value=self.ssrc(d - 1), start=r.choice(['p', '/', 'a']), end=r.choice(['', '/', '1']))}
        if k == 'cache': return {'Cache': dict(category=r.choice(['k0', 'k1', 'k2']), key=self.cachekey(), value=self.ssrc(d - 1))}
        return {'Common': self.call('string_sources', lambda: self.ssrc(d - 2))}
    def cachekey(self): return {'Join': dict(sources=[{'Part': 'Host'}, self.r.choice(['', 'x', {'Part': 'Path'}])], join=':')}
    def altered(self, x):
        # a copy in which one detail is different
        x = copy.deepcopy(x); sites = []
        def walk(v):
            for k, y in (v.items() if isinstance(v, dict) else enumerate(v)):
                if k in ('regex', 'Regex', 'RegexFind') and (isinstance(y, str) or 'pattern' in y): sites.extend([(v, k, 'rx')] * 3)
                elif isinstance(y, (bool, int)) or k in ('split', 'find', 'replace', 'join') and isinstance(y, str) and y: sites.append((v, k, type(y)))
                elif isinstance(y, (dict, list)): walk(y)
        walk(x)
        if sites:
            v, k, t = self.r.choice(sites); y = v[k]
            if t == 'rx': v[k] = dict(pattern=y, case_insensitive=True) if isinstance(y, str) else dict(y, **{f: not y.get(f, False) for f in [self.r.choice(['case_insensitive', 'case_insensitive', 'swap_greed', 'dot_matches_new_line'])]})
            else: v[k] = not y if t is bool else y + self.r.choice([-1, 1] if y else [1]) if t is int else self.r.choice(['/', 'p', '1', '-'])
        return x
    def rx(self):
        r = self.r; i = lambda: r.choice([0, 1, 2, -1, -2, 50])
        return r.choice([lambda: {'RegexCaptures': dict(regex=self.regex(), replace=self.template())}, lambda: {'JoinAllRegexCaptures': dict(regex=self.regex(), replace=self.template(), join=r.choice(['', '-', self.ssrc(-1)]))}, lambda: {r.choice(['RegexReplace', 'RegexReplaceAll']): dict(regex=self.regex(), replace=self.template())}, lambda: {'RegexReplacen': dict(regex=self.regex(), n=r.choice([0, 1, 2]), replace=self.template())},
            lambda: {'ReplaceRange': dict(start=i(), end=r.choice([None, i()]), replace=self.ssrc(-1))}, lambda: {'Insert': dict(index=i(), value=self.ssrc(-1))}, lambda: {'KeepSegmentRange': dict(split=r.choice(['/', '&', 'p', '.']), start=i(), end=r.choice([None, i()]))}, lambda: r.choice(['UrlEncode', 'UrlDecode', {'UrlEncode': r.choice(['JsEncodeUriComponent', 'JsEncodeUri', 'NonAlphanumeric'])}]),
            lambda: r.choice(['Base64Encode', 'Base64Decode', {'Base64Encode': dict(alphabet=r.choice(['UrlSafe', 'Standard']), encode_padding=r.random() < .5)}, {'Base64Decode': dict(alphabet=r.choice(['UrlSafe', 'Standard']), decode_padding=r.choice(['Indifferent', 'RequireCanonical', 'RequireNone']))}, {'All': ['Base64Encode', {'Base64Decode': dict(decode_padding=r.choice(['Indifferent', 'RequireNone']))}]}, {'All': [{'Set': r.choice(['cDE', 'cDE=', 'cDF', '_-8', '%e2%82%ac', '%ff', 'c'])}, r.choice(['Base64Decode', 'UrlDecode'])]}])])()
    @debugged
    def smod(self, d):
        r = self.r
        R = self.rich * ['aff', 'range', 'seg', 'repl', 'misc', 'rx', 'rx']
        if d <= 0 or self.budget <= 0: k = r.choice(['set', 'app', 'pre', 'err', 'app', 'set'] + R)
        else: k = r.choice(['set', 'app', 'pre', 'err', 'ignore', 'revert', 'try', 'all', 'all', 'first', 'if'] + R + self.rich * ['ifm', 'map'] + (['com'] if self.rich and d > 1 and self.on('commons') else []))
        if k == 'rx': return self.rx()
        if k == 'aff': return {r.choice(['StripPrefix', 'StripSuffix', 'StripMaybePrefix', 'StripMaybeSuffix']): r.choice(['/', 'p', '1', '/p0', self.ssrc(-1)])}
        if k == 'range': return r.choice([{'KeepRange': dict(start=r.choice([0, 1, -2, 50]), end=r.choice([None, 2, -1]))}, {'RemoveChar': r.choice([0, 1, -1, 50])}])
        if k == 'seg':
            sp = r.choice(['/', '&', '=', 'p']); i = r.choice([0, 1, -1, 3, -5])
            return r.choice([{'KeepNthSegment': dict(split=sp, index=i)}, {'SetSegment': dict(split=sp, index=i, value=self.ssrc(-1))}, {'InsertSegment': dict(split=sp, index=i, value=self.ssrc(-1))}])
        if k == 'repl': return r.choice([{'Replace': dict(find=r.choice(['p', '/', '1']), replace=self.tok())}, {'Replacen': dict(find=r.choice(['p', '/', '1']), replace=self.tok(), count=r.choice([0, 1, 2]))}, {'ExtractBetween': dict(start=r.choice(['/', 'p', '']), end=r.choice(['/', '1', '']))}])
        if k == 'misc': return r.choice(['None', 'Uppercase', 'Lowercase', {'RegexFind': self.regex()}, self.rx(), {r.choice(['RemoveQueryParamsMatching', 'AllowQueryParamsMatching']): self.smatch(d - 1)}, {'JsonPointer': r.choice(['/a', '/b/c'])}, {'All': [{'Set': r.choice(['{"a":"/x1","b":{"c":"/y2"}}', '{"a":3}', '{"a":'])}, {'JsonPointer': r.choice(['/a', '/b/c'])}]}])
        if k == 'ifm': return {'IfMatches': {'matcher': self.smatch(d - 1), 'then': self.smod(d - 1), 'else': r.choice([None, self.smod(d - 1)])}}
        if k == 'map': return {'StringMap': dict(value=self.keysrc(), map={x: self.smod(d - 1) for x in self.keys()}, **self.mapdef(lambda: self.smod(d - 1)))}
        if k == 'com': return {'Common': self.call('string_modifications', lambda: self.smod(d - 2))}
        if k == 'set': return {'Set': self.ssrc(d - 1, path=True)}
        if k == 'app': return {'Append': self.ssrc(d - 1)}
        if k == 'pre': return {'Prepend': self.ssrc(d - 1, path=True)}
        if k == 'err': return {'Error': self.err()}
        if k == 'ignore': return {'IgnoreError': self.smod(d - 1)}
        if k == 'revert': return {'RevertOnError': self.smod(d - 1)}
        if k == 'try': return {'TryElse': {'try': self.smod(d - 1), 'else': self.smod(d - 1)}}
        if k == 'all': return {'All': [self.smod(d - 1) for _ in range(r.choice([2, 3]))]}
        if k == 'first': return {'FirstNotError': [self.smod(d - 1) for _ in range(r.choice([1, 2, 3]))]}
        return {'If': {'condition': self.cond(d - 1), 'then': self.smod(d - 1), 'else': self.smod(d - 1)}}
    @debugged
    def smatch(self, d):
        r = self.r
        R = self.rich * ['where', 'set', 'char', 'seg', 'misc', 'rx', 'rx']
        if d <= 0 or self.budget <= 0: k = r.choice(['c', 'is', 'con', 'err', 'con'] + R)
        else: k = r.choice(['c', 'is', 'con', 'err', 'not', 'all', 'any', 'pass', 'fail', 'try', 'first'] + R + self.rich * ['if', 'mod'] + (['com'] if self.rich and d > 1 and self.on('commons') else []))
        if k == 'where': return r.choice([{'Contains': dict(value=r.choice(['a', '1', 'p', self.ssrc(-1)]), where=self.where())}, {'ContainsAny': dict(values=[r.choice(['a', '1', 'p']), self.ssrc(-1), '/'], where=self.where())}, {'ContainsAnyInList': dict(list=r.choice(['l0', 'l0', 'l1', 'nolist']), where=self.where())}])
        if k == 'set': return r.choice([{'IsOneOf': r.sample(['/p0', '/p1', '1', 'a', 'k0', 'id'], 3)}, {'InSet': r.choice(['s0', 's0', 'noset', self.ssrc(-1)])}])
        if k == 'rx': return {'Regex': self.regex()}
        if k == 'char': return {r.choice(['AllCharsMatch', 'AnyCharMatches']): self.char()}
        if k == 'seg': return r.choice([{'NthSegmentMatches': dict(split=r.choice(['/', 'p']), n=r.choice([0, 1, -1, 4]), matcher=self.smatch(d - 1))}, {'AnySegmentMatches': dict(split=r.choice(['/', 'p']), matcher=self.smatch(d - 1))}])
        if k == 'misc': return r.choice(['IsAscii', {'LengthIs': r.choice([0, 1, 3, 4])}, {'OnlyTheseChars': list(r.choice(['/p012', '1', 'abcdefghijklmnopqrstuvwxyz0123456789']))}, {'Regex': self.regex()}, {'Glob': r.choice(['/p*', '*1', '?p0', '*', dict(pattern='/P*', case_sensitive=False), dict(pattern='*p0', require_literal_separator=True), dict(pattern='/p?', require_literal_leading_dot=False)])}, {r.choice(['SegmentsStartWith', 'SegmentsEndWith']): dict(split=r.choice(['/', 'p', '.']), value=r.choice(['', '/', '/p0', 'p0', 'test', self.ssrc(-1)]))}])
        if k == 'if': return {'If': {'if': self.smatch(d - 1), 'then': self.smatch(d - 1), 'else': self.smatch(d - 1)}}
        if k == 'mod': return {'Modified': dict(modification=self.smod(d - 1), matcher=self.smatch(d - 1))}
        if k == 'com': return {'Common': self.call('string_matchers', lambda: self.smatch(d - 2))}
        if k == 'c': return r.choice(['Always', 'Never'])
        if k == 'err': return {'Error': self.err()}
        if k == 'is': return {'Is': self.ssrc(d - 1)}
        if k == 'con': return {'Contains': dict(value=r.choice(['a', '1', 'p']))}
        if k == 'not': return {'Not': self.smatch(d - 1)}
        if k in ('all', 'any'): return {k.capitalize(): [self.smatch(d - 1) for _ in range(2)]}
        if k == 'pass': return {'TreatErrorAsPass': self.smatch(d - 1)}
        if k == 'fail': return {'TreatErrorAsFail': self.smatch(d - 1)}
        if k == 'try': return {'TryElse': {'try': self.smatch(d - 1), 'else': self.smatch(d - 1)}}
        return {'FirstNotError': [self.smatch(d - 1) for _ in range(r.choice([1, 2, 3]))]}
    def clientdiff(self):
        return gen_clientdiff(self.r, self.on('client'), self.on('proxy'), self.on('certs'))
    def http(self, d):
        r = self.r
        self.q += 1
        x = dict(url={'Join': dict(sources=['http%s://q%d-' % (r.choice(['', 's']), self.q), {'Part': 'Host'}, '/' + self.tok()], join='')})
        if self.on('client') and r.random() < .4: x['url'] = {'Join': dict(sources=['http%s://%ssh%d.test/' % (r.choice(['', 's']), r.choice(['', '', 'ua%d:pb@' % self.q]), r.randrange(3)), {'Part': 'Host'}, '/%s-%d' % (self.tok(), self.q)], join='')}
        elif self.on('client') and r.random() < .1: del x['url']
        if r.random() < .3: x['method'] = r.choice(['POST', 'PUT', 'GET', 'HEAD'])
        if r.random() < .4: x['headers'] = {'X-H': self.ssrc(-1)}
        if r.random() < .3: x['body'] = self.r.choice([{'Text': self.tok()}, {'Form': {'f': self.tok()}}])
        if self.on('client'):
            auth = 'url' in x and '@' not in x['url']['Join']['sources'][0]
            if r.random() < .4: x['headers'] = {n: self.ssrc(-1) if r.random() < .8 else r.choice(HVALS) for n in r.sample(['X-H', 'X-H2', 'X-D', 'Referer', 'Accept'] + (['Authorization'] if auth else []), r.choice([1, 2]))}
            if r.random() < .4:
                x['method'] = r.choice(['POST', 'PUT', 'PATCH', 'DELETE', 'GET'])
                x['body'] = r.choice([{'Text': self.ssrc(-1)}, {'Text': self.tok() * r.choice([1, 300, 20000])}, {'Form': {n: self.ssrc(-1) for n in r.sample(['f', 'g h', 'i&'], r.choice([0, 1, 2]))}}, {'Json': self.json(2)}])
        x['response_handler'] = r.choice(['Body', 'Body', {'Header': 'x-tok'}, {'Cookie': 'ck'}] + (['Url', {'Header': self.ssrc(-1)}] + self.on('heads') * [{'Header': r.choice(['X-Tok', 'X-TOK', 'x-tok-2', 'x', 'location', 'content-type', 'nope', 'b\u00e4d', ''])}, {'Cookie': r.choice(['ck', 'CK', 'ckx', 'c', 'other', '', 'Path'])}] if self.on('client') else []))
        if self.on('client'):
            c = self.clientdiff()
            if c: x['client_config_diff'] = c
        elif r.random() < .4: x['client_config_diff'] = {'redirect_policy': r.choice(['None', {'Limited': 1}, {'Limited': 3}])}
        return {'HttpRequest': x}
    def json(self, d):
        r = self.r
        k = r.choice(['str', 'src', 'num', 'bool'] + (['arr', 'obj', 'obj'] if d else []))
        if k == 'str': return r.choice([self.tok(), 'a"b\\\u20ac'])
        if k == 'src': return {'String': self.ssrc(-1)}
        if k == 'num': return {'Number': r.choice([0, 1, -5, 2.5, 10 ** 15])}
        if k == 'bool': return {'Bool': r.random() < .5}
        if k == 'arr': return {'Array': [self.json(d - 1) for _ in range(r.choice([0, 1, 3]))]}
        return {'Object': {n: self.json(d - 1) for n in r.sample(['a', 'b', 'c d'], r.choice([0, 1, 2]))}}
    def cmd(self, d):
        r = self.r
        n = r.choice(['prog0', 'prog1', 'prog2', 'nosuch'])
        if n != 'nosuch' and n not in self.progs:
            self.progs[n] = [r.choice([['a', 'x0'], ['w1:' + hx(self.tok())], ['a', 'w1:' + hx(self.tok()), 'x3'], ['r*', 'a', 'x0'], ['e'], ['spawnfail:11'], ['w1:fffe80', 'x0'], ['z%d' % r.choice([10, 5000, 100000, 100000, 45000000, 900000000]), 'a']])]
        if r.random() < .1: return {'CommandOutput': n}
        x = dict(program=n, args=[self.ssrc(-1) if r.random() < .5 else {'Part': 'Host'} for _ in range(r.choice([1, 2]))])
        if r.random() < .3: x['stdin'] = r.choice([self.tok(), {'Part': 'Path'}])
        return {'CommandOutput': x}

BADPROXY = ['ftp://px1.test:21', 'data:text/plain,x', 'http+x://px1.test', 'wss://px2.test:443']
def gen_proxy(r, https=True):
    u = 'http://px%d.test:%d' % (r.randrange(4), r.choice([3128, 8080]))
    if r.random() < .3: return u
    p = dict(url=u + r.choice(['', '/']))
    if r.random() < .6: p['mode'] = r.choice(['Http', 'Https', 'All'])
    if r.random() < .03: p['url'] = r.choice(['https', 'http']) + '://pxdown%d.test:1080' % r.randrange(2)     # never answers
    if r.random() < .03: return r.choice([dict(p, url=u) for u in BADPROXY] + BADPROXY)     # nothing can be proxied through these
    if r.random() < .3:
        p['url'] = '%s://%spx%d.test%s' % (r.choice(['socks4', 'socks4a', 'socks5', 'socks5h', 'socks5h']), r.choice(['', '', '', 'pu@', 'pu:pq@']), r.randrange(4), r.choice(['', ':1080', ':3128', ':8080/']))
        if p['url'][5] == '4' and r.random() < .8: p['url'] = p['url'].replace('pu:pq@', '')
    if r.random() < .08: p['url'] = p['url'].replace('://px', '://pv:%s@px' % r.choice(['pw', 'p%20w', '']))
    if r.random() < (.3 if p['url'][:6] != 'socks4' else .06): p['auth'] = {'Basic': dict(username='pu' + token(r), password='pp' + token(r))}
    if 'auth' in p and p['url'][:5] != 'socks' and r.random() < .25: p['auth']['Basic'].update(r.choice([dict(password=''), dict(username=''), dict(username='', password=''), dict(password='p:w'), dict(username='p\u00e4 u', password=' %41@'), dict(password='x' * 300)]))
    if r.random() < (.05 if p['url'][:6] != 'socks4' else .02): p['auth'] = {'Custom': r.choice(['Bearer ' + token(r), token(r)])}
    return p
def gen_certs(r, n):
    out = [r.choice(certs()) for _ in range(n)]
    if r.random() < .06: out.append(r.choice(['', 'nope', certs()[0][:200], certs()[1].replace('CERTIFICATE', 'PRIVATE KEY')]))
    return sorted(set(out))
def gen_clientdiff(r, client=True, proxy=False, cert=False):
    d = {}
    if cert:
        if r.random() < .4: d['add_extra_certificates'] = gen_certs(r, r.choice([1, 1, 2]))
        if r.random() < .25: d['remove_extra_certificates'] = gen_certs(r, r.choice([1, 1, 2]))
    if r.random() < .4: d['redirect_policy'] = r.choice(['None', {'Limited': 1}, {'Limited': 3}, {'Limited': 5}])
    if client:
        if r.random() < .25: d['add_default_headers'] = {n: token(r) for n in r.sample(['X-D', 'x-h', 'X-D2', 'Accept-Language', 'User-Agent'], r.choice([1, 2]))}
        if r.random() < .1: d['https_only'] = r.random() < .5
        if r.random() < .3: d['referer'] = r.random() < .6
    if proxy:
        if r.random() < .3: d['set_proxies'] = [gen_proxy(r) for _ in range(r.choice([0, 1, 1, 2]))]
        if r.random() < .25: d['add_proxies'] = [gen_proxy(r) for _ in range(r.choice([1, 1, 2]))]
    return d
def gen_client(r, client=True, proxy=False):
    c = {}
    d = gen_clientdiff(r, client, False)
    for k in ('redirect_policy', 'https_only', 'referer'):
        if k in d: c[k] = d[k]
    if 'add_default_headers' in d: c['default_headers'] = d['add_default_headers']
    if proxy and r.random() < .6: c['proxies'] = [gen_proxy(r) for _ in range(r.choice([1, 1, 2]))]
    return c
def gen_params(r, **kw):
    p = dict(flags=r.sample(['f0', 'f1'], r.choice([0, 1])), vars={v: token(r) for v in r.sample(['v0', 'v1'], r.choice([0, 1, 2]))}, maps={'m0': {'map': {'x': token(r), '/p0': token(r), 'y': token(r)}}, 'm1': {'map': {}, 'else': token(r)}},
        sets={'s0': ['/p0', '1', 'a', 'id']}, lists={'l0': ['/p1', '2', 'b', 'zz'], 'l1': []}, named_partitionings={'n0': {'A': ['/p0', '1', 'k0'], 'B': ['/p1', '2', 'k1']}})
    p.update(kw); return p

BAD = ['not a url', 'http://', '{"url":"http://a.test/"', '{}', '"nope"', 'http://[::1', '', '   ', '//x/y', '{"url":3}', 'a.test/path', '{"nope":"http://a.test/"}', '"http://a.test', 'http://a b/', 'mailto', '{"url":"http://q.test/","context":{"vars":3}}']
def gen_task(r, i, bad=0.1, json_ok=True, args=0.0, scheme=None, simple=False):
    if r.random() < bad:
        x = r.random()
        return dict(raw=r.choice(BAD)) if x < .6 else dict(raw=r.choice(ODDBAD)) if x < .85 else dict(hex=r.choice(HEXBAD))
    u = '%s://h%d.test/%s' % (scheme or r.choice(['http', 'https']), i, r.choice(['p0', 'p1', 'p2', token(r), '']))
    q = []
    for n in r.sample(NAMES, r.choice([0, 1, 2, 3])): q.append('%s=%s' % (n, r.choice(['1', '2', token(r)])))
    if r.random() < .15: q.append('u=http%%3A%%2F%%2Fg%d.test%%2Fp%d' % (i, r.randrange(3)))
    if q: u += '?' + '&'.join(q)
    if r.random() < .3: u += '#' + token(r)
    t = dict(url=u)
    if json_ok and r.random() < .5:
        t['form'] = r.choice(['json', 'json', 'str'])
        if t['form'] == 'json': t['ctx'] = {k: r.choice(['k0', 'k1', '1', token(r)]) for k in r.sample(['k', 'v0', 'id'], r.choice([0, 1, 2]))}
    return t
def task_line(t):
    if 'raw' in t: return t['raw']
    f = t.get('form', 'plain')
    if f == 'plain': return t['url']
    if f == 'str': return json.dumps(t['url'])
    return json.dumps(dict([('url', t['url'])] + ([('context', {'vars': t['ctx']})] if t.get('ctx') else [])))
def task_bytes(t): return bytes.fromhex(t['hex']) if 'hex' in t else task_line(t).encode()
def is_bad(t): return 'raw' in t or 'hex' in t
HEXBAD = ['ff', 'c3', '687474703a2f2f612e746573742fff', 'f09f98', '8081', 'eda080', '687474703a2f2fc3282e746573742f']   # not UTF-8
ODDBAD = ['{"url":"http://a.test/","context":{"vars":{"k":1}}}', '{"url":"http://a.test/"}}', '{"url":"http://a.test/"} x', '"http://a.test/" "http://b.test/"', 'http://a.test:99999/', 'http://a.test:x/', 'http://%zz.test/', 'http://xn--/', 'http://[v1.x]/',
    '"\\ud800"', '{"url":"\\ud800"}', '[' * 300, '{"url":' * 200, '{"url":"http://a.test/","context":' + '{"a":' * 200, '\u00e9\u20ac', '\x00', 'http://\x00/', '{"url":null}', '{"url":""}', '""', '"', '{', '{"', 'https:///', 'file', '://', ':', '1', '-', '--json-not', 'null', 'true', 'x' * 5000, '{"URL":"http://a.test/"}',
    '\ufeffhttp://a.test/', '\ufeff"http://a.test/"', '\ufeff{"url":"http://a.test/"}', ' "http://a.test/"', ' {"url":"http://a.test/"}', '\u00a0http://a.test/', "'http://a.test/'", '<http://a.test/>', '["http://a.test/"]', '"http://a.test/",', '{"url":"http://a.test/"}{"url":"http://b.test/"}', '"http://a.test/"http://b.test/', '\u200bhttp://a.test/', '\u201chttp://a.test/\u201d', '# http://a.test/', '{"url":"http://a.test/"}\ufeff']
def batches_of(r, tasks, n=None):
    """Arrival times (us) of the lines given on STDIN: several batches."""
    if r.random() < .4 or len(tasks) < 2: return [0] * len(tasks)
    t, out = 0, []
    for _ in tasks:
        out.append(t)
        if r.random() < .3: t += r.choice([10, 1000, 200000, 3000000, 3000000, 70000000, 40000000000])
    return out
def stdin_chunks(tasks, times, tail_newline=True, crlf=False):
    ch = []
    for i, (t, tm) in enumerate(zip(tasks, times)):
        b = task_bytes(t) + (b'\r\n' if crlf else b'\n')
        if i == len(tasks) - 1 and not tail_newline: b = task_bytes(t)
        if ch and ch[-1][0] == tm: ch[-1] = (tm, ch[-1][1] + b)
        else: ch.append((tm, b))
    return [c for c in ch if c[1]]

# ---- requests ----
LIBHEADERS = {'accept', 'accept-encoding', 'user-agent', 'content-length', 'transfer-encoding', 'connection', 'host', 'proxy-connection'}   # an HTTP library may add these by itself
def parse_req(e):
    """A 'net req' event -> dict."""
    _, _, sid, ip, port, tls, h = e[4]
    raw = bytes.fromhex(h)
    head, body = raw.split(b'\r\n\r\n', 1)
    ls = head.decode('latin1').split('\r\n')
    m, t, v = ls[0].split(' ')
    hs = [(l.split(':', 1)[0].strip().lower(), l.split(':', 1)[1].strip(' \t')) for l in ls[1:]]
    if any(k == 'transfer-encoding' and 'chunked' in x for k, x in hs):
        out, rest = b'', body
        while True:
            n, rest = rest.split(b'\r\n', 1); n = int(n, 16)
            if not n: break
            out += rest[:n]; rest = rest[n + 2:]
        body = out
    return dict(t=e[1], node=e[2], ip=ip, port=int(port), tls=tls, method=m, target=t, headers=hs, body=body)
def reqs_of(r, node=None):
    return [parse_req(e) for e in r.events if e[4][0] == 'net' and e[4][1] == 'req' and (node is None or e[2] == node)]
def req_fits(q, e):
    """Does the request on the wire equal the expected one? -> None or why not."""
    _, ip, port, tls, method, line, hs, body, host = e
    got = {}
    for k, v in q['headers']:
        if k in got and k not in LIBHEADERS: return 'header %s sent twice' % k
        got[k] = v
    want = dict(hs)
    if body and body[0] in ('Form', 'Json') and 'content-type' not in want:
        ct = got.pop('content-type', '').split(';')[0]
        if ct != {'Form': 'application/x-www-form-urlencoded', 'Json': 'application/json'}[body[0]]: return 'content-type %r for a %s body' % (ct, body[0])
    if got.get('host') != host: return 'Host %r, expected %r' % (got.get('host'), host)
    for k, v in want.items():
        if isinstance(v, tuple):
            if k not in got: continue
            v = v[1]
        v = v.encode().decode('latin1').strip(' \t')
        if got.get(k) != v: return 'header %s is %r, expected %r' % (k, got.get(k), v)
    for k, v in got.items():
        if k not in want and k not in LIBHEADERS: return 'unexpected header %s: %r' % (k, v)
    b = q['body']
    if body is None or body == ('Text', ''):
        if b: return 'unexpected body %r' % b[:200]
    elif body[0] == 'Text':
        if b != body[1].encode(): return 'body %r (%d bytes), expected %r (%d bytes)' % (b[:200], len(b), body[1][:200], len(body[1]))
    elif body[0] == 'Form':
        from urllib.parse import parse_qsl
        f = sorted(parse_qsl(b.decode('latin1'), keep_blank_values=True))
        if f != sorted(body[1].items()): return 'form %r, expected %r' % (f, body[1])
    else:
        try: j = json.loads(b.decode())
        except ValueError: return 'body %r is not JSON' % b[:200]
        if j != body[1]: return 'JSON body %r, expected %r' % (j, body[1])
    return None
def check_requests(r, traces, node=0, conns=True):
    """The lookups, connections and requests of a run against what its inputs should have caused, and nothing else."""
    exp = [x for t in traces for x in t if x[0] == 'req']
    seen = reqs_of(r, node)
    dns = {e[4][2] for e in r.events if e[4][:2] == ['net', 'dns'] and e[2] == node}
    con = {(e[4][3], int(e[4][4])) for e in r.events if e[4][:2] == ['net', 'conn'] and e[2] == node}
    xd = {x[1] for t in traces for x in t if x[0] == 'dns'}; xc = {(x[1], x[2]) for t in traces for x in t if x[0] == 'conn'}
    if dns - xd - {x[1] for t in traces for x in t if x[0] == 'maydns'}: raise Violation('lookup', 'names were looked up that no input asks for: %r (expected %r)' % (sorted(dns - xd), sorted(xd)))
    if con - xc: raise Violation('connection', 'connections were made that no input asks for: %r (expected %r)' % (sorted(con - xc), sorted(xc)))
    if conns and (xd - dns or xc - con): raise Violation('missing', 'expected lookups %r and connections %r were not made' % (sorted(xd - dns), sorted(xc - con)))
    key = lambda ip, port, tls, m, t: (ip, port, tls, m, t)
    left = {}; first = set(); sent = {}
    for e in exp: left.setdefault(key(*e[1:6]), []).append(e)
    for q in seen: sent.setdefault(key(q['ip'], q['port'], q['tls'], q['method'], q['target']), []).append(q)
    for k, qs in sent.items():
        c = left.get(k)
        if not c: raise Violation('request', 'unexpected request %r with %r %r; expected %r' % (k, qs[0]['headers'], qs[0]['body'][:100], sorted(left)[:12]))
        why = [[req_fits(q, e) for e in c] for q in qs]
        took = {}                                     # expected -> request: requests for one target may differ only in what they carry
        def place(i, seen):
            for j in range(len(c)):
                if why[i][j] is None and j not in seen:
                    seen.add(j)
                    if j not in took or place(took[j], seen): took[j] = i; return True
            return False
        for i, q in enumerate(qs):
            if not place(i, set()):
                w = next((x for x in why[i] if x), 'sent more often than asked for')
                raise Violation('request', 'request %r: %s (sent %r)' % (k, w, q['headers']))
        first.add(k); left[k] = [e for j, e in enumerate(c) if j not in took]
        if not left[k]: del left[k]
    left = [k for k in left if k[3] not in ('CONNECT', 'SOCKS4', 'SOCKS5') or k not in first]      # a redirect back to a host may use its tunnel again
    if left: raise Violation('missing', 'requests were not sent: %r' % sorted(left)[:6])
    return len(seen)

# ---- expectations ----
def expect(model, tasks):
    out = []
    for t in tasks:
        if is_bad(t): out.append(('bad',)); model.trace = []
        else: out.append(model.task(t['url'], t.get('ctx')))
        t['_trace'] = model.trace
    return out
def freeze(config, params, tasks, world, **kw):
    """Runs the model once with an inventing world so that the scenario becomes complete."""
    m = Model(config, params, world=world, **kw)
    expect(m, tasks)
    for t in tasks: t.pop('_trace', None)
    world.gen = None
    return world.d

def status_of(exp):
    bad = sum(1 for e in exp if e[0] != 'ok')
    return 0 if not bad else 1 if bad == len(exp) else 2
ERRP = (b'DoTaskError\t', b'MakeTaskError\t')
def check_lines(r, exp, node=0, order=True, exit=True, stderr=True):
    """Line mode output against expected results."""
    out, err = bytes(r.outs[node][1]), bytes(r.outs[node][2])
    if out and not out.endswith(b'\n'): raise Violation('output', 'output does not end with a newline: %r' % out[-200:])
    lines = out.split(b'\n')[:-1]
    if len(lines) != len(exp): raise Violation('count', '%d results for %d inputs; stdout %r stderr %r' % (len(lines), len(exp), out[-600:], err[-600:]))
    for i, (l, e) in enumerate(zip(lines, exp)):
        want = e[1].encode() if e[0] == 'ok' else b''
        if l != want: raise Violation('result', 'input %d: wrote %r, expected %r (%s)' % (i, l, want, e[2] if len(e) > 2 else e[0]))
    x = exit_of(r, node)
    if exit and x != ('exit', status_of(exp)): raise Violation('status', 'exit %r, expected %d (%d of %d failed); stderr %r' % (x, status_of(exp), sum(e[0] != 'ok' for e in exp), len(exp), err[-400:]))
    if stderr: check_stderr(err, exp)
def check_honest(r, exp, js):
    """Steps may have failed for reasons the model does not know of: each result is right or a failure, and the exit status tells."""
    x = exit_of(r)
    if x[0] != 'exit': raise Violation('crashed', 'ended with %r' % (x,))
    if x[1] not in (0, 1, 2):      # the run gave up: what it wrote must be right
        if js: return
        ls = entries_lines(r)
        if len(ls) > len(exp): raise Violation('count', '%d results for %d inputs' % (len(ls), len(exp)))
    else:
        ls = entries_lines(r) if not js else [(u['Ok']['Ok'].encode() if isinstance(u.get('Ok'), dict) and 'Ok' in u['Ok'] else b'') for u in entries_json(r)]
        if len(ls) != len(exp): raise Violation('count', '%d results for %d inputs' % (len(ls), len(exp)))
        n = sum(1 for l in ls if not l); want = 0 if not n else 1 if n == len(ls) else 2
        if x[1] != want: raise Violation('status', 'exit %d; %d of %d results are failures' % (x[1], n, len(ls)))
        if not js and bytes(r.outs[0][2]).count(b'\n') < n: raise Violation('diagnostics', '%d failures: %r' % (n, bytes(r.outs[0][2])[-300:]))
    for i, (l, e) in enumerate(zip(ls, exp)):
        if l and l != (e[1].encode() if e[0] == 'ok' else b''): raise Violation('result', 'input %d: wrote %r, expected %r or a failure' % (i, l, e))
def plain(s): return re.fullmatch(r'[ -!#-&(-\[\]-~]*', s) is not None
def shown(s): return re.match(r'[\w-]*', s, re.A).group(0).encode()     # how the rest of an odd text is shown is up to the program
DEBUGGED = re.compile(rb'^=== \w+::Debug ===$', re.M)
def check_stderr(err, exp):
    ls = err.split(b'\n')[:-1] if err.endswith(b'\n') else err.split(b'\n') if err else []
    if DEBUGGED.search(err): ls = [l for l in ls if l.startswith((b'DoTaskError\t', b'MakeTaskError\t'))]     # what Debug shows is free
    fails = [e for e in exp if e[0] != 'ok']
    if len(ls) != len(fails): raise Violation('diagnostics', '%d diagnostic lines for %d failed inputs: %r' % (len(ls), len(fails), err[-1500:]))
    for l, e in zip(ls, fails):
        pre = b'MakeTaskError\t' if e[0] == 'bad' else b'DoTaskError\t'
        if not l.startswith(pre): raise Violation('diagnostics', 'diagnostic %r, expected one starting with %r' % (l[:200], pre))
        if e[0] == 'err' and e[1] is not None and not plain(e[1]) and shown(e[1]) not in l or e[0] == 'err' and e[1] is not None and plain(e[1]) and e[1].encode() not in l: raise Violation('diagnostics', 'diagnostic %r does not name %r' % (l[:300], e[1]))
def parse_json(out):
    try: d = json.loads(out.decode())
    except Exception as e: raise Violation('json', 'output is not one JSON document (%s): %r ... %r' % (e, out[:200], out[-200:]))
    if not (isinstance(d, dict) and list(d) == ['Ok'] and isinstance(d['Ok'], dict) and isinstance(d['Ok'].get('urls'), list)): raise Violation('json', 'unexpected document %r' % out[:300])
    return d['Ok']['urls']
def check_json(r, exp, node=0, exit=True):
    out, err = bytes(r.outs[node][1]), bytes(r.outs[node][2])
    us = parse_json(out)
    if len(us) != len(exp): raise Violation('count', '%d entries for %d inputs; %r' % (len(us), len(exp), out[-400:]))
    for i, (u, e) in enumerate(zip(us, exp)):
        want = {'ok': 'success', 'err': 'task failure', 'bad': 'input failure'}[e[0]]
        got = 'other'
        if isinstance(u, dict) and list(u) == ['Ok'] and isinstance(u['Ok'], dict):
            if list(u['Ok']) == ['Ok']: got = 'success'
            elif list(u['Ok']) == ['Err']: got = 'task failure'
        elif isinstance(u, dict) and list(u) == ['Err']: got = 'input failure'
        if got != want: raise Violation('result', 'input %d: entry %r, expected a %s (%s)' % (i, u, want, e[1:]))
        if got == 'success' and u['Ok']['Ok'] != e[1]: raise Violation('result', 'input %d: entry %r, expected %r' % (i, u, e[1]))
        if got != 'success':
            x = u['Err'] if got == 'input failure' else u['Ok']['Err']
            if not (isinstance(x, dict) and isinstance(x.get('message'), str) and 'variant' in x): raise Violation('json', 'input %d: malformed error entry %r' % (i, u))
            if e[0] == 'err' and e[1] is not None and e[1] not in json.dumps(x, ensure_ascii=False) and json.dumps(e[1])[1:-1] not in json.dumps(x): raise Violation('diagnostics', 'input %d: error %r does not name %r' % (i, x, e[1]))
    x = exit_of(r, node)
    if exit and x != ('exit', status_of(exp)): raise Violation('status', 'exit %r, expected %d' % (x, status_of(exp)))

# ---- the built-in configuration ----
_corpus = None
def corpus():
    global _corpus
    if _corpus is None:
        import os
        _corpus = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'default.json')))
    return _corpus
def def_url(r):
    """A URL of a kind the built-in configuration cares about."""
    c = corpus()
    x = r.random()
    if x < .12: return r.choice(c['urls']) if isinstance(c['urls'][0], str) else 'https://example.com/'
    h = r.choice(c['hosts'])
    if r.random() < .25: h = r.choice(['www.', 'm.', 'mobile.', 'l.', 'old.', 'a.b.', 'WWW.', 'amp.', 'en.']) + h
    if r.random() < .05: h += '.'
    if r.random() < .04: h = h.upper()
    if r.random() < .03: h = r.choice(['1.2.3.4', '[::1]', 'localhost', 'xn--bcher-kva.example', 'example.co.uk'])
    p = r.choice(c['paths'] + ['/', '/', '/' + token(r), '/%s/%s' % (token(r), token(r)), '/a%20b', '//x', '/status/123', '/watch', '/r/a/comments/b', '/https://' + r.choice(c['hosts']) + '/z'])
    q = []
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        n = r.choice(c['params'] + ['u', 'url', 'q', 'id', 'v', 'to', 'target', 'redirect', 'utm_x', '__s1', 'amp;x'])
        v = r.choice(['1', '', token(r), '%%2F%s' % token(r), 'http%3A%2F%2F' + r.choice(c['hosts']) + '%2F' + token(r), 'https%3A%2F%2Fl.facebook.com%2Fl.php%3Fu%3Dhttps%253A%252F%252Ft.co%252F' + token(r), 'aHR0cHM6Ly9leGFtcGxlLmNvbS8'])
        q.append(n if r.random() < .1 else n + '=' + v)
    u = '%s://%s%s%s' % (r.choice(['http', 'https', 'https']), h, p, '?' + '&'.join(q) if q else '')
    if r.random() < .15: u += '#' + token(r)
    x = r.random()
    if x < .03: u = u.replace('://', '://https//', 1)
    elif x < .05: u = r.choice(['mailto:a@b.test', 'javascript:void(0);', 'data:,x', 'ftp://h.test/x', 'https://user:pw@' + h + '/'])
    return u
DEFVARS = {'breezewiki-host': 'bw.test', 'nitter-host': 'nt.test', 'invidious-host': 'iv.test', 'bluesky-embed-host': 'be.test', 'twitter-embed-host': 'te.test'}
def def_args(r, network=False):
    c = corpus(); a = []
    fl = r.sample(c['flags'], r.choice([0, 0, 1, 2, 5]))
    fl = [f for f in fl if f not in ('no-network', 'bypass.vip')] + ([] if network else ['no-network'])
    for f in fl: a += ['--flag', f]
    for k in r.sample(sorted(DEFVARS), r.choice([0, 0, 1])): a += ['--var', k, DEFVARS[k]]
    return a
def entries_json(r, node=0): return parse_json(bytes(r.outs[node][1]))
def entries_lines(r, node=0):
    out = bytes(r.outs[node][1])
    if out and not out.endswith(b'\n'): raise Violation('output', 'output does not end with a newline: %r' % out[-200:])
    return out.split(b'\n')[:-1]
