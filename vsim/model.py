"""Reference model: what url-cleaner should do with one input, over the subset of the configuration language and of
URLs the generators produce, in a scripted world.  Written from the documentation, not from the implementation's structure."""
import os, re, json, copy, hashlib, random, base64
from urllib.parse import quote_plus, unquote_plus
from vsim.sim import hx

SAFE = re.compile(r'^[A-Za-z0-9._~/=&\-+:@!$,;*]*$')
URLRE = re.compile(r'^(https?)://(?:([a-z0-9]+)(?::([a-z0-9]+))?@)?([a-z0-9.\-]+)(?::(\d+))?(/[A-Za-z0-9._~/=\-+:@!$,;*&%]*)?(?:\?([A-Za-z0-9._~/=\-+:@!$,;*&?%]*))?(?:#([!#-;=?-_a-~]*))?$')

_ca = None
def certs():
    """The PEM texts of three authorities."""
    global _ca
    if _ca is None: _ca = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', 'ca.json')))
    return _ca

def cls(c, e): e.cls = c; return e
class Err(Exception):
    cls = None
    """A step failed. msg: the exact text of an explicit error, else None. tag: why, for humans."""
    def __init__(self, tag, msg=None): Exception.__init__(self, tag); self.tag, self.msg = tag, msg
class Unmodelled(Exception): pass

def nonascii(s):
    m = re.match(r'^(https?://[^/?#]*)(.*)$', s, re.S)
    return m.group(1) + pct(m.group(2), '') if m else s
def pct(s, also): return ''.join(c if 32 <= ord(c) < 127 and c not in also else ''.join('%%%02X' % b for b in c.encode()) for c in s)
def enc_frag(v): return pct(re.sub('[\t\n\r]', '', v), ' "<>`')
class U:
    __slots__ = ('scheme', 'user', 'pw', 'host', 'port', 'path', 'query', 'frag')
    @staticmethod
    def parse(s):
        s = nonascii(s or '')
        m = URLRE.match(s)
        if not m:
            if re.match(r'^(?!https?:)[A-Za-z][A-Za-z0-9+.\-]*:', s): raise Unmodelled('scheme of %r' % s)
            raise Err('not a URL: %r' % (s,))
        u = U()
        u.scheme, u.user, u.pw, u.host, p, u.path, u.query, u.frag = m.groups()
        if re.search(r'(^|\.)[0-9]+$', u.host) and not is_ipv4(u.host):
            if re.match(r'^[0-9a-fx.]+$', u.host): raise Unmodelled('odd address %r' % u.host)
            raise Err('not a URL: the host ends in a number')
        u.port = int(p) if p else None
        if u.port == {'http': 80, 'https': 443}[u.scheme]: u.port = None
        u.path = u.path or '/'
        if '/.' in u.path and re.search(r'/\.{1,2}(/|$)', u.path): raise Unmodelled('dot segments')
        return u
    def __str__(self):
        a = '%s%s@' % (self.user, ':' + self.pw if self.pw else '') if self.user else ''
        return '%s://%s%s%s%s%s%s' % (self.scheme, a, self.host, ':%d' % self.port if self.port else '', self.path,
            '' if self.query is None else '?' + self.query, '' if self.frag is None else '#' + self.frag)
    def copy(self):
        u = U()
        for k in U.__slots__: setattr(u, k, getattr(self, k))
        return u
    def join(self, ref):
        if re.match(r'^https?://', ref): return U.parse(ref)
        if ref.startswith('/') and not ref.startswith('//'):
            m = re.match(r'^(/[^?#]*)(?:\?([^#]*))?(?:#(.*))?$', ref)
            u = self.copy(); u.path, u.query, u.frag = m.groups()
            return u
        if any(c in ref for c in ' \\<>"{}|^`\t\n') or '/.' in ref or ref.startswith('.'): raise Unmodelled('join %r' % ref)
        if ref.startswith('//'): return U.parse(self.scheme + ':' + ref)
        u = self.copy(); u.frag = None
        if ref == '': return u
        if re.match(r'^[A-Za-z][A-Za-z0-9+.-]*:', ref): raise Unmodelled('join %r' % ref)
        m = re.match(r'^([^?#]*)(?:\?([^#]*))?(?:#(.*))?$', ref)
        p, q, f = m.groups()
        if p: u.path = u.path.rsplit('/', 1)[0] + '/' + p; u.query = q
        elif q is not None: u.query = q
        u.frag = f
        return u
    def pairs(self):
        if not self.query: return []
        return [tuple(unquote_plus(x) for x in (p.split('=', 1) + [''])[:2]) for p in self.query.split('&') if p]
    def setpairs(self, ps, keep_empty=False):
        enc = lambda x: quote_plus(x, safe='*').replace('~', '%7E')
        q = '&'.join('%s=%s' % (enc(a), enc(b)) for a, b in ps)
        self.query = q or None
    def eff_port(self): return self.port or {'http': 80, 'https': 443}[self.scheme]

PARTS = {'Whole', 'Scheme', 'Host', 'Path', 'Query', 'Fragment'}
def part_get(u, part):
    if isinstance(part, dict):
        if 'Debug' in part: return part_get(u, part['Debug'])
        (k, v), = part.items()
        if k == 'QueryParam':
            n, i = (v['name'], v['index']) if isinstance(v, dict) else (v, 0)
            vs = [b for a, b in u.pairs() if a == n]
            return vs[i] if i < len(vs) else None
        if k in ('BeforePathSegment', 'AfterPathSegment'): return None
        if k != 'PathSegment': raise Unmodelled(part)
    if isinstance(part, dict) and 'PathSegment' in part: return seg_nth(u.path[1:].split('/'), part['PathSegment'])
    if part in DOMPARTS: return domain_of(u)[part]
    if part == 'Username': return u.user or ''
    if part == 'Password': return u.pw
    if part == 'Port': return str(u.port) if u.port else None
    if part in ('NextPathSegment', 'FqdnPeriod'): return None
    if part == 'Whole': return str(u)
    if part == 'Scheme': return u.scheme
    if part == 'Host': return u.host
    if part == 'Path': return u.path
    if part == 'Query': return u.query
    if part == 'Fragment': return u.frag
    raise Unmodelled(part)
def part_set(u, part, v):
    if isinstance(part, dict) and 'Debug' in part: return part_set(u, part['Debug'], v)
    if part == 'Fragment' and v is not None: v = enc_frag(v)
    elif v is not None and not (isinstance(part, dict) and 'QueryParam' in part) and not SAFE.match(v.replace('?', '').replace('#', '').replace('%', '')): raise Unmodelled('unsafe value %r' % v)
    if isinstance(part, dict):
        (k, n), = part.items()
        if k in ('PathSegment', 'BeforePathSegment', 'AfterPathSegment'):
            segs = u.path[1:].split('/'); i = neg_index(n, len(segs))
            if i is None and v is not None: raise Err('no such segment')
            if i is None: pass
            elif k != 'PathSegment':
                if v is not None: segs.insert(i + (k[0] == 'A'), v)
            elif v is None: del segs[i]
            else: segs[i] = v
            v = '/'.join(segs)
            if not v: raise Err('path cannot be none')
            return part_set(u, 'Path', v)
        if k != 'QueryParam': raise Unmodelled(part)
        n, j = (n['name'], n['index']) if isinstance(n, dict) else (n, 0)
        ps = u.pairs()
        idx = [i for i, (a, b) in enumerate(ps) if a == n]
        if v is None:
            if j < len(idx): del ps[idx[j]]
            u.setpairs(ps); return
        if j < len(idx): ps[idx[j]] = (n, v)
        elif j == len(idx): ps.append((n, v))
        else: raise Err('no such query parameter index')
        u.setpairs(ps); return
    if part == 'Whole':
        if v is None: raise Err('cannot remove the whole URL')
        w = U.parse(v)
        for k in U.__slots__: setattr(u, k, getattr(w, k))
        return
    if part == 'NextPathSegment':
        if v is None: return
        if not re.match('^[a-z0-9]+$', v): raise Unmodelled('segment')
        u.path = (u.path if u.path.endswith('/') else u.path + '/') + v
        return
    if part == 'Path':
        if v is None: raise Err('path cannot be none')
        if '%' in v or '?' in v or '#' in v or re.search(r'/\.{1,2}(/|$)', v): raise Unmodelled('path value')
        u.path = v if v.startswith('/') else '/' + v
        return
    if part == 'Query':
        if v is not None and '#' in v: raise Unmodelled('query value')
        u.query = v; return
    if part == 'Fragment': u.frag = v; return
    if part == 'Host':
        if not v: raise Err('no host')
        if not is_ipv4(v): good_domain(v)
        u.host = v; return
    if part == 'Scheme':
        if v is None: raise Err('scheme cannot be none')
        raise Unmodelled('scheme')
    if part == 'Username':
        if v is None: raise Err('username cannot be none')
        if not re.match('^[a-z0-9]+$', v): raise Unmodelled('username')
        u.user = v; return
    if part == 'Port':
        if v is not None and not re.match('^[0-9]{1,4}$', v):
            if re.match('^[0-9+]', v): raise Unmodelled('port')
            raise Err('invalid port')
        u.port = None if v is None or int(v) == {'http': 80, 'https': 443}[u.scheme] else int(v)
        if u.port == 0: raise Unmodelled('port')
        return
    if part in DOMPARTS:
        d = domain_of(u)
        if v is not None and not re.match(r'^([a-z0-9\-]+(\.[a-z0-9\-]+)*)?$', v): raise Unmodelled('domain value')
        if part == 'Domain':
            if v is None: raise Err('empty host')
            x = v
        elif d['Domain'] is None: raise Err('the host is not a domain')
        else:
            need = {'Subdomain': 'RegDomain', 'DomainMiddle': 'DomainSuffix', 'NotDomainSuffix': 'DomainSuffix'}.get(part)
            if v is not None and need and d[need] is None: raise Err('no ' + need)
            before, after = {'Subdomain': (None, 'RegDomain'), 'NotDomainSuffix': (None, 'DomainSuffix'), 'DomainMiddle': ('Subdomain', 'DomainSuffix'), 'RegDomain': ('Subdomain', None), 'DomainSuffix': ('NotDomainSuffix', None)}[part]
            l = [d[before] if before else None, v, d[after] if after else None]
            x = '.'.join(y for y in l if y is not None)
        if x == '': raise Err('empty domain')
        if is_ipv4(x) or re.search(r'(^|\.)[0-9]+$', x): raise Err('not a domain')
        good_domain(x)
        u.host = x; return
    raise Unmodelled(part)
DOMPARTS = ('Domain', 'Subdomain', 'RegDomain', 'NotDomainSuffix', 'DomainMiddle', 'DomainSuffix')
def is_ipv4(h): return re.match(r'^(25[0-5]|2[0-4][0-9]|1[0-9]{2}|[1-9]?[0-9])(\.(25[0-5]|2[0-4][0-9]|1[0-9]{2}|[1-9]?[0-9])){3}$', h) is not None
def good_domain(h):
    if not re.match(r'^[a-z0-9]([a-z0-9\-]*)(\.[a-z0-9]([a-z0-9\-]*))*$', h) or not re.search(r'(^|\.)[a-z][a-z0-9]*$', h) or '--' in h or 'xn-' in h or re.search(r'(^|\.)0x[0-9a-f]*$', h) or len(h) > 200: raise Unmodelled('domain %r' % h)
SUFFIXES = ('co.uk', 'test', 'com', 'uk')
def domain_of(u):
    """The parts of a domain: co.uk, com and uk are suffixes of the public suffix list; of a name that list does not know, like .test, the last label is the suffix."""
    h = u.host
    if is_ipv4(h): return dict.fromkeys(DOMPARTS)
    good_domain(h)
    l = h.split('.')
    n = 2 if l[-2:] == ['co', 'uk'] else 1
    if '.'.join(l[-n:]) not in SUFFIXES: raise Unmodelled('domain %r' % h)
    j = lambda x: '.'.join(x) or None
    return dict(Domain=h, Subdomain=j(l[:-n - 1]), RegDomain=j(l[-n - 1:]) if len(l) > n else None, NotDomainSuffix=j(l[:-n]), DomainMiddle=l[-n - 1] if len(l) > n else None, DomainSuffix=j(l[-n:]))
def neg_index(i, n): return i + n if -n <= i < 0 else i if 0 <= i < n else None
def seg_nth(l, i):
    i = neg_index(i, len(l)); return None if i is None else l[i]
def bound(i, n): return n if i == n else neg_index(i, n)
def cut(s, a, b):
    """The slice a..b, which may count from the end; None if there is none."""
    if not s.isascii(): raise Unmodelled('byte positions')
    x, y = bound(a, len(s)), len(s) if b is None else bound(b, len(s))
    return None if x is None or y is None or y < x else s[x:y]

def expand(m, x):
    def f(y):
        n = y.group(1)
        if n == '$': return '$'
        n = n.strip('{}')
        try: return m.group(int(n) if n.isdigit() else n) or ''
        except (IndexError, error_): return ''
    return re.sub(r'\$(\$|[A-Za-z0-9_]+|\{[^}]*\})', f, x)
error_ = re.error

# ---- the outside world ----
class World:
    """hosts: {name: {'dns':[..], 'conn':[..], 'tls':'ok'|'fail', 'ip':..}}   urls: {key: [behaviour,...]}  progs: {name: [ops...]}
    With a generator it invents what it is asked for the first time; afterwards the description is complete."""
    def __init__(self, desc, gen=None):
        self.d = desc
        for k in ('hosts', 'urls', 'progs'): desc.setdefault(k, {})
        self.gen = gen
        self.n = {}
    def count(self, k): self.n[k] = self.n.get(k, 0) + 1; return self.n[k] - 1
    def host(self, name):
        h = self.d['hosts'].get(name)
        if h is None and self.gen:
            if is_ipv4(name): raise Unmodelled('request to an address')
            h = self.gen.host(name)
            if h is not None:
                i = len(self.d['hosts']) + 1
                h.setdefault('ip', '10.%d.%d.%d' % (1 + i // 62500, i // 250 % 250, 1 + i % 250))
                self.d['hosts'][name] = h
        return h
    def url(self, key):
        b = self.d['urls'].get(key)
        if b is None and self.gen:
            b = self.gen.url(key, self)
            if b is not None: self.d['urls'][key] = b
        return b
    def add_host(self, name, **kw):
        self.d['hosts'][name] = None
        i = len(self.d['hosts'])
        self.d['hosts'][name] = dict(dns=['ok'], conn=['ok'], tls='ok', ip='10.%d.%d.%d' % (1 + i // 62500, i // 250 % 250, 1 + i % 250)); self.d['hosts'][name].update(kw)
    def lines(self):
        L = []
        for n, h in sorted(self.d['hosts'].items()):
            if not re.match(r'^\d+\.\d+\.\d+\.\d+$', n):
                for i, o in enumerate(h['dns']): L.append('dns %s %d %s %d' % (n, i, h['ip'] if o == 'ok' else 'fail:-2' if o == 'fail' else 'fail:-3', h.get('dnsdelay', 1000)))
            for i, o in enumerate(h['conn']): L.append('conn %s 0 %d %s %d' % (h['ip'], i, o, h.get('conndelay', 1000)))
            if h['tls'] != 'ok': L.append('tls %s %s' % (n, h['tls']))
        for k, bs in sorted(self.d['urls'].items()):
            for i, b in enumerate(bs): L.append('resp %s %d %s' % (hx(k), i, segs(b)))
        for p, runs in sorted(self.d['progs'].items()):
            for i, ops in enumerate(runs): L.append('child %s %d %s' % (hx(p), i, ' '.join(ops)))
        return L

REASON = {200: 'OK', 201: 'Created', 204: 'No Content', 300: 'Multiple Choices', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 304: 'Not Modified', 305: 'Use Proxy', 307: 'Temporary Redirect', 308: 'Permanent Redirect', 400: 'Bad Request', 403: 'Forbidden', 404: 'Not Found', 407: 'Proxy Authentication Required', 418: 'Teapot', 500: 'Oops', 502: 'Bad Gateway', 503: 'Unavailable'}
def body_bytes(b): return b.get('body', '').encode(b.get('enc', 'utf8'), 'surrogateescape')
LABELS = {'iso-8859-1': 'cp1252', 'latin1': 'cp1252', 'windows-1252': 'cp1252', 'us-ascii': 'cp1252', 'utf-16': 'utf-16-le', 'utf-16le': 'utf-16-le', 'utf-16be': 'utf-16-be', 'shift_jis': 'shift_jis', 'koi8-r': 'koi8-r', 'windows-1251': 'cp1251', 'iso-8859-2': 'iso8859-2', 'gbk': 'gb18030', 'euc-jp': 'euc_jp'}
def decoded(body, headers):
    """The text a body stands for: in the encoding its byte order mark or, failing that, its Content-Type names."""
    for bom, e in ((b'\xef\xbb\xbf', 'utf8'), (b'\xff\xfe', 'utf-16-le'), (b'\xfe\xff', 'utf-16-be')):
        if body.startswith(bom): return body[len(bom):].decode(e, 'replace')
    ct = next((v for k, v in headers if k.lower() == 'content-type'), '')
    m = re.match(r'^\s*[a-z]+/[a-z]+\s*(?:;\s*[a-z]+=(?!")[^;]*)*?;\s*charset="?([^;"]*)"?\s*$', ct, re.I)
    return body.decode(LABELS.get(m.group(1).lower(), 'utf8') if m else 'utf8', 'replace')
def wire(b):
    """bytes of a response behaviour, and the length of its head"""
    body = body_bytes(b)
    h = 'HTTP/1.1 %d %s\r\n' % (b['status'], REASON.get(b['status'], 'X'))
    for k, v in b.get('headers', []): h += '%s: %s\r\n' % (k, v)
    fr = b.get('frame', 'cl')
    if b['status'] in (204, 304): fr = 'none'
    if fr == 'cl': h += 'Content-Length: %d\r\n' % len(body)
    if fr == 'chunked': h += 'Transfer-Encoding: chunked\r\n'
    if fr == 'close': h += 'Connection: close\r\n'
    head = (b.get('pre', '') + h + '\r\n').encode('utf8', 'surrogateescape')
    if fr == 'chunked':
        out = b''
        cs = b.get('chunks') or [max(1, len(body))]
        i = j = 0
        while i < len(body):
            c = body[i:i + cs[j % len(cs)]]; out += (b.get('chunkfmt', '%x') if j < 100 else '%x').encode() % len(c)      # (extensions are limited to 16 KiB)
            out += b'\r\n' + c + b'\r\n'; i += len(c); j += 1
        body = out + b'0\r\n' + b.get('trailer', '').encode() + b'\r\n'
    if fr == 'none': body = b''
    return head + body, len(head), fr
def segs(b):
    t = b['t']
    d = b.get('delay', 1000)
    if t == 'reset': return 'r%d' % d
    if t == 'fin': return 'f%d' % d
    if t == 'stall': return 's%d' % d
    if t == 'socks': return 'd%d:%s%s' % (d, b['data'], ' f1000' if b.get('fin') else '')
    if t == 'raw': return 'd%d:%s f1000' % (d, hx(b['data'].encode('latin1')))
    w, _, fr = wire(b)
    end = {'fin': 'f1000', 'reset': 'r1000', 'stall': 's0'}
    tail = ''
    if b.get('cut') is not None: w = w[:b['cut']]; tail = ' ' + end[b['cutkind']]
    elif fr == 'close': tail = ' f1000'
    out, i = [], 0
    for j, n in enumerate(list(b.get('split') or []) + [len(w)]):
        if i >= len(w): break
        out.append('d%d:%s' % (d if j == 0 else b.get('gap', 1000), hx(w[i:i + n]))); i += n
    return ' '.join(out) + tail

BADLOC = ['http://', 'https://', 'http://[', 'http://:80/', 'http://a b/', 'http://a.test:99999/', 'http://q.test/\udcff\udcfe', '\udcc3']
class Response:
    pass
def proxy_parts(url):
    from urllib.parse import unquote
    m = re.match(r'^(https?|socks(?:4a?|5h?))://(?:([^@/:]*)(?::([^@/]*))?@)?([^:/@]+)(?::(\d+))?/?$', url)
    if not m: return None
    s, u, p, h, port = m.groups()
    return dict(scheme=s, host=h, port=int(port) if port else {'http': 80, 'https': 443}.get(s, 1080), auth=None if not p else (unquote(u), unquote(p)))
def defcfg(c):
    c = c or {}
    return dict(default_headers=dict((k.lower(), v) for k, v in (c.get('default_headers') or {}).items()), redirect=c.get('redirect_policy', {'Limited': 10}),
        https_only=c.get('https_only', False), proxies=list(c.get('proxies') or []), no_proxy=c.get('no_proxy', False), referer=c.get('referer', False), certs=set(c.get('extra_certificates') or []))
def diffcfg(c, d):
    c = copy.deepcopy(c)
    if not d: return c
    if d.get('redirect_policy') is not None: c['redirect'] = d['redirect_policy']
    for k, v in (d.get('add_default_headers') or {}).items(): c['default_headers'][k.lower()] = v
    for k in ('https_only', 'no_proxy', 'referer'):
        if d.get(k) is not None: c[k] = d[k]
    if d.get('set_proxies') is not None: c['proxies'] = list(d['set_proxies'])
    c['proxies'] += list(d.get('add_proxies') or [])
    c['certs'] = (c['certs'] | set(d.get('add_extra_certificates') or [])) - set(d.get('remove_extra_certificates') or [])
    return c

def apply_diff(params, d):
    """ParamsDiff as documented."""
    p = copy.deepcopy(params)
    p.setdefault('flags', []); p.setdefault('vars', {}); p.setdefault('sets', {}); p.setdefault('maps', {})
    fl = set(p['flags']) | set(d.get('flags', []))
    p['flags'] = sorted(fl - set(d.get('unflags', [])))
    p['vars'].update(d.get('vars', {}))
    for v in d.get('unvars', []): p['vars'].pop(v, None)
    for s in d.get('init_sets', []): p['sets'].setdefault(s, [])
    for s, vs in d.get('insert_into_sets', {}).items(): p['sets'][s] = sorted(set(p['sets'].get(s, [])) | set(vs))
    for s, vs in d.get('remove_from_sets', {}).items():
        if s in p['sets']: p['sets'][s] = sorted(set(p['sets'][s]) - set(vs))
    for s in d.get('delete_sets', []): p['sets'].pop(s, None)
    for m in d.get('init_maps', []): p['maps'].setdefault(m, {'map': {}})
    for m, md in d.get('map_diffs', {}).items():
        t = p['maps'].setdefault(m, {'map': {}})
        t['map'].update(md.get('insert_into_map', {}))
        for k in md.get('remove_from_map', []): t['map'].pop(k, None)
    for m in d.get('delete_maps', []): p['maps'].pop(m, None)
    for k in ('read_cache', 'write_cache'):
        if d.get(k) is not None: p[k] = d[k]
    if d.get('http_client_config_diff'):
        c = diffcfg(defcfg(p.get('http_client_config')), d['http_client_config_diff'])
        p['http_client_config'] = dict(default_headers=c['default_headers'], redirect_policy=c['redirect'], https_only=c['https_only'], proxies=c['proxies'], no_proxy=c['no_proxy'], referer=c['referer'], extra_certificates=sorted(c['certs']))
    return p

class Model:
    def __init__(self, config, params=None, job_vars=None, world=None, env=None, cache=None, cachefail=False):
        self.cachefail = cachefail
        self.c = config
        self.params = params if params is not None else config.get('params', {})
        self.job, self.world, self.env = job_vars or {}, world or World({}), env or {}
        self.cache = {} if cache is None else cache
        self.commons = config.get('commons', {})
        self.steps, self.touch = 0, []
    # -- one task --
    def task(self, url, ctx=None):
        """-> ('ok', url) | ('err', msg or None, tag), and what it did to the world in self.trace"""
        self.trace = []
        self.elapsed = 0
        self.u, self.flags, self.vars, self.ctx, self.args = U.parse(url), set(), {}, ctx or {}, None
        self.url0 = url
        try:
            for r in self.c['rules']: self.rule(r)
            return ('ok', str(self.u))
        except Err as e: return ('err', e.msg, e.tag)
    def tick(self):
        self.steps += 1
        if self.steps > 200000: raise Unmodelled('too long')
    # -- rules --
    def rules(self, rs):
        for r in rs: self.rule(r)
    def snap(self): return (str(self.u), frozenset(self.flags), tuple(sorted(self.vars.items())))
    def rule(self, r):
        self.tick()
        if 'mapper' in r and 'condition' in r and 'rules' not in r:
            if self.cond(r['condition']): self.m(r['mapper'])
            elif r.get('else_mapper') is not None: self.m(r['else_mapper'])
            return
        (k, v), = r.items()
        if k == 'Rules': self.rules(v)
        elif k == 'Mapper': self.m(v)
        elif k == 'Repeat':
            for _ in range(v.get('limit', 10)):
                b = self.snap(); self.rules(v['rules'])
                if self.snap() == b: break
        elif k == 'SharedCondition':
            if self.cond(v['condition']): self.rules(v['rules'])
        elif k in ('StringMap', 'StringRuleMap', 'StringRulesMap', 'PartMap', 'PartRuleMap', 'PartRulesMap'):
            s = part_get(self.u, v['part']) if k.startswith('Part') else self.s(v['value'])
            x = self.mapget(v, s)
            if x is not None: {'Map': self.m, 'RuleMap': self.rule, 'RulesMap': self.rules}[k.replace('String', '').replace('Part', '')](x)
        elif k == 'Common': self.common('rules', v, self.rule)
        else: raise Unmodelled(k)
    def mapget(self, m, s):
        if s is None: x = m.get('if_null')
        else: x = m['map'].get(s)
        return x if x is not None else m.get('else')
    def common(self, kind, call, f, S=None):
        if isinstance(call, str): call = dict(name=call)
        name = (S or self.s)(call['name'])
        if name is None: raise cls('StringSourceIsNone', Err('string is none'))
        c = self.commons.get(kind, {})
        if name not in c: raise cls('CommonConditionNotFound', Err('common %s %s not found' % (kind, name)))
        a = call.get('args', {})
        args = dict(flags=set(a.get('flags', [])), vars={})
        args['vars'] = self.classed('CommonCallArgsError', lambda: dict(self.anyorder(a.get('vars', {}).items(), self.sreq)))
        old, self.args = self.args, args
        try: return f(c[name])
        finally: self.args = old
    # -- mappers --
    def m(self, m):
        self.tick()
        if isinstance(m, dict) and 'Debug' in m: return self.m(m['Debug'])
        if isinstance(m, str):
            if m == 'None': return
            if m == 'RemoveQuery': self.u.query = None; return
            raise Unmodelled(m)
        (k, v), = m.items()
        if k == 'Error': raise Err('explicit', v)
        elif k == 'If':
            if self.cond(v['condition']): self.m(v['mapper'])
            elif v.get('else_mapper') is not None: self.m(v['else_mapper'])
        elif k == 'ConditionChain':
            for l in v:
                if self.cond(l['condition']): self.m(l['mapper']); break
        elif k == 'All':
            for x in v: self.m(x)
        elif k == 'PartMap':
            x = self.mapget(v, part_get(self.u, v['part']))
            if x is not None: self.m(x)
        elif k == 'StringMap':
            x = self.mapget(v, self.s(v['value']))
            if x is not None: self.m(x)
        elif k == 'IgnoreError':
            try: self.m(v)
            except Err: pass
        elif k == 'TryElse':
            try: self.m(v['try'])
            except Err:
                try: self.m(v['else'])
                except Err: raise Err('both failed')
        elif k == 'FirstNotError':
            e = None
            for x in v:
                try: self.m(x); e = None; break
                except Err as e2: e = e2
            if e: raise e
        elif k == 'RevertOnError':
            old = (self.u.copy(), set(self.flags), dict(self.vars))
            try: self.m(v)
            except Err: self.u, self.flags, self.vars = old; raise
        elif k == 'RemoveQueryParam':
            if self.u.query is not None: n = self.sreq(v); self.u.setpairs([p for p in self.u.pairs() if p[0] != n])
        elif k == 'RemoveQueryParams':
            if self.u.query is not None: self.u.setpairs([p for p in self.u.pairs() if p[0] not in v])
        elif k == 'AllowQueryParams':
            if self.u.query is not None: self.u.setpairs([p for p in self.u.pairs() if p[0] in v])
        elif k == 'GetUrlFromQueryParam':
            n = self.sreq(v)
            vs = [b for a, b in self.u.pairs() if a == n]
            if not vs: raise Err('no such query parameter')
            self.u = U.parse(vs[0])
        elif k == 'SetHost':
            if not v: raise Err('no host')
            part_set(self.u, 'Host', v)
        elif k in ('RemoveQueryParamsMatching', 'AllowQueryParamsMatching'):
            if self.u.query is not None:
                keep = [p for p in self.u.pairs() if self.smat(v, p[0]) == (k[0] == 'A')]
                self.u.setpairs(keep)
        elif k == 'Join': self.u = self.u.join(self.sreq(v))
        elif k == 'SetPart':
            x = self.s(v['value']); u = self.u.copy(); part_set(u, v['part'], x); self.u = u
        elif k == 'ModifyPart':
            x = part_get(self.u, v['part'])
            if x is not None:
                box = [x]; self.sm(v['modification'], box)
                u = self.u.copy(); part_set(u, v['part'], box[0]); self.u = u
        elif k == 'CopyPart':
            u = self.u.copy(); part_set(u, v['to'], part_get(u, v['from'])); self.u = u
        elif k == 'MovePart':
            u = self.u.copy(); part_set(u, v['to'], part_get(u, v['from'])); part_set(u, v['from'], None); self.u = u
        elif k == 'ExpandRedirect': self.expand(v)
        elif k == 'SetScratchpadFlag':
            n = self.sreq(v['name']); (self.flags.add if v['value'] else self.flags.discard)(n)
        elif k == 'SetScratchpadVar':
            x = self.s(v['value']); n = self.sreq(v['name'])
            if x is None: self.vars.pop(n, None)
            else: self.vars[n] = x
        elif k == 'ModifyScratchpadVar':
            n = self.sreq(v['name'])
            if n in self.vars: box = [self.vars[n]]; self.sm(v['modification'], box); self.vars[n] = box[0]
        elif k == 'Rule': self.rule(v)
        elif k == 'Rules': self.rules(v)
        elif k == 'CacheUrl':
            cat = self.sreq(v['category']); key = str(self.u)
            if self.lookup(cat, key):
                self.trace.append(('hit', cat, key))
                self.u = U.parse(self.cache[cat, key]); return
            self.m(v['mapper'])
            self.store(cat, key, str(self.u))
        elif k == 'Retry':
            lim = v.get('limit', 10)
            for i in range(lim):
                try: self.m(v['mapper']); return
                except Err:
                    if i + 1 == lim: raise
                    self.trace.append(('sleep', v['delay'])); self.elapsed += v['delay']
        elif k == 'Common': self.common('mappers', v, self.m)
        else: raise Unmodelled(k)
    def lookup(self, cat, key):
        self.touch.append((cat, key))
        if not self.params.get('read_cache', True): return False
        if self.cachefail: raise Err('cache')
        return (cat, key) in self.cache
    def store(self, cat, key, val):
        self.touch.append((cat, key, val))
        if self.params.get('write_cache', True):
            if self.cachefail: raise Err('cache')
            self.cache[cat, key] = val
            self.trace.append(('store', cat, key, val))
    def expand(self, v):
        key = str(self.u)
        if self.lookup('redirect', key):
            self.trace.append(('hit', 'redirect', key))
            self.u = U.parse(self.cache['redirect', key]); return
        r = self.http('GET', self.u, [(a, b) for a, b in (v.get('headers') or {}).items()], None, v.get('http_client_config_diff'))
        if 300 <= r.status < 400:
            loc = [b for a, b in r.headers if a.lower() == 'location']
            if not loc: raise Err('no location')
            if loc[0] in BADLOC or not re.match(r'^https?://', loc[0]): raise Err('relative location')
            new = U.parse(loc[0])
        else: new = r.url
        self.store('redirect', key, str(new))
        self.u = new.copy()
    # -- conditions --
    def cond(self, c):
        self.tick()
        if isinstance(c, dict) and 'Debug' in c: return self.cond(c['Debug'])
        if isinstance(c, str):
            if c == 'Always': return True
            if c == 'Never': return False
            if c == 'UrlHasHost': return True
            if c in ('HostIsFqdn', 'HostIsIpv6'): return False
            if c in ('HostIsDomain', 'HostIsIp', 'HostIsIpv4'): return (c == 'HostIsDomain') != is_ipv4(self.u.host)
            raise Unmodelled(c)
        (k, v), = c.items()
        if k == 'Error': raise cls('ExplicitError', Err('explicit', v))
        if k == 'If': return self.cond(v['then'] if self.cond(v['if']) else v['else'])
        if k == 'Not': return not self.cond(v)
        if k == 'All':
            for x in v:
                if not self.cond(x): return False
            return True
        if k == 'Any':
            for x in v:
                if self.cond(x): return True
            return False
        S = lambda x: self.classed('StringSourceError', self.s, x)
        def R(x):
            y = S(x)
            if y is None: raise cls('StringSourceIsNone', Err('string is none'))
            return y
        def P(x):
            y = part_get(self.u, x)
            if y is None: raise cls('PartIsNone', Err('part is none'))
            return y
        if k == 'PartMap':
            x = self.mapget(v, part_get(self.u, v['part'])); return self.cond(x) if x is not None else False
        if k == 'StringMap':
            x = self.mapget(v, S(v['value'])); return self.cond(x) if x is not None else False
        if k in ('TreatErrorAsPass', 'TreatErrorAsFail'):
            f = v.get('filter')
            try: return self.cond({a: b for a, b in v.items() if a != 'filter'})
            except Err as e:
                if f is not None and e.cls not in f: raise
                return k == 'TreatErrorAsPass'
        if k == 'TryElse':
            try: return self.cond(v['try'])
            except Err as e:
                if v.get('filter') is not None and e.cls not in v['filter']: raise
                try: return self.cond(v['else'])
                except Err: raise cls('TryElseError', Err('both failed'))
        if k == 'HostIs': return self.u.host == v
        if k in ('SubdomainIs', 'RegDomainIs', 'DomainIs', 'DomainMiddleIs', 'NotDomainSuffixIs', 'DomainSuffixIs'): return domain_of(self.u)[k[:-2]] == v
        if k == 'HostIsOneOf': return self.u.host in v
        if k == 'PathIs': return self.u.path == v
        if k == 'QueryHasParam': return any(a == v for a, b in self.u.pairs())
        if k == 'PartIs': return part_get(self.u, v['part']) == S(v['value'])
        if k == 'PartContains': x = P(v['part']); return self.classed('StringLocationError', self.loc, v.get('where', 'Anywhere'), x, R(v['value']))
        if k == 'PartMatches': return self.classed('StringMatcherError', self.smat, v['matcher'], P(v['part']))
        if k == 'PartIsOneOf': return P(v['part']) in v['values']
        if k == 'FlagIsSet': return self.classed('GetFlagError', self.flag, v)
        if k == 'VarIs': return self.classed('GetVarError', self.var, v['type'] if 'type' in v else 'Params', v['name']) == S(v['value'])
        if k == 'StringIs': return S(v['left']) == S(v['right'])
        if k == 'StringContains':
            a = R(v['value']); return self.classed('StringLocationError', self.loc, v.get('where', 'Anywhere'), a, R(v['substring']))
        if k == 'StringMatches': a = R(v['value']); return self.classed('StringMatcherError', self.smat, v['matcher'], a)
        if k == 'Common': return self.common('conditions', v, self.cond, S)
        raise Unmodelled(k)
    def classed(self, c, f, *a):
        """What f fails with is, to the condition around it, an error of kind c."""
        try: return f(*a)
        except Err as e: e.cls = c; raise
    # -- string locations and characters --
    def either(self, m, f):
        """The constructs all kinds of tests share. f evaluates another test of the same kind. -> (handled, result)"""
        if m in ('Always', 'Never'): return True, m == 'Always'
        if not isinstance(m, dict): return False, None
        (k, v), = m.items()
        if k == 'Error': raise Err('explicit', v)
        if k == 'If': return True, f(v['then'] if f(v['if']) else v['else'])
        if k == 'All':
            for x in v:
                if not f(x): return True, False
            return True, True
        if k == 'Any':
            for x in v:
                if f(x): return True, True
            return True, False
        if k == 'Not': return True, not f(v)
        if k == 'Debug': return True, f(v)
        if k in ('TreatErrorAsPass', 'TreatErrorAsFail'):
            try: return True, f(v)
            except Err: return True, k == 'TreatErrorAsPass'
        if k == 'TryElse':
            try: return True, f(v['try'])
            except Err:
                try: return True, f(v['else'])
                except Err: raise Err('both failed')
        if k == 'FirstNotError':
            e = None
            for x in v:
                try: return True, f(x)
                except Err as e2: e = e2
            if e: raise e
            return True, False
        return False, None
    def loc(self, m, h, n):
        self.tick()
        done, x = self.either(m, lambda y: self.loc(y, h, n))
        if done: return x
        if m == 'Anywhere': return n in h
        if m == 'Start': return h.startswith(n)
        if m == 'End': return h.endswith(n)
        if m == 'Equals': return h == n
        (k, v), = m.items()
        if k in ('StartsAt', 'After', 'EndsAt', 'Before'):
            x = cut(h, v, None) if k in ('StartsAt', 'After') else cut(h, 0, v)
            if x is None: raise Err('no such position')
            return x.startswith(n) if k == 'StartsAt' else x.endswith(n) if k == 'EndsAt' else n in x
        if k == 'Range':
            x = cut(h, v['start'], v['end'])
            if x is None: raise Err('no such range')
            return self.loc(v['location'], x, n)
        if k == 'AnySegment': return any(self.loc(v['location'], x, n) for x in h.split(v['split']))
        if k == 'NthSegment':
            x = seg_nth(h.split(v['split']), v['n'])
            if x is None: raise Err('no such segment')
            return self.loc(v['location'], x, n)
        raise Unmodelled(k)
    def char(self, m, c):
        self.tick()
        if m == 'Error': raise Err('explicit')
        done, x = self.either(m, lambda y: self.char(y, c))
        if done: return x
        if m == 'IsAsciiDigit': return '0' <= c <= '9'
        if m == 'IsAsciiLowercase': return 'a' <= c <= 'z'
        if m == 'IsAscii': return ord(c) < 128
        if isinstance(m, str):
            n = m[2:].replace('Ascii', '')
            if not c.isascii():
                if 'Ascii' in m: return False
                raise Unmodelled('class of %r' % c)
            f = {'Alphabetic': str.isalpha, 'Alphanumeric': str.isalnum, 'Control': lambda x: ord(x) < 32 or ord(x) == 127, 'Graphic': lambda x: 33 <= ord(x) <= 126, 'Hexdigit': lambda x: x in '0123456789abcdefABCDEF', 'Punctuation': lambda x: 33 <= ord(x) <= 126 and not x.isalnum(), 'Uppercase': lambda x: 'A' <= x <= 'Z', 'Lowercase': lambda x: 'a' <= x <= 'z', 'Digit': lambda x: '0' <= x <= '9', 'Numeric': lambda x: '0' <= x <= '9', 'Whitespace': lambda x: x in ' \t\n\r\f' or x == '\v' and 'Ascii' not in m}
            if n not in f: raise Unmodelled(m)
            return f[n](c)
        (k, v), = m.items()
        if k == 'Equals': return c == v
        if k == 'Between': return v['min'] <= c <= v['max']
        if k == 'IsOneOf': return c in v
        if k == 'IsDigitRadix':
            if not 2 <= v <= 36: raise Err('radix')
            return c.isascii() and c.isalnum() and int(c, 36) < v
        raise Unmodelled(k)
    def flag(self, f):
        if not isinstance(f, dict): f = dict(name=f)
        n, t = self.sreq(f['name']), f.get('type', 'Params')
        if t == 'Params': return n in self.params.get('flags', [])
        if t == 'Scratchpad': return n in self.flags
        if t == 'Common':
            if self.args is None: raise Err('not in a common')
            return n in self.args['flags']
        raise Unmodelled(t)
    def var(self, t, n):
        n = self.sreq(n)
        if t == 'Params': return self.params.get('vars', {}).get(n)
        if t == 'JobContext': return self.job.get(n)
        if t == 'TaskContext': return self.ctx.get(n)
        if t == 'Scratchpad': return self.vars.get(n)
        if t == 'Env': return self.env.get(n)
        if t == 'Common':
            if self.args is None: raise Err('not in a common')
            return self.args['vars'].get(n)
        raise Unmodelled(t)
    # -- strings --
    def sreq(self, s):
        x = self.s(s)
        if x is None: raise Err('string is none')
        return x
    def s(self, s):
        self.tick()
        if s is None: return None
        if isinstance(s, str): return s
        (k, v), = s.items()
        if k == 'Debug': return self.s(v)
        if k == 'Error': raise Err('explicit', v)
        if k == 'ErrorToNone':
            try: return self.s(v)
            except Err: return None
        if k == 'ErrorToEmptyString':
            try: return self.s(v)
            except Err: return ''
        if k == 'TryElse':
            try: return self.s(v['try'])
            except Err: return self.s(v['else'])
        if k == 'NoneToEmptyString': x = self.s(v); return '' if x is None else x
        if k == 'NoneTo': x = self.s(v['value']); return self.s(v['if_none']) if x is None else x
        if k == 'Join':
            out = []
            for x in v['sources']:
                y = self.s(x)
                if y is None: return None
                out.append(y)
            return v.get('join', '').join(out)
        if k == 'IfFlag': return self.s(v['then'] if self.flag({'name': v['name'], 'type': v.get('type', 'Params')}) else v['else'])
        if k == 'IfStringMatches': return self.s(v['then'] if self.smat(v['matcher'], self.sreq(v['value'])) else v['else'])
        if k == 'IfStringIsNone': return self.s(v['then'] if self.s(v['value']) is None else v['else'])
        if k == 'Map':
            h = self.s(v['value'])
            if h is not None and h in v['map']: return self.s(v['map'][h])   # a null entry is a None source, not a missing one
            x = self.mapget(v, h)
            if x is None: raise Err('not in map')
            return self.s(x)
        if k == 'Part': return part_get(self.u, v)
        if k == 'ExtractPart':
            x = self.s(v['value'])
            return None if x is None else part_get(U.parse(x), v['part'])
        if k == 'Var': return self.var(v.get('type', 'Params') if isinstance(v, dict) else 'Params', v['name'] if isinstance(v, dict) else v)
        if k == 'ParamsMap':
            n = self.sreq(v['name']); ms = self.params.get('maps', {})
            if n not in ms: raise Err('no such map')
            return self.mapget(ms[n], self.s(v['key']))
        if k == 'Modified':
            x = self.s(v['value'])
            if x is None: return None
            box = [x]; self.sm(v['modification'], box); return box[0]
        if k == 'ExtractBetween':
            x = self.sreq(v['value']); return self.between(x, self.sreq(v['start']), lambda: self.sreq(v['end']))
        if k == 'RegexFind':
            x = self.s(v['value']); m = None if x is None else self.regex(v['regex']).search(x)
            return m.group(0) if m else None
        if k == 'ParamsNamedPartitioning':
            n = self.sreq(v['name']); ps = self.params.get('named_partitionings', {})
            if n not in ps: raise Err('no such partitioning')
            e = self.sreq(v['element'])
            for a, l in ps[n].items():
                if e in l: return a
            return None
        if k == 'HttpRequest': return self.http_string(v)
        if k == 'CommandOutput': return self.command(v)
        if k == 'Cache':
            cat, key = self.sreq(v['category']), self.sreq(v['key'])
            if self.lookup(cat, key):
                self.trace.append(('hit', cat, key)); return self.cache[cat, key]
            x = self.s(v['value']); self.store(cat, key, x); return x
        if k == 'Common': return self.common('string_sources', v, self.s)
        raise Unmodelled(k)
    def sm(self, m, box):
        self.tick()
        if isinstance(m, dict) and 'Debug' in m: return self.sm(m['Debug'], box)
        if isinstance(m, str):
            if m == 'None': return
            if m == 'Lowercase': box[0] = box[0].lower()
            elif m == 'Uppercase': box[0] = box[0].upper()
            elif m in ('UrlEncode', 'UrlDecode', 'Base64Encode', 'Base64Decode'): return self.sm({m: {}}, box)
            else: raise Unmodelled(m)
            if not box[0].isascii(): raise Unmodelled('case of %r' % box[0])
            return
        (k, v), = m.items()
        if k == 'Error': raise Err('explicit', v)
        elif k == 'IgnoreError':
            try: self.sm(v, box)
            except Err: pass
        elif k == 'RevertOnError':
            old = box[0]
            try: self.sm(v, box)
            except Err: box[0] = old; raise
        elif k == 'TryElse':
            try: self.sm(v['try'], box)
            except Err:
                try: self.sm(v['else'], box)
                except Err: raise Err('both failed')
        elif k == 'All':
            for x in v: self.sm(x, box)
        elif k == 'FirstNotError':
            e = None
            for x in v:
                try: self.sm(x, box); e = None; break
                except Err as e2: e = e2
            if e: raise e
        elif k == 'If':
            if self.cond(v['condition']): self.sm(v['then'], box)
            elif v.get('else') is not None: self.sm(v['else'], box)
        elif k == 'Set': box[0] = self.sreq(v)
        elif k == 'Append': box[0] += self.sreq(v)
        elif k == 'Prepend': box[0] = self.sreq(v) + box[0]
        elif k == 'IfMatches':
            if self.smat(v['matcher'], box[0]): self.sm(v['then'], box)
            elif v.get('else') is not None: self.sm(v['else'], box)
        elif k == 'StringMap':
            x = self.mapget(v, self.s(v['value']))
            if x is not None: self.sm(x, box)
        elif k == 'Common': self.common('string_modifications', v, lambda c: self.sm(c, box))
        elif k == 'Replace': a = self.sreq(v['find']); box[0] = box[0].replace(a, self.sreq(v['replace']))
        elif k == 'Replacen': a = self.sreq(v['find']); box[0] = box[0].replace(a, self.sreq(v['replace']), v['count'])
        elif k in ('StripPrefix', 'StripMaybePrefix', 'StripSuffix', 'StripMaybeSuffix'):
            a = self.sreq(v); pre = 'Prefix' in k
            if box[0].startswith(a) if pre else box[0].endswith(a): box[0] = box[0][len(a):] if pre else box[0][:len(box[0]) - len(a)]
            elif 'Maybe' not in k: raise Err('affix not found')
        elif k in ('ReplaceRange', 'Insert'):
            b = box[0].encode()
            on = lambda i: i == len(b) or b[i] & 0xc0 != 0x80
            if k == 'Insert':
                i = neg_index(v['index'], len(b)); j = i
                if i is None or not on(i): raise Err('no such position')
            else:
                i, j = bound(v['start'], len(b)), len(b) if v.get('end') is None else bound(v['end'], len(b))
                if i is None or j is None or j < i or not on(i) or not on(j): raise Err('no such range')
            x = self.sreq(v['value' if k == 'Insert' else 'replace'])
            box[0] = (b[:i] + x.encode() + b[j:]).decode()
        elif k == 'KeepSegmentRange':
            sp = self.sreq(v['split'])
            if not sp: raise Unmodelled('empty split')
            l = box[0].split(sp); i, j = bound(v['start'], len(l)), len(l) if v.get('end') is None else bound(v['end'], len(l))
            if i is None or j is None or j < i: raise Err('no such segments')
            box[0] = sp.join(l[i:j])
        elif k in ('RegexCaptures', 'JoinAllRegexCaptures'):
            x = self.sreq(v['replace']); jn = self.sreq(v['join']) if 'join' in v else None; rx = self.regex(v['regex'])
            l = [expand(y, x) for y in rx.finditer(box[0])]
            if jn is not None: box[0] = jn.join(l)
            elif not l: raise Err('no match')
            else: box[0] = l[0]
        elif k in ('RegexReplace', 'RegexReplaceAll', 'RegexReplacen'):
            rx = self.regex(v['regex']); x = self.sreq(v['replace'])
            box[0] = rx.sub(lambda y: expand(y, x), box[0], {'RegexReplace': 1, 'RegexReplaceAll': 0}.get(k, v.get('n', 0)))
        elif k == 'UrlEncode':
            from urllib.parse import quote
            box[0] = quote(box[0], safe={'JsEncodeUri': "-_.!~*'();/?:@&=+$,#", 'NonAlphanumeric': ''}.get(v if isinstance(v, str) else '', "-_.!~*'()"))
            if v == 'NonAlphanumeric': box[0] = re.sub('[-_.~]', lambda y: '%%%02X' % ord(y.group(0)), box[0])
        elif k == 'UrlDecode':
            from urllib.parse import unquote_to_bytes
            try: box[0] = unquote_to_bytes(box[0]).decode('utf8')
            except UnicodeDecodeError: raise Err('not UTF-8')
        elif k == 'Base64Encode':
            x = base64.b64encode(box[0].encode(), b'+/' if v.get('alphabet') == 'Standard' else b'-_').decode()
            box[0] = x if v.get('encode_padding', True) else x.rstrip('=')
        elif k == 'Base64Decode':
            al = '+/' if v.get('alphabet') == 'Standard' else '-_'; x = box[0].rstrip('='); n = len(box[0]) - len(x); full = -len(x) % 4
            if not re.match('^[A-Za-z0-9%s]*$' % re.escape(al), x) or len(x) % 4 == 1 or n > full or n != full and v.get('decode_padding') == 'RequireCanonical' or n and v.get('decode_padding') == 'RequireNone': raise Err('not base64')
            y = base64.b64decode(x + '=' * full, al.encode())
            if base64.b64encode(y, al.encode()).decode().rstrip('=') != x: raise Err('not base64')
            try: box[0] = y.decode('utf8')
            except UnicodeDecodeError: raise Err('not UTF-8')
        elif k == 'KeepRange':
            x = cut(box[0], v['start'], v['end'])
            if x is None: raise Err('no such range')
            box[0] = x
        elif k == 'RemoveChar':
            if not box[0].isascii(): raise Unmodelled('byte positions')
            i = neg_index(v, len(box[0]))
            if i is None: raise Err('no such position')
            box[0] = box[0][:i] + box[0][i + 1:]
        elif k == 'KeepNthSegment':
            x = seg_nth(box[0].split(self.sreq(v['split'])), v['index'])
            if x is None: raise Err('no such segment')
            box[0] = x
        elif k == 'SetSegment':
            sp = self.sreq(v['split']); l = box[0].split(sp); i = neg_index(v['index'], len(l))
            if i is None: raise Err('no such segment')
            x = self.s(v['value'])
            if x is None: del l[i]
            else: l[i] = x
            box[0] = sp.join(l)
        elif k == 'InsertSegment':
            sp = self.sreq(v['split']); l = box[0].split(sp); i = bound(v['index'], len(l))
            if i is None: raise Err('no such segment')
            x = self.s(v['value'])
            if x is not None: l.insert(i, x)
            box[0] = sp.join(l)
        elif k == 'ExtractBetween': box[0] = self.between(box[0], self.sreq(v['start']), lambda: self.sreq(v['end']))
        elif k == 'RegexFind':
            x = self.regex(v).search(box[0])
            if not x: raise Err('no match')
            box[0] = x.group(0)
        elif k in ('RemoveQueryParamsMatching', 'AllowQueryParamsMatching'):
            box[0] = '&'.join([x for x in box[0].split('&') if self.smat(v, x.split('=')[0]) == (k[0] == 'A')])
        elif k == 'JsonPointer':
            p = self.sreq(v)
            try: x = json.loads(box[0])
            except ValueError: raise Err('not JSON')
            for n in p.split('/')[1:]:
                if isinstance(x, dict) and n in x: x = x[n]
                else: raise Err('no such value')
            if not isinstance(x, str): raise Err('not a string')
            box[0] = x
        else: raise Unmodelled(k)
    def regex(self, v):
        if isinstance(v, str): v = dict(pattern=v)
        fl = (re.I if v.get('case_insensitive') else 0) | (re.M if v.get('multi_line') else 0) | (re.S if v.get('dot_matches_new_line') else 0)
        p = v['pattern']
        if v.get('swap_greed'): p = re.sub(r'([*+])(\??)', lambda y: y.group(1) + ('' if y.group(2) else '?'), p)
        try: return re.compile(p.replace('$', r'\Z') if not v.get('multi_line') else p, fl | re.A)
        except re.error: raise Err('no regex')
    def between(self, x, a, b):
        if a not in x: raise Err('start not found')
        x = x.split(a, 1)[1] if a else x; b = b()
        if b not in x: raise Err('end not found')
        return x.split(b, 1)[0] if b else ''
    def smat(self, m, h):
        self.tick()
        done, x = self.either(m, lambda y: self.smat(y, h))
        if done: return x
        if m == 'IsAscii': return h.isascii()
        if not isinstance(m, dict): raise Unmodelled(m)
        (k, v), = m.items()
        if k == 'Is': return h == self.sreq(v)
        if k == 'Contains': return self.loc(v.get('where', 'Anywhere'), h, self.sreq(v['value']))
        if k == 'ContainsAny':
            for x in v['values']:
                if self.loc(v['where'], h, self.sreq(x)): return True
            return False
        if k == 'ContainsAnyInList':
            n = self.sreq(v['list']); l = self.params.get('lists', {})
            if n not in l: raise Err('no such list')
            for x in l[n]:
                if self.loc(v['where'], h, x): return True
            return False
        if k == 'IsOneOf': return h in v
        if k == 'InSet': return h in self.params.get('sets', {}).get(self.sreq(v), [])
        if k == 'Regex': return self.regex(v).search(h) is not None
        if k == 'Glob':
            p, o = (v, {}) if isinstance(v, str) else (v['pattern'], v)
            if h.startswith('.') or '/.' in h or not h.isascii(): raise Unmodelled('glob')
            x = ''.join(('[^/]' if o.get('require_literal_separator') else '.') + ('*' if c == '*' else '') if c in '*?' else re.escape(c) for c in p)
            y = [re.fullmatch(x, h, re.S | f) is not None for f in (0, re.I)]
            if o is not v and y[0] != y[1]: raise Unmodelled('glob default')     # the documentation and MatchOptions::default() disagree
            return y[0 if o.get('case_sensitive', True) else 1]
        if k in ('SegmentsStartWith', 'SegmentsEndWith'):
            sp = self.sreq(v['split']); a = self.sreq(v['value'])
            if not sp: raise Unmodelled('empty split')
            if k == 'SegmentsStartWith': return h.startswith(a) and h[len(a):].startswith(sp)
            return h.endswith(a) and (h[:len(h) - len(a)] == '' or h[:len(h) - len(a)].endswith(sp))
        if k == 'Modified':
            box = [h]; self.sm(v['modification'], box); return self.smat(v['matcher'], box[0])
        if k == 'OnlyTheseChars': return all(c in v for c in h)
        if k == 'AllCharsMatch':
            for c in h:
                if not self.char(v, c): return False
            return True
        if k == 'AnyCharMatches':
            for c in h:
                if self.char(v, c): return True
            return False
        if k == 'NthSegmentMatches':
            x = seg_nth(h.split(self.sreq(v['split'])), v['n'])
            if x is None: raise Err('no such segment')
            return self.smat(v['matcher'], x)
        if k == 'AnySegmentMatches':
            for x in h.split(self.sreq(v['split'])):
                if self.smat(v['matcher'], x): return True
            return False
        if k == 'LengthIs': return len(h.encode()) == v
        if k == 'Common': return self.common('string_matchers', v, lambda c: self.smat(c, h))
        raise Unmodelled(k)
    def anyorder(self, items, f):
        """The values of a map, which may be evaluated in any order; an error must be the same in every order."""
        out, errs, n = [], [], len(self.trace)
        for k, x in items:
            try: out.append((k, f(x)))
            except Err as e: errs.append(e)
        if errs:
            if len(errs) > 1 or len(self.trace) > n and out: raise Unmodelled('order')
            raise errs[0]
        return out
    # -- network --
    def http_string(self, v):
        if not isinstance(v, dict): raise Unmodelled(v)
        cfgd = v.get('client_config_diff')
        self.client(cfgd)
        u = U.parse(self.sreq(v['url']) if 'url' in v else str(self.u))
        hs = [(n, y) for n, y in self.anyorder((v.get('headers') or {}).items(), self.s) if y is not None]
        body = None
        if v.get('body') is not None:
            (bk, bv), = v['body'].items()
            if bk == 'Text': body = ('Text', self.sreq(bv))
            elif bk == 'Form':
                body = ('Form', {n: y for n, y in self.anyorder(bv.items(), self.s) if y is not None})
            elif bk == 'Json': body = ('Json', self.jsonv(bv))
        r = self.http(v.get('method', 'GET'), u, hs, body, cfgd)
        h = v.get('response_handler', 'Body')
        if h == 'Body': return r.text()
        if h == 'Url': return str(r.url)
        (hk, hv), = h.items()
        n = self.sreq(hv)
        if hk == 'Header':
            for a, b in r.headers:
                if a.lower() == n.lower():
                    b = b.strip(' \t')
                    if any(not (32 <= ord(c) < 127 or c == '\t') for c in b): raise Err('header is not text')
                    return b
            raise Err('no header')
        if hk == 'Cookie':
            for a, b in r.headers:
                b = b.split(';')[0]
                if a.lower() == 'set-cookie' and '=' in b and '\udc80' > max(b) and b.split('=', 1)[0].strip() == n != '': return b.split('=', 1)[1].strip()
            raise Err('no cookie')
        raise Unmodelled(h)
    def jsonv(self, v):
        if isinstance(v, str): return v
        if isinstance(v, (int, float)): return v
        (k, x), = v.items()
        if k == 'String': return self.sreq(x)
        if k in ('Bool', 'Number'): return x
        if k == 'Array': return [self.jsonv(y) for y in x]
        if k == 'Object': return dict(self.anyorder(x.items(), self.jsonv))
        raise Unmodelled(k)
    def client(self, diff):
        cfg = diffcfg(defcfg(self.params.get('http_client_config')), diff)
        socks = [x for x in [proxy_parts(p if isinstance(p, str) else p['url']) for p in cfg['proxies']] if x and x['scheme'][:5] == 'socks']
        for x in socks: self.trace.append(('maydns', x['host']))          # the library looks all of them up while the client is made
        for p in cfg['proxies']:
            p = dict(url=p) if isinstance(p, str) else p
            pr = proxy_parts(p['url'])
            if not pr: raise Err('unusable proxy')
            if pr['scheme'][:6] == 'socks4' and (p.get('auth') or pr['auth']) or pr['scheme'][:5] == 'socks' and 'Custom' in (p.get('auth') or {}): raise Err('the proxy knows no such authentication')
            if pr in socks: self.address(pr['host'], 'maydns')
        if any(not re.match(r'^-----BEGIN CERTIFICATE-----[^-]*-----END CERTIFICATE-----\s*$', x) for x in cfg['certs']): raise Err('unusable certificate')
        return cfg
    def http(self, method, u, headers, body, diff):
        cfg = self.client(diff)
        self.trace.append(('request', method, str(u)))
        limit = None if cfg['redirect'] == 'None' else cfg['redirect']['Limited']
        cur, prev, hops = u.copy(), None, 0
        hs = dict((k, v) for k, v in cfg['default_headers'].items())
        for k, v in headers: hs[k.lower()] = v
        for v in hs.values():
            if any(ord(c) < 32 and c != '\t' or ord(c) == 127 for c in v): raise Err('invalid header value')
        if cur.user and 'authorization' not in hs:
            hs['authorization'] = 'Basic ' + base64.b64encode(('%s:%s' % (cur.user, cur.pw or '')).encode()).decode()
        cur.user = cur.pw = None
        while True:
            if cfg['https_only'] and cur.scheme != 'https': raise Err('https only')
            if len(str(cur)) > 65534: raise Err('longer than an http::Uri may be')
            r = self.exchange(method, cur, hs, body, cfg, first=prev is None)
            prev = cur
            r.url = cur.copy()
            if limit is None or r.status not in (301, 302, 303, 307, 308): return r
            loc = [b for a, b in r.headers if a.lower() == 'location']
            if not loc: return r
            if loc[0] in BADLOC: return r
            try: nxt = cur.join(loc[0])
            except Err: raise Unmodelled('location %r' % loc[0])
            hops += 1
            if hops >= max(limit, 1): raise Err('too many redirects')
            if r.status in (301, 302, 303):
                if method != 'HEAD': method = 'GET'
                body = None
                for k in ('content-type', 'content-length'): hs.pop(k, None)
            if (nxt.host, nxt.eff_port()) != (cur.host, cur.eff_port()):
                for k in ('authorization', 'cookie', 'cookie2', 'proxy-authorization', 'www-authenticate'): hs.pop(k, None)
            if cfg['referer'] and not (nxt.scheme == 'http' and cur.scheme == 'https'):
                p = cur.copy(); p.user = p.pw = p.frag = None
                hs['referer'] = str(p)
            cur = nxt
    def proxy_for(self, cfg, u):
        scheme = u.scheme
        if cfg['no_proxy']: return None
        ps = cfg['proxies']
        if not ps:
            e = {k.lower(): v for k, v in self.env.items()}
            if any(d == '*' or u.host == d.lstrip('.') or u.host.endswith('.' + d.lstrip('.')) for d in e.get('no_proxy', '').split(',') if d): return None      # applies to proxies of the environment only
            v = e.get(scheme + '_proxy') or e.get('all_proxy')
            return dict(url=v) if v else None
        for p in ps:
            if isinstance(p, str): p = dict(url=p)
            if p.get('mode', 'All') in ('All', scheme.capitalize()): return p
        return None
    def address(self, host, what='dns'):
        w = self.world; h = w.host(host)
        if not re.match(r'^\d+\.\d+\.\d+\.\d+$', host):
            self.trace.append((what, host))
            if h is None: raise Err('unknown host %s' % host)
            o = h['dns'][min(w.count(('dns', host)), len(h['dns']) - 1)]
            if o != 'ok': raise Err('dns %s' % o)
        if h is None: raise Err('no such address')
        return h
    def exchange(self, method, u, hs, body, cfg, first):
        w = self.world
        pr = self.proxy_for(cfg, u)
        pp = pr and proxy_parts(pr['url'])
        sk = int(pp['scheme'][5]) if pp and pp['scheme'][:5] == 'socks' else 0
        if sk:
            h = w.d['hosts'][pp['host']]; port = pp['port']
            to = self.address(u.host)['ip'] if pp['scheme'] in ('socks4', 'socks5') else u.host
        elif pp: h = self.address(pp['host']); port = pp['port']
        else: h = self.address(u.host); port = u.eff_port()
        o = h['conn'][min(w.count(('conn', h['ip'], port)), len(h['conn']) - 1)]
        self.trace.append(('conn', h['ip'], port))
        if o != 'ok': raise Err('connection %s' % o)
        cred = pp and pp['auth']; auth = None
        if pr and 'Basic' in (pr.get('auth') or {}): cred = (pr['auth']['Basic']['username'], pr['auth']['Basic']['password'])
        if cred: auth = 'Basic ' + base64.b64encode(('%s:%s' % cred).encode()).decode()
        if pr and 'Custom' in (pr.get('auth') or {}): auth = pr['auth']['Custom']
        tls = u.scheme == 'https'
        def said(key, n):
            bs = w.url(key)
            b = bs[min(w.count(key), len(bs) - 1)] if bs else None
            if b and (b['t'] != 'socks' or len(b['data']) < 2 * n): raise Err('no SOCKS answer')
            return b and bytes.fromhex(b['data'])
        if sk:
            at = '%s:%d' % (h['ip'], port); to = '%s:%d' % (to, u.eff_port())
            if sk == 5:
                a = said('sockshello://' + at, 2)
                if a and (a[0] != 5 or a[1] not in (0, 2)): raise Err('no common authentication')
                if a and a[1] == 2 and not cred: raise Err('the proxy wants authentication')
                if a and a[1] == 0: cred = None
                if cred:
                    self.trace.append(('socks', 'password'))
                    a = said('socksauth://' + at, 2)
                    if a and a != b'\1\0': raise Err('authentication refused')
            self.trace.append(('req', h['ip'], port, 'plain', 'SOCKS%d' % sk, to, {'proxy-authorization': '%s:%s' % cred} if cred else {}, None, to))
            a = said('socks%d://%s' % (sk, to), 8)
            if a and (a[:2] != (b'\0\x5a' if sk == 4 else b'\5\0') or sk == 5 and len(a) < (10 if a[3] == 1 else 22 if a[3] == 4 else 7 + a[4])): raise Err('proxy refused')
        if pr and tls and not sk:
            key = 'connect://%s:%d' % (u.host, u.eff_port())
            self.trace.append(('req', h['ip'], port, 'plain', 'CONNECT', '%s:%d' % (u.host, u.eff_port()), dict({'proxy-authorization': auth} if auth else {}), None, '%s:%d' % (u.host, u.eff_port())))
            bs = w.url(key)
            if bs:
                b = bs[min(w.count(key), len(bs) - 1)]
                if b['t'] != 'resp' or b.get('cut') is not None or b['status'] != 200: raise Err('proxy refused')
        if tls:
            th = w.host(u.host) if not pr else w.d['hosts'].get(u.host)
            if th and th['tls'] != 'ok' and not (th['tls'][:2] == 'ca' and certs()[int(th['tls'][2])] in cfg['certs']): raise Err('tls')
        req = dict(hs)
        tgt = u.path + ('' if u.query is None else '?' + u.query)
        hosth = u.host + (':%d' % u.port if u.port else '')
        key = '%s://%s%s' % (u.scheme, hosth, tgt)
        if pr and not tls and not sk:
            if auth: req['proxy-authorization'] = auth if first else ('maybe', auth)   # the library leaves it out of redirected requests to other hosts
            line = key
        else: line = tgt
        self.trace.append(('req', h['ip'], port, 'tls' if tls else 'plain', method, line, req, body, hosth))
        bs = w.url(key)
        if bs is None: b = dict(t='resp', status=404, headers=[], body='')
        else: b = bs[min(w.count(key), len(bs) - 1)]
        t = b['t']
        if t != 'resp': raise Err('bad answer: %s' % t)
        full, head, fr = wire(b)
        r = Response(); r.status = b['status']; r.headers = b.get('headers', [])
        cut = b.get('cut')
        if cut is not None and cut < head: raise Err('answer cut in its head')
        def text():
            if method == 'HEAD' or b['status'] in (204, 304): return ''
            if cut is not None and cut < len(full):
                if fr == 'close' and b['cutkind'] == 'fin': return decoded(full[head:cut], r.headers)
                raise Err('answer cut in its body')
            if cut is not None and fr == 'close' and b['cutkind'] != 'fin': raise Err('answer not ended')
            return decoded(body_bytes(b), r.headers)
        r.text = text
        return r
    # -- commands --
    def command(self, v):
        if isinstance(v, str): v = dict(program=v)
        args = [self.sreq(a) for a in v.get('args', [])]
        envs = {n: y for n, y in self.anyorder((v.get('envs') or {}).items(), self.s) if y is not None}
        runs = self.world.d['progs'].get(v['program'])
        if runs is None: raise Err('no such program')
        stdin = self.sreq(v['stdin']) if v.get('stdin') is not None else ''
        ops = runs[min(self.world.count(('prog', v['program'])), len(runs) - 1)]
        self.trace.append(('spawn', v['program'], args, envs, stdin))
        if ops and ops[0].startswith('spawnfail'): raise Err('spawn failed')
        return self.run_child(ops, args, envs, stdin).decode('utf8', 'strict')
    def run_child(self, ops, args, envs, stdin):
        out, rest = b'', stdin.encode()
        for o in ops:
            if o[0] == 'r':
                n = len(rest) if o[1] == '*' else int(o[1:]); rest = rest[n:]
            elif o[0] == 'w':
                if o[1] == '1': out += bytes.fromhex(o[3:]) if o[3:] != '-' else b''
            elif o[0] == 'W':
                _, n, b = o.split(':')
                if o[1] == '1': out += bytes([int(b)]) * int(n)
            elif o[0] == 'e': out += rest; rest = b''
            elif o[0] == 'a': out += '\n'.join(args).encode()
            elif o[0] == 'v':
                if o[2:] in envs: out += envs[o[2:]].encode()
                elif o[2:] in self.env: out += self.env[o[2:]].encode()
            elif o[0] in 'xk': break
        try: out.decode('utf8')
        except UnicodeDecodeError: raise Err('output is not text')
        return out
