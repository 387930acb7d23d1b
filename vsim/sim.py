"""Runs one simulated execution of the url-cleaner binary and parses what happened."""
import os, subprocess, json, hashlib, errno as _errno

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

def hx(b):
    if isinstance(b, str): b = b.encode()
    return b.hex() if b else '-'

class Node:
    """One process: command line, environment, stdin and the world it sees."""
    def __init__(self, args, cwd, env=None):
        self.args, self.cwd, self.env = list(args), cwd, env or {}
        self.lines = []          # plan lines private to the node
    def stdin(self, chunks):
        """chunks: list of (t_us, bytes) | (t_us, 'err'|'errforever', errno)"""
        for c in chunks:
            if len(c) == 2: self.lines.append('stdin %d data %s' % (c[0], hx(c[1])))
            else: self.lines.append('stdin %d %s %d' % (c[0], c[1], c[2]))
        return self

class Result:
    pass

class Sim:
    def __init__(self, paths, cpu=0, wall=20):
        self.paths, self.cpu, self.wall = paths, cpu, wall
    def run(self, nodes, cfg, binary=None):
        """cfg: dict(seed, policy=('rand',ppm)|('pct',), pct=[...], faults={kind:(ppm[,lim[,lo,hi]])}, decisions=[(k,o,v)] or None,
        hashseed, cpus, maxsteps, lines=[...], fsroot)"""
        L = ['seed %d' % cfg.get('seed', 1)]
        if cfg.get('decisions') is not None:
            L.append('replay')
            L += ['d %s %d %d' % tuple(d) for d in cfg['decisions']]
        pol = cfg.get('policy') or ['rand', 50000]
        L.append('policy %s %d' % (pol[0], pol[1] if len(pol) > 1 else 0))
        if cfg.get('pct'): L.append('pct ' + ' '.join(map(str, cfg['pct'])))
        for k, v in sorted((cfg.get('faults') or {}).items()):
            L.append('fault %s %s' % (k, ' '.join(str(int(x)) for x in (v if isinstance(v, (list, tuple)) else [v]))))
        for k in ('maxsteps', 'hashseed', 'cpus', 'mpoint', 'fsroot', 'stallmax', 'trace'):
            if cfg.get(k) is not None: L.append('%s %s' % (k, cfg[k]))
        L += cfg.get('lines') or []
        for n in nodes:
            L.append('exec %s %s' % (hx(n.cwd), ' '.join(hx(a) for a in [binary or self.paths['bin']] + n.args)))
        for k, v in sorted((nodes[0].env or {}).items()): L.append('env %s' % hx('%s=%s' % (k, v)))
        for i, n in enumerate(nodes):
            L.append('node %d' % i)
            L += n.lines
        plan = ('\n'.join(L) + '\n').encode()
        p = subprocess.run([self.paths['simrun'], self.paths['lib'], str(self.cpu), str(self.wall)], input=plan, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if p.returncode != 0: raise RuntimeError('simrun failed %d %r' % (p.returncode, p.stderr))
        r = self.parse(p.stdout, len(nodes))
        bad = [x for x in r.status.values() if x in (95 << 8, 96 << 8)]
        if bad and not r.log_raw: raise RuntimeError('the program could not be started (%r)' % r.status)
        return r
    def parse(self, out, nn):
        r = Result()
        r.status, r.kinds = {}, {}
        pos = 0
        while True:
            e = out.index(b'\n', pos)
            t = out[pos:e].decode().split(' ')
            pos = e + 1
            if t[0] == 'status': r.status[int(t[1])] = int(t[2])
            elif t[0] == 'stat':
                for kv in t[1:]:
                    k, v = kv.split('=')
                    setattr(r, k, int(v, 16) if k in ('hash', 'sched') else int(v))
            elif t[0] == 'kind': r.kinds[t[1]] = (int(t[2]), int(t[3]))
            elif t[0] == 'len':
                dl, ll = int(t[1]), int(t[2]); break
        r.dec_raw, r.log_raw = out[pos:pos + dl], out[pos + dl:pos + dl + ll]
        r.outs = [{1: bytearray(), 2: bytearray()} for _ in range(nn)]
        r.out_events = []        # (t_ns, node, fd, bytes)
        r.events = []            # (step, t_ns, node, thread, [tokens])
        r.end = None
        for ln in r.log_raw.decode('latin1').split('\n'):
            if not ln: continue
            t = ln.split(' ')
            ev = (int(t[0]), int(t[1]), int(t[2]), int(t[3]), t[4:])
            if t[4] == 'out':
                b = bytes.fromhex(t[6]) if t[6] != '-' else b''
                r.outs[ev[2]][int(t[5])] += b
                r.out_events.append((ev[1], ev[2], int(t[5]), b))
            if t[4] == 'end': r.end = ' '.join(t[5:])
            r.events.append(ev)
        return r

def decisions(r):
    ds = []
    for ln in r.dec_raw.decode().split('\n'):
        if ln:
            _, k, o, v = ln.split(' ')
            ds.append((k, int(o), int(v)))
    return ds

def exit_of(r, node=0):
    """('exit', code) | ('signal', n) | ('deadlock',) | ('stepcap',) | ('hang',)"""
    if r.hang: return ('hang',)
    if r.end: return (r.end,)
    st = r.status[node]
    if st < 0: return ('none',)
    if os.WIFEXITED(st): return ('exit', os.WEXITSTATUS(st))
    return ('signal', os.WTERMSIG(st))

def evs(r, *prefix, node=None):
    n = len(prefix)
    return [e for e in r.events if tuple(e[4][:n]) == prefix and (node is None or e[2] == node)]
