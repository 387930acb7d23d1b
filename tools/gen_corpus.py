"""Writes corpus/default.json: hosts, parameters and URLs the built-in configuration treats specially (from /repo when it was run)."""
import json, re
d = json.load(open('/repo/default-config.json'))
txt = json.dumps(d)
p = d['params']
tests = [t for f in ('tests.json', 'network-tests.json') for s in json.load(open('/repo/' + f))['sets'] for t in s['tests']]
urls = [t['task_config'] if isinstance(t['task_config'], str) else t['task_config']['url'] for t in tests]
hosts = set()
for s in p['sets'].values():
    for x in s:
        if re.fullmatch(r'[a-z0-9.-]+\.[a-z]{2,}', x): hosts.add(x)
def walk(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if re.fullmatch(r'[a-z0-9-]+(\.[a-z0-9-]+)+', k): hosts.add(k)
            walk(v)
    elif isinstance(x, list):
        for v in x: walk(v)
    elif isinstance(x, str) and re.fullmatch(r'[a-z0-9-]+(\.[a-z0-9-]+)+', x) and re.search(r'\.[a-z]{2,}$', x): hosts.add(x)
walk(p['named_partitionings']); walk(p['maps']); walk(d['rules']); walk(d['commons'])
paths = sorted(set(re.findall(r'"(/[A-Za-z0-9_./-]*)"', txt)))
params = sorted(set(p['sets']['utps']) | set(re.findall(r'"QueryParam": "([^"]+)"', txt)))
net = set(p['sets']['redirect-hwwwwdpafqdnps']) | set(p['sets']['bypass.vip-hwwwwdpafqdnps'])
def netwalk(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if k == 'PartMap' and isinstance(v.get('map'), dict):
                for h, b in v['map'].items():
                    t = json.dumps(b)
                    if '.' in h and any(w in t for w in ('HttpRequest', 'ExpandRedirect', 'extract-from-page')): net.add(h)
            netwalk(v)
    elif isinstance(x, list):
        for v in x: netwalk(v)
netwalk(d['rules'])
net |= {'pawoo.net', 'api.pinterest.com', 'allmylinks.com', 'substack.com', 'sketchfab.com', 'qudsnen.co', 'facebook.com', 'reddit.com', 'old.reddit.com', 'teepublic.com', 'action.openmedia.org', 'api.bypass.vip'}
netreg = sorted(p['sets']['redirect-reg-domains'] + ['lnk.to'])
json.dump(dict(nethosts=sorted(net), netreg=netreg, hosts=sorted(hosts), utps=sorted(p['sets']['utps']), params=params, paths=paths, urls=urls, flags=sorted(d['docs']['flags'])), open('/verif/corpus/default.json', 'w'), indent=0)
print(len(hosts), len(params), len(paths), len(urls), d['docs']['flags'].keys(), d['docs'].get('variables'))
