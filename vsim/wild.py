"""Programs made of every construct of the configuration language that needs no network, command or cache, with odd arguments, over odd URLs.
What they do is not modelled; the oracle is that no input ends the run, and that an input gives the same result whatever else happens."""
import json
TXT = ['', 'a', '/', '=', '&', '?', '#', '.', ':', '//', '%', '%41', '%e2%82%ac', '%ff', '%c3%28', '\u00e9', '\u20ac', '\U0001f600', 'e\u0301', '\u00df', '\u0130', '\ufb01', '\u2028', '\x00', '\n', '\t', ' ', '"', "'", '\\', '$1', '$0x', '${a}', '$', 'a.b', 'com', 'co.uk', 'www.', 'www', '..', '.', '/..', '[::1]', '127.0.0.1', '0x7f', '1', '-1',
    '{"a":"b"}', '{"a":{"b":["x","\\u0000"]}}', '"\\u00e9"', '[1,2', '/a', '/a/b/1', '/~0', 'YWJj', 'YWJjZA==', 'YWJjZA', '____', '!', '////', '\u043f\u0440\u0438', 'xn--e1afmkfd', '\u4f8b', 'A' * 300, '\u20ac' * 80]
JS = ['"abc"', "'a\\'b' + x", '"\\u0041\\x41\\n"', '"\\u{1F600}"', '"\\u{110000}"', '"\\u{', '"\\u12', '"\\x', '"\\', '"', '`a`', "'\\ud83d\\ude00'", "'\\ud83d'", '"\u20ac\\\u20ac"', '"a\nb"', '"\\\n"', '"\\08"', '"\\u{}"', '"\\u{FFFFFFFFFFFF}"', '"\\ud83d\\u0041"', '"\\ud83dx"', '\\', '"\\x4', '"\\u{1F600', "'\U0001f600'", '"\\0"', '"\\1"', '']
HTML = ['&amp;', '&#65;', '&#x41;', '&#xD800;', '&#x110000;', '&#99999999999999999999;', '&#;', '&#x;', '&', '&amp', '&ampx', '&notit;', '&notin;', '&NotEqualTilde;', '&#0;', '&#128;', '&#x80;', '\u20ac&euro;', '&euro', '&\u20ac;', 'a&lt;b&gt;c', '&#x1F600;', '&#-1;', '&&amp;;', '&#xg;', '&aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa;', '&CounterClockwiseContourIntegral;']
TAG = ['<a href="x">', "<a href='x&amp;y'>", '<a href=x>', '<a href>', '<a href=>', '<a href="x', "<a href='x", '<a', '<', '<>', '< a href=x>', '<a href = "x" >', '<a b="1" href="2" href="3">', '<a/href=x>', '<A HREF="x">', '<a \u20ac="x" href="\u20ac">', '<a href="\u20ac">', '<!-- -->', '</a href=x>', '<a href=x/>', '<a "href"=x>', '<a href=\u20acx>', '<a\nhref\n=\n"x"\n>', '<a href=x', 'a', '<a href="">', "<a =x>", '<a ==>', '<a href=&quot;x>', '<a ' + 'b ' * 50 + 'href=z>', '<a href="&#xD800;">', '<meta content="0;url=x">']
RE = ['.', '', '(a)|b', '(?<x>.)(.)?', '[^/]+', '^', '$', '.*', '\\d+', '\\b', '(?i)A', '\u20ac', '[\U0001f600\u00e9]', '(', '[', 'a{2,1}', '(?:.*){0,50}', '\\p{L}', '\\p{Nope}', '(?-u)\\xff', '(?-u:.)', '((((a))))', 'x{1000}{1000}', '()|()', '(?P<x>a)(?P<y>b)', '\\w+$', '.{0,1}']
GL = ['*', '?', '**', '[a-z]', '[!a]', '*a*', '\u20ac*', '[]a]', 'a/**', '[*]', '*.*', '']
class Wild:
    def __init__(self, r, d=3): self.r, self.left = r, 40
    def i(self): return self.r.choice([0, 0, 1, 1, 2, 3, -1, -1, -2, -3, 5, -7, 40, -40, 2 ** 63 - 1, -2 ** 63])
    def oi(self): return self.r.choice([None, self.i(), self.i()])
    def n(self): return self.r.choice([0, 1, 2, 3, 10, 2 ** 63])
    def txt(self):
        x = self.r.random(); r = self.r
        if x < .5: return r.choice(TXT)
        if x < .7: return r.choice(TXT) + r.choice(TXT)
        if x < .8: return r.choice(JS)
        if x < .9: return r.choice(HTML)
        return r.choice(TAG)
    def deep(self, d): self.left -= 1; return d > 0 and self.left > 0
    def many(self, f): return [f() for _ in range(self.r.choice([0, 1, 1, 2, 3]))]
    def map(self, f): return dict(map={self.txt(): f() for _ in range(self.r.choice([0, 1, 2]))}, **dict([('if_null', f())] if self.r.random() < .3 else []), **dict([('else', f())] if self.r.random() < .6 else []))
    def logic(self, k, f, d):
        """The combinators most of the types share."""
        if k in ('Not', 'TreatErrorAsPass', 'TreatErrorAsFail', 'Debug', 'IgnoreError', 'RevertOnError', 'ErrorToNone', 'ErrorToEmptyString', 'NoneToEmptyString'): return {k: f(d - 1)}
        if k in ('All', 'Any', 'FirstNotError'): return {k: self.many(lambda: f(d - 1))}
        if k == 'TryElse': return {k: {'try': f(d - 1), 'else': f(d - 1)}}
        if k == 'Error': return {k: self.txt()}
        return None
    def regex(self):
        if self.r.random() < .8: return self.r.choice(RE)
        return dict(pattern=self.r.choice(RE), **{k: self.r.random() < .5 for k in self.r.sample(['case_insensitive', 'crlf', 'dot_matches_new_line', 'ignore_whitespace', 'multi_line', 'octal', 'swap_greed', 'unicode'], 2)})
    def part(self, d=1):
        r = self.r; x = r.random()
        if x < .15: return {'QueryParam': r.choice(['a', '', '\u20ac', 'a b', dict(name='a', index=r.choice([0, 1, 5, 2 ** 63]))])}
        if x < .5: return {r.choice(['DomainSegment', 'BeforeDomainSegment', 'AfterDomainSegment', 'SubdomainSegment', 'BeforeSubdomainSegment', 'AfterSubdomainSegment', 'DomainSuffixSegment', 'BeforeDomainSuffixSegment', 'AfterDomainSuffixSegment', 'PathSegment', 'PathSegment', 'BeforePathSegment', 'AfterPathSegment']): self.i()}
        if x < .53 and d: return {'Debug': self.part(0)}
        return r.choice(['Whole', 'Scheme', 'Username', 'Password', 'Host', 'HostWithoutWWWDotPrefixAndFqdnPeriod', 'NextDomainSegment', 'NextSubdomainSegment', 'NextDomainSuffixSegment', 'Domain', 'Subdomain', 'RegDomain', 'NotDomainSuffix', 'DomainMiddle', 'DomainSuffix', 'FqdnPeriod', 'Port', 'Path', 'NextPathSegment', 'Query', 'Fragment'])
    def char(self, d=1):
        r = self.r
        if d <= 0 or r.random() < .6: return r.choice(['Always', 'Never', 'Error', 'IsAlphabetic', 'IsAlphanumeric', 'IsAscii', 'IsAsciiAlphabetic', 'IsAsciiAlphanumeric', 'IsAsciiControl', 'IsAsciiDigit', 'IsAsciiGraphic', 'IsAsciiHexdigit', 'IsAsciiLowercase', 'IsAsciiPunctuation', 'IsAsciiUppercase', 'IsAsciiWhitespace', 'IsControl', 'IsDigit', 'IsLowercase', 'IsNumeric', 'IsUppercase', 'IsWhitespace',
            {'Equals': r.choice('a/\u20ac\x00')}, {'Between': dict(min=r.choice('az'), max=r.choice('az\U0001f600'))}, {'IsDigitRadix': r.choice([0, 1, 2, 10, 16, 36, 37, 2 ** 32 - 1])}, {'IsOneOf': ['a', '\u00e9']}])
        return self.logic(r.choice(['Not', 'All', 'Any', 'TreatErrorAsPass', 'TreatErrorAsFail', 'TryElse', 'FirstNotError', 'Debug']), self.char, d)
    def loc(self, d=2):
        r = self.r
        if d <= 0 or r.random() < .5: return r.choice(['Anywhere', 'Start', 'End', 'Equals', 'Always', 'Never', {'StartsAt': self.i()}, {'EndsAt': self.i()}, {'After': self.i()}, {'Before': self.i()}])
        k = r.choice(['Not', 'All', 'Any', 'TreatErrorAsPass', 'TreatErrorAsFail', 'TryElse', 'FirstNotError', 'Debug', 'Range', 'Range', 'AnySegment', 'NthSegment', 'Error'])
        if k == 'Range': return {k: dict(start=self.i(), end=self.oi(), location=self.loc(d - 1))}
        if k == 'AnySegment': return {k: dict(split=self.txt(), location=self.loc(d - 1))}
        if k == 'NthSegment': return {k: dict(split=self.txt(), n=self.i(), location=self.loc(d - 1))}
        return self.logic(k, self.loc, d)
    def var(self): return {'Var': self.r.choice([dict(type='Scratchpad', name=self.r.choice(['s0', 's1'])), dict(type='TaskContext', name=self.r.choice(['k', 'v'])), dict(type='JobContext', name='j0'), dict(type='Params', name='v0'), dict(type='Common', name='v0'), dict(type='Env', name='HOME_X')])}
    def src(self, d=2):
        r = self.r
        if not self.deep(d) or r.random() < .55: return r.choice([self.txt(), self.txt(), {'Part': self.part()}, {'Part': {'QueryParam': 'a'}}, {'Part': {'QueryParam': 'a'}}, self.var(), None, {'Var': dict(type='Scratchpad', name='s0')}])
        k = r.choice(['Error', 'ErrorToNone', 'ErrorToEmptyString', 'TryElse', 'Debug', 'NoneToEmptyString', 'NoneTo', 'Join', 'IfFlag', 'IfStringMatches', 'IfStringIsNone', 'Map', 'ExtractPart', 'Modified', 'Modified', 'ExtractBetween', 'RegexFind', 'ParamsMap', 'Common'])
        f = lambda: self.src(d - 1)
        if k == 'NoneTo': return {k: dict(value=f(), if_none=f())}
        if k == 'Join': return {k: dict(sources=self.many(f), join=self.txt())}
        if k == 'IfFlag': return {k: {'type': 'Scratchpad', 'name': 'g0', 'then': f(), 'else': f()}}
        if k == 'IfStringMatches': return {k: {'value': f(), 'matcher': self.match(d - 1), 'then': f(), 'else': f()}}
        if k == 'IfStringIsNone': return {k: {'value': f(), 'then': f(), 'else': f()}}
        if k == 'Map': return {k: dict(value=f(), **self.map(f))}
        if k == 'ExtractPart': return {k: dict(value=f(), part=self.part())}
        if k == 'Modified': return {k: dict(value=f(), modification=self.mod(d - 1))}
        if k == 'ExtractBetween': return {k: dict(value=f(), start=f(), end=f())}
        if k == 'RegexFind': return {k: dict(value=f(), regex=self.regex())}
        if k == 'ParamsMap': return {k: dict(name='m0', key=f())}
        if k == 'Common': return {k: self.call()}
        return self.logic(k, self.src, d)
    def call(self): return self.r.choice(['x0', 'x1', 'nope', dict(name=self.r.choice(['x0', 'x1']), args=dict(vars={'v0': self.src(0)}))])
    def match(self, d=2):
        r = self.r
        s = lambda: self.src(d - 1)
        if not self.deep(d) or r.random() < .6:
            return r.choice([lambda: 'Always', lambda: 'Never', lambda: {'Contains': dict(value=s(), where=self.loc())}, lambda: {'ContainsAny': dict(values=self.many(s), where=self.loc())}, lambda: {'ContainsAnyInList': dict(list='l0', where=self.loc())}, lambda: {'Is': s()}, lambda: {'IsOneOf': list({self.txt(), self.txt()})}, lambda: {'InSet': 's0'},
                lambda: {'Regex': self.regex()}, lambda: {'Glob': r.choice(GL)}, lambda: {'OnlyTheseChars': [r.choice('a/\u20ac'), 'b']}, lambda: {'AllCharsMatch': self.char()}, lambda: {'AnyCharMatches': self.char()}, lambda: 'IsAscii', lambda: {'LengthIs': self.n()}, lambda: {'SegmentsStartWith': dict(split=s(), value=s())}, lambda: {'SegmentsEndWith': dict(split=s(), value=s())}])()
        k = r.choice(['Error', 'Debug', 'If', 'Not', 'All', 'Any', 'TreatErrorAsPass', 'TreatErrorAsFail', 'TryElse', 'FirstNotError', 'Modified', 'NthSegmentMatches', 'AnySegmentMatches', 'Common'])
        f = lambda: self.match(d - 1)
        if k == 'If': return {k: {'if': f(), 'then': f(), 'else': f()}}
        if k == 'Modified': return {k: dict(modification=self.mod(d - 1), matcher=f())}
        if k == 'NthSegmentMatches': return {k: dict(split=s(), n=self.i(), matcher=f())}
        if k == 'AnySegmentMatches': return {k: dict(split=s(), matcher=f())}
        if k == 'Common': return {k: self.call()}
        return self.logic(k, self.match, d)
    def b64(self): return self.r.choice([{}, dict(alphabet=self.r.choice(['UrlSafe', 'Standard']), encode_padding=self.r.random() < .5, decode_padding=self.r.choice(['Indifferent', 'RequireCanonical', 'RequireNone']))])
    def mod(self, d=2):
        r = self.r
        s = lambda: self.src(d - 1); f = lambda: self.mod(d - 1)
        if not self.deep(d) or r.random() < .65:
            return r.choice([lambda: 'None', lambda: {'Set': s()}, lambda: {'Append': s()}, lambda: {'Prepend': s()}, lambda: {'Replace': dict(find=s(), replace=s())}, lambda: {'ReplaceRange': dict(start=self.i(), end=self.oi(), replace=s())}, lambda: 'Lowercase', lambda: 'Uppercase',
                lambda: {r.choice(['StripPrefix', 'StripSuffix', 'StripMaybePrefix', 'StripMaybeSuffix']): s()}, lambda: {'Replacen': dict(find=s(), replace=s(), count=self.n())}, lambda: {'Insert': dict(value=s(), index=self.i())}, lambda: {'RemoveChar': self.i()}, lambda: {'KeepRange': dict(start=self.i(), end=self.oi())},
                lambda: {'RegexCaptures': dict(regex=self.regex(), replace=s())}, lambda: {'JoinAllRegexCaptures': dict(regex=self.regex(), replace=s(), join=s())}, lambda: {'RegexFind': self.regex()}, lambda: {'RegexReplace': dict(regex=self.regex(), replace=s())}, lambda: {'RegexReplaceAll': dict(regex=self.regex(), replace=s())}, lambda: {'RegexReplacen': dict(regex=self.regex(), n=self.n(), replace=s())},
                lambda: {'UrlEncode': r.choice(['JsEncodeUriComponent', 'JsEncodeUri', 'NonAlphanumeric'])}, lambda: 'UrlDecode', lambda: {'Base64Encode': self.b64()}, lambda: {'Base64Decode': self.b64()}, lambda: 'Base64Decode', lambda: 'GetJsStringLiteralPrefix', lambda: 'UnescapeHtmlText', lambda: {'GetHtmlAttribute': r.choice(['href', s()])}, lambda: {'JsonPointer': s()},
                lambda: {'All': [{'Set': r.choice(JS)}, 'GetJsStringLiteralPrefix']}, lambda: {'All': [{'Set': r.choice(HTML) + r.choice(HTML + TXT)}, 'UnescapeHtmlText']}, lambda: {'All': [{'Set': r.choice(TAG)}, {'GetHtmlAttribute': r.choice(['href', 'href', '', '\u20ac', 'b'])}]},
                lambda: {r.choice(['RemoveQueryParamsMatching', 'AllowQueryParamsMatching']): self.match(d - 1)}, lambda: {'ExtractBetween': dict(start=s(), end=s())}, lambda: {'KeepNthSegment': dict(split=s(), index=self.i())}, lambda: {'KeepSegmentRange': dict(split=s(), start=self.i(), end=self.oi())},
                lambda: {'SetSegment': dict(split=s(), index=self.i(), value=s())}, lambda: {'InsertSegment': dict(split=s(), index=self.i(), value=s())}])()
        k = r.choice(['Debug', 'Error', 'IgnoreError', 'IgnoreError', 'RevertOnError', 'TryElse', 'All', 'All', 'FirstNotError', 'If', 'IfMatches', 'StringMap', 'Common'])
        if k == 'If': return {k: {'condition': self.cond(d - 1), 'then': f(), 'else': r.choice([None, f()])}}
        if k == 'IfMatches': return {k: {'matcher': self.match(d - 1), 'then': f(), 'else': r.choice([None, f()])}}
        if k == 'StringMap': return {k: dict(value=s(), **self.map(f))}
        if k == 'Common': return {k: self.call()}
        return self.logic(k, self.mod, d)
    def cond(self, d=2):
        r = self.r; s = lambda: self.src(d - 1)
        if not self.deep(d) or r.random() < .6:
            return r.choice([lambda: 'Always', lambda: {r.choice(['HostIs', 'SubdomainIs', 'RegDomainIs', 'DomainIs', 'DomainMiddleIs', 'NotDomainSuffixIs', 'DomainSuffixIs']): r.choice([None, self.txt()])}, lambda: r.choice(['UrlHasHost', 'HostIsFqdn', 'HostIsDomain', 'HostIsIp', 'HostIsIpv4', 'HostIsIpv6']), lambda: {'QueryHasParam': self.txt()}, lambda: {'PathIs': self.txt()},
                lambda: {'PartIs': dict(part=self.part(), value=s())}, lambda: {'PartContains': dict(part=self.part(), value=s(), where=self.loc())}, lambda: {'PartMatches': dict(part=self.part(), matcher=self.match(d - 1))}, lambda: {'StringContains': dict(value=s(), substring=s(), where=self.loc())}, lambda: {'StringMatches': dict(value=s(), matcher=self.match(d - 1))}, lambda: {'StringIs': dict(left=s(), right=s())}])()
        k = r.choice(['Error', 'Debug', 'If', 'Not', 'All', 'Any', 'PartMap', 'StringMap', 'TryElse', 'Common', 'TreatErrorAsPass', 'TreatErrorAsFail'])
        f = lambda: self.cond(d - 1)
        if k.startswith('Treat'): return {k: {'All': [f()]}}
        if k == 'If': return {k: {'if': f(), 'then': f(), 'else': f()}}
        if k == 'PartMap': return {k: dict(part=self.part(), **self.map(f))}
        if k == 'StringMap': return {k: dict(value=s(), **self.map(f))}
        if k == 'Common': return {k: self.call()}
        return self.logic(k, self.cond, d)
    def mapper(self, d=3):
        r = self.r; s = lambda: self.src(d - 1); f = lambda: self.mapper(d - 1)
        if not self.deep(d) or r.random() < .5:
            return r.choice([lambda: 'RemoveQuery', lambda: {'RemoveQueryParam': s()}, lambda: {r.choice(['RemoveQueryParams', 'AllowQueryParams']): ['a', '\u20ac']}, lambda: {r.choice(['RemoveQueryParamsMatching', 'AllowQueryParamsMatching']): self.match(d - 1)}, lambda: {'GetUrlFromQueryParam': s()}, lambda: {'SetHost': r.choice([None, self.txt()])}, lambda: {'Join': s()},
                lambda: {'SetPart': dict(part=self.part(), value=s())}, lambda: {'SetPart': dict(part=self.part(), value=s())}, lambda: {'ModifyPart': dict(part=self.part(), modification=self.mod())}, lambda: {'ModifyPart': dict(part=self.part(), modification=self.mod())}, lambda: {'ModifyPart': dict(part='Fragment', modification=self.mod())}, lambda: {r.choice(['CopyPart', 'MovePart']): {'from': self.part(), 'to': self.part()}},
                lambda: {'SetScratchpadFlag': dict(name='g0', value=True)}, lambda: {'SetScratchpadVar': dict(name=r.choice(['s0', 's1']), value=s())}, lambda: {'ModifyScratchpadVar': dict(name=r.choice(['s0', 's1']), modification=self.mod())}])()
        k = r.choice(['Error', 'Debug', 'If', 'All', 'PartMap', 'StringMap', 'IgnoreError', 'IgnoreError', 'RevertOnError', 'TryElse', 'FirstNotError', 'Common'])
        if k == 'If': return {k: dict(condition=self.cond(d - 1), mapper=f(), else_mapper=r.choice([None, f()]))}
        if k == 'PartMap': return {k: dict(part=self.part(), **self.map(f))}
        if k == 'StringMap': return {k: dict(value=s(), **self.map(f))}
        if k == 'Common': return {k: self.call()}
        return self.logic(k, self.mapper, d)
    def config(self):
        r = self.r
        rules = []
        for _ in range(r.choice([1, 2, 3, 5])):
            m = {'Mapper': self.mapper()}
            rules.append({'Mapper': {'IgnoreError': self.mapper()}} if r.random() < .5 else m)
        rules.append({'Mapper': {'IgnoreError': {'SetPart': dict(part='Fragment', value={'Join': dict(join='|', sources=[{'NoneToEmptyString': {'ErrorToNone': x}} for x in [{'Var': dict(type='Scratchpad', name='s0')}, {'Part': self.part()}, {'Modified': dict(value={'NoneToEmptyString': {'Part': {'QueryParam': 'a'}}}, modification=self.mod())}]])})}}})
        self.left = 30
        commons = {k: {n: f(1) for n in ('x0', 'x1')} for k, f in (('conditions', self.cond), ('mappers', self.mapper), ('string_sources', self.src), ('string_matchers', self.match), ('string_modifications', self.mod))}
        nocall(commons)
        return dict(rules=rules, commons=commons)
    def host(self):
        r = self.r
        return r.choice(['a.test', 'www.a.b.co.uk', 'co.uk', 'com', 'x.com.', 'www.www', 'www.', 'a..b', 'xn--e1afmkfd.xn--p1ai', '\u043f\u0440\u0438.\u0440\u0444', '127.0.0.1', '[::1]', '[2001:db8::1]', '0x7f.1', 'localhost', 'a_b.test', '1.2.3.4.', 'a.github.io', 'x.y.z.a.test', '*.test', 'blogspot.com', 'a%41.test', '\u00df.test', 'WWW.Test.COM'])
    def url(self):
        r = self.r
        x = r.random()
        if x < .12: return r.choice(['mailto:a@b.c', 'data:text/plain,hi', 'file:///etc/x', 'about:blank', 'javascript:alert(1)', 'foo:bar', 'foo://h/p?q#f', 'foo:', 'foo://', 'file://host/', 'blob:http://a.test/x', 'ftp://a.test/', 'ws://a.test/', 'foo:/..//p', 'http:a.test', 'urn:a:b?c'])
        u = r.choice(['http://', 'https://', 'HTTP://']) + r.choice(['', '', '', 'u@', 'u:p@', ':@', ':p@', '%40:%3a@', '\u20ac:\u20ac@']) + self.host() + r.choice(['', '', '', ':80', ':8080', ':0', ':65535', ':'])
        u += r.choice(['', '/', '/a', '/a/b/c', '//', '//a//', '/%', '/%41%ff', '/\u20ac/\U0001f600', '/..;/a', '/a/', '/a%2Fb', '/ ', '/a/b/c/d/e/f/g', '/{}|'])
        if r.random() < .7: u += '?' + '&'.join(r.choice(['a', 'b', '', '\u20ac', 'a']) + r.choice(['', '=', '=']) + r.choice(['1', self.enc(), self.enc(), '%', '%ff', '+', 'a=b']) for _ in range(r.choice([0, 1, 1, 2, 3])))
        if r.random() < .4: u += '#' + r.choice(['', 'f', '\u20ac', '#', '%', self.enc()])
        return u
    def enc(self):
        from urllib.parse import quote
        return quote(self.txt(), safe='') if self.r.random() < .8 else self.txt()
def nocall(x):
    """Common pieces do not call each other (they could call themselves for ever)."""
    if isinstance(x, dict):
        for k, v in list(x.items()):
            if k == 'Common' : x[k] = 'nope'
            else: nocall(v)
    elif isinstance(x, list):
        for v in x: nocall(v)
VAL = [None, '', 'a', '/', '//', '.', '..', ':', '%', '#', '?', '@', 'a.b', 'x.', '1.2.3.4', '[::1]', '80', 'http', 'https', 'foo', 'file', '\u20ac', 'a:b', '/a//b', '&', '=', '0', '65536', '\u00e9.\u00e9', 'www.', '-']
ODD = ['foo://', 'foo:', 'foo://h', 'foo:/', 'file://', 'file:///a', 'file://h/a', 'about:x', 'foo://h:80', 'foo://u@h/p', 'mailto:x', 'foo:///', 'foo:/.//p', 'foo:/.///', 'foo://?q', 'foo://#f', 'foo://h?q', 'foo://h#f', 'http://.', 'https://..', 'http://a.', 'web+x://a?b#c', 'blob:http://x/y', 'data:,x']
def op(w):
    """One operation on the URL as a whole or on one of its parts."""
    r, p, q = w.r, w.part(0), w.part(0)
    return r.choice([lambda: {'SetPart': dict(part=p, value=r.choice(VAL))}] * 4 + [lambda: {r.choice(['CopyPart', 'MovePart']): {'from': q, 'to': p}}] * 2 + [lambda: {'SetHost': r.choice(VAL)}, lambda: {'Join': r.choice(VAL[1:])}, lambda: 'RemoveQuery', lambda: {'RemoveQueryParam': 'a'}, lambda: {'RemoveQueryParams': ['a']}, lambda: {'AllowQueryParams': ['a']},
        lambda: {'ModifyPart': dict(part=p, modification=r.choice([{'Append': r.choice(VAL[1:])}, {'Prepend': r.choice(VAL[1:])}, 'Uppercase', {'KeepNthSegment': dict(split='.', index=0)}]))}])()
def gen_ops(rng, w, n):
    """Programs of nothing but such operations, over URLs of every kind of scheme."""
    tasks = [l for l in (w.url() if rng.random() < .55 else rng.choice(ODD) for _ in range(n or rng.choice([5, 12, 25]))) if '\n' not in l and '\r' not in l]
    return dict(rules=[{'Mapper': {'IgnoreError': op(w)}} for _ in range(rng.choice([2, 4, 8]))]), tasks or ['foo:']
def gen_wild(rng, n=None):
    w = Wild(rng)
    if rng.random() < .35: return gen_ops(rng, w, n)
    conf = w.config()
    conf['params'] = dict(flags=['f0'], vars={'v0': w.txt()}, maps={'m0': {'map': {w.txt(): w.txt(), 'a': 'b'}}}, sets={'s0': ['a', w.txt()]}, lists={'l0': ['a', w.txt(), w.txt()]}, read_cache=False, write_cache=False)
    tasks = []
    for _ in range(n or rng.choice([2, 5, 12, 25])):
        u = w.url()
        tasks.append(json.dumps(dict(url=u, context=dict(vars={rng.choice(['k', 'v']): w.txt()}))) if rng.random() < .4 or '\n' in u or '\r' in u else u)
    return conf, tasks

EQDUMP = {'Mapper': {'SetPart': dict(part='Fragment', value={'Join': dict(join='.', sources=[{'NoneTo': dict(value={'Part': 'Fragment'}, if_none='nf')}, {'IfFlag': {'type': 'Scratchpad', 'name': 'g0', 'then': 'G', 'else': '-'}},
    {'NoneTo': dict(value={'Var': dict(type='Scratchpad', name='s0')}, if_none='n0')}, {'NoneTo': dict(value={'Var': dict(type='Scratchpad', name='s1')}, if_none='n1')}])})}}
def gen_equation(rng, revert):
    """A program with a guarded step, and the programs one of whose results it must have: the first that succeeds."""
    w = Wild(rng)
    conf = w.config()
    y, n = {'SetScratchpadVar': dict(name='s1', value='yes')}, {'SetScratchpadVar': dict(name='s1', value='no')}
    kind = rng.choice(['mapper', 'mapper', 'mod'] if revert else ['mapper', 'mapper', 'mapper', 'cond', 'src', 'match', 'mod', 'mod', 'char', 'loc'])
    emb = dict(mapper=lambda x: x, cond=lambda x: {'If': dict(condition=x, mapper=y, else_mapper=n)}, src=lambda x: {'SetScratchpadVar': dict(name='s1', value=x)}, match=lambda x: {'If': dict(condition={'StringMatches': dict(value=w0, matcher=x)}, mapper=y, else_mapper=n)},
        mod=lambda x: {'ModifyScratchpadVar': dict(name='s1', modification=x)}, char=lambda x: {'If': dict(condition={'StringMatches': dict(value=w1, matcher={'AllCharsMatch': x})}, mapper=y, else_mapper=n)},
        loc=lambda x: {'If': dict(condition={'StringContains': dict(value=w0, substring=w2, where=x)}, mapper=y, else_mapper=n)})[kind]
    w0, w1, w2 = w.txt(), rng.choice([w.txt(), 'a']), rng.choice(['a', '', '/', w.txt()])
    gen = dict(mapper=w.mapper, cond=w.cond, src=w.src, match=w.match, mod=w.mod, char=w.char, loc=w.loc)[kind]
    def step():
        w.left = rng.choice([2, 6, 15])
        x = gen(rng.choice([1, 2, 3]))
        q = rng.random()
        if kind in ('mapper', 'mod'):
            if q < .35: return {'All': [x, gen(1), {'Error': 'boom'}]}
            if q < .6: return {'All': [x, gen(2)]}
        elif q < .3: return 'Error' if kind == 'char' else {'Error': 'boom'} if kind != 'loc' else rng.choice([{'Range': dict(start=40, end=None, location='Anywhere')}, {'NthSegment': dict(split='/', n=40, location='Anywhere')}])
        return x
    ign = lambda x: {'IgnoreError': x}
    seq = lambda *x: {'All': list(x)} if len(x) > 1 else x[0]
    a, b, c = step(), step(), step()
    state = kind in ('mapper', 'mod')
    if revert: g, ps = ign({'RevertOnError': a}), [a, ign({'All': []})]
    else:
        k = rng.choice(['try', 'try', 'first', 'ignore' if state else 'null' if kind == 'src' else 'treat'])
        if k == 'try': g, ps = {'TryElse': {'try': a, 'else': b}}, [a, seq(ign(a), b) if state else b]
        elif k == 'first' and kind in ('cond', 'src'): g, ps = {'TryElse': {'try': {'TryElse': {'try': a, 'else': b}}, 'else': c}}, [a, b, c]
        elif k == 'first': g, ps = {'FirstNotError': [a, b, c]}, [a, seq(ign(a), b), seq(ign(a), ign(b), c)] if state else [a, b, c]
        elif k == 'ignore': g, ps = ign(a), [a, None]        # what a failing step leaves is for the model to say
        elif k == 'null':
            t = rng.choice(['ErrorToNone', 'ErrorToEmptyString']); g, ps = {t: a}, [a, None if t == 'ErrorToNone' else '']
        else:
            t = rng.choice(['TreatErrorAsPass', 'TreatErrorAsFail'])
            g, ps = {t: {'All': [a]} if kind == 'cond' else a}, [a, 'Always' if t == 'TreatErrorAsPass' else 'Never']
    setup = [{'Mapper': ign(w.mapper(2))} for _ in range(rng.choice([0, 1, 2]))] + [{'Mapper': {'SetScratchpadVar': dict(name='s1', value=w.txt())}}]
    mk = lambda x: dict(rules=setup + [{'Mapper': emb(x)}, EQDUMP], commons=conf['commons'], params=pars)
    pars = dict(flags=['f0'], vars={'v0': w.txt()}, maps={'m0': {'map': {w.txt(): w.txt(), 'a': 'b'}}}, sets={'s0': ['a', w.txt()]}, lists={'l0': ['a', w.txt(), w.txt()]}, read_cache=False, write_cache=False)
    progs = [mk(x) if x is not None or kind == 'src' else None for x in ps]
    tasks = []
    for _ in range(rng.choice([3, 6, 12])):
        u = w.url()
        if '\n' not in u and '\r' not in u: tasks.append(json.dumps(dict(url=u, context=dict(vars={'k': w.txt()}))) if rng.random() < .2 else u)
    return dict(config=mk(g), progs=progs, tasks=[dict(raw=l) for l in tasks], kind=kind)
