#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, state=state or [], hook_needed=None)))
S, C, I, H, CF, F = 'schedules', 'crash_points', 'inputs', 'histories', 'configurations', 'fault_sequences'
NOCLI = 'The existing unit tests call library functions on one thread; none of them runs the command-line pipeline, its threads or its streams.'
NONET = 'The existing tests never open a connection: network-tests.json needs the real internet and is not part of the suite, and no test injects a network fault.'
NOCACHE = 'No existing test writes to a cache file, restarts on one, crashes inside a write, or shares one between threads or processes.'

p('C01', 'Every input gets exactly one result, in input order',
  'Whatever the number of worker threads and however they are scheduled, a run that reaches the end of its input writes exactly one result per input, in input order: first the URLs given as arguments, then the lines of STDIN. An input whose cleaning fails still occupies its own place, as an empty line (an error object in JSON mode). No result is ever lost, repeated, swapped or attributed to another input.',
  [S, I, CF], 'For every thread count, every interleaving of reader, workers and writer, every mix of argument and STDIN inputs, and every mix of succeeding and failing inputs.',
  NOCLI, ['src/main.rs'], [('round-robin dispatch of inputs to per-worker channels', 'src/main.rs Task Getter thread'), ('round-robin collection from per-worker channels', 'src/main.rs Stdout thread')], ['STDOUT bytes', 'STDERR bytes'])
p('C02', 'A result depends only on its own input, not on threads, timing or neighbours',
  'With the same configuration, parameters and outside answers, the result of an input is the same for every number of threads, every schedule, every in-memory hash order, and every choice and order of the other inputs in the run. Scratch flags and variables set while cleaning one input are never visible to another; the context given with one input reaches that input only, and the job context reaches all of them.',
  [S, I, CF], 'For every thread count, schedule, hash seed, permutation and subset of the inputs.',
  'Unit tests clean one URL at a time in one thread with one hash seed; they cannot show that a second task in flight leaves the result alone.', ['src/main.rs', 'src/types/job/task.rs', 'src/types/job/job.rs', 'src/types/job/task_state.rs', 'src/types/rules/mappers.rs'],
  [('fresh scratchpad per task', 'Task::do in src/types/job/task.rs'), ('shared immutable config and job context', 'JobConfig::new_task in src/types/job/job.rs')], ['STDOUT bytes of the whole run against single-input runs'])
p('C03', 'A failing input harms nothing but itself',
  'An input that fails for any reason (not a URL, malformed JSON, an error raised by a rule, a failing request, command or cache) changes neither the results of the other inputs nor the ability of the run to finish, and the program never crashes because of it. In line mode each failed input produces its empty output line and exactly one diagnostic line on STDERR, the diagnostics appear in the order of the failed inputs, and successful inputs produce none.',
  [S, I, F], 'For every position and kind of failure, including network, command and cache faults, and every schedule.',
  NOCLI, ['src/main.rs', 'src/types/job/task_config.rs', 'src/types/job/task.rs', 'src/types/rules.rs', 'src/types/rules/mappers.rs'], [('per-input Result carried through the channels', 'src/main.rs worker and Stdout threads')], ['STDOUT', 'STDERR', 'exit status'])
p('C04', 'The exit status says whether none, all or some of the inputs failed',
  'A run that reaches the end of its input exits with status 0 when no input failed (also when there were no inputs), 1 when every input failed, and 2 when some failed and some did not, in line mode and in JSON mode alike. Whatever the schedule, the status agrees with what was written.',
  [S, I, F], 'For every mix of successes and failures, thread count and schedule.',
  NOCLI, ['src/main.rs'], [('some_ok / some_err recorded by the Stdout thread and combined after the scope', 'src/main.rs end of main')], ['process exit status'])
p('C05', 'Results stream out, slow inputs do not hold up others, and the run ends',
  'In line mode the result of an input is written as soon as it and all earlier inputs are done, without waiting for later input or for the end of STDIN. With N worker threads, N consecutive inputs are worked on at the same time, so their waiting times on the outside world overlap. Once STDIN has ended and outside answers have arrived or timed out, the run exits after a bounded amount of work, and no schedule deadlocks it.',
  [S, F, I], 'For every schedule, thread count, arrival pattern of STDIN and pattern of slow or stalled servers.',
  NOCLI, ['src/main.rs', 'src/glue/caching.rs', 'src/types/rules/mappers.rs'], [('line-buffered output thread', 'src/main.rs Stdout thread'), ('cache lock held only around a single read or write', 'Cache::read and Cache::write in src/glue/caching.rs')], ['virtual time of each output write and of process exit'])
p('C06', 'JSON mode writes one valid document that agrees with line mode',
  'For every set of inputs, including ones that fail and ones whose error messages contain quotes, control characters or non-ASCII text, JSON mode writes exactly one well-formed JSON document with one entry per input in order. Each entry is a success carrying exactly the URL line mode would print, or a failure exactly where line mode prints an empty line; failures to understand the input and failures to clean it are told apart.',
  [S, I, F], 'For every set of inputs and failures, thread count and schedule.',
  NOCLI, ['src/main.rs'], [('str_to_json_str escaping and separator state', 'src/main.rs Stdout thread')], ['STDOUT bytes in both modes'])
p('C07', 'However STDIN is delivered, no input is invented, merged, split or truncated',
  'The inputs of a run are exactly the lines of the STDIN byte stream (ended by LF or CRLF; a last line without an ending counts), no matter how the stream is cut into reads, delayed or interrupted by signals. A line that is not valid UTF-8 fails alone. If reading STDIN fails, every complete line before the failure is still handled, an error is reported, the run still ends, and no fragment of a line is ever cleaned as if it were an input.',
  [F, I, S], 'For every cutting of the stream into reads, every delay, interruption and read error at any byte.',
  NOCLI, ['src/main.rs'], [('line iterator over STDIN', 'src/main.rs Task Getter thread')], ['STDOUT', 'STDERR', 'exit status'])
p('C08', 'Output faults never reorder, repeat or hide output',
  'Short or interrupted writes to STDOUT do not change the bytes written. If STDOUT stops accepting data (closed pipe, full disk, I/O error), what was written is a prefix of the correct output, the program ends instead of hanging, and its exit status is not one that claims the run completed (0, 1 or 2), in line mode and in JSON mode. The same holds when STDERR stops accepting data: either every result is written and the exit status is the usual one, or it is not one that claims the run completed.',
  [F, S, I], 'For every byte position at which STDOUT fails, every error, every pattern of short and interrupted writes, thread count and schedule.',
  NOCLI, ['src/main.rs'], [('print!/println! panics surfaced through the thread scope', 'src/main.rs Stdout thread')], ['bytes accepted by STDOUT', 'exit status'])

p('N01', 'Expanding a redirect yields what the server said, or an error',
  'When a URL is expanded by asking its server, the result is the target named in the redirect answer (or the final URL if there is no redirect), or the input fails; faults such as refused or reset connections, failed name lookups or TLS handshakes, truncated or malformed answers, stalls, timeouts and lack of threads, sockets or descriptors never yield any other URL. The answer used is always the answer to this very request: connections and answers are never mixed up between inputs handled at the same time.',
  [F, S, I], 'For every schedule, every split, delay and loss of the answer bytes, and every combination of failing and working servers.',
  NONET, ['src/types/rules/mappers.rs', 'src/glue/http_client_config.rs', 'src/types/job/task_state.rs'], [('status / Location handling', 'Mapper::ExpandRedirect in src/types/rules/mappers.rs'), ('client construction', 'HttpClientConfig::make in src/glue/http_client_config.rs')], ['STDOUT', 'requests seen by the simulated servers'])
p('N02', 'With the no-network flag set, the default config never touches the network',
  'When the built-in configuration runs with its no-network flag set, cleaning never looks up a name, opens a connection or sends a byte, for any URL (redirectors, embeds, unmangled hosts and cache contents included), and every input still gets a result. Without the flag, names are looked up and requests sent only for hosts the configuration expands.',
  [I, CF, H], 'For every URL built from every host, path and parameter name the default configuration mentions, with every other flag on or off.',
  'The tests only try a few hundred fixed URLs, all on the assumption that the network is unreachable; none observes lookups or connections.', ['default-config.json', 'src/types/rules/mappers.rs', 'src/types/string_source.rs'], [('no-network checks around every redirect and request rule', 'default-config.json'), ('condition evaluation', 'src/types/rules/conditions.rs')], ['simulated resolver and sockets'])
p('N03', 'Requests carry nothing from other inputs or earlier requests',
  'Every request sent while cleaning an input is determined by that input, the configuration and the answers to that input alone: no cookies, referrer, authentication, headers or URL data from another input or an earlier request are ever sent, and each request carries exactly the configured headers and body. In particular no Referer header is sent unless it is turned on, and it is sent on followed redirects when it is turned on for that request.',
  [S, H, I, CF], 'For every history of earlier answers (including Set-Cookie), every schedule and every per-request override.',
  NONET, ['src/glue/http_client_config.rs', 'src/glue/http.rs', 'src/types/job/task_state.rs', 'src/types/rules/mappers.rs'], [('one client per request', 'TaskStateView::http_client in src/types/job/task_state.rs'), ('override application', 'HttpClientConfigDiff::apply in src/glue/http_client_config.rs')], ['request bytes seen by the simulated servers'])
p('N04', 'Configured proxies are always used, never bypassed',
  'When a proxy is configured for a protocol, every request of that protocol goes through it: the target is neither contacted nor looked up directly (except for the lookup the proxy protocols socks4 and socks5, unlike socks4a and socks5h, ask of the client), also not when the proxy refuses, fails or stalls, in which case the input fails. The credentials configured for a proxy are the ones presented to it; a proxy that cannot be used as configured fails the step that needs the request and nothing else. Proxies from the environment are used the same way unless the no-proxy setting (in the configuration, a parameter diff, the command line or a per-request override) is on; settings that are not about proxies never change whether one is used.',
  [F, CF, S], 'For every place the setting can be given, every per-request override, and every proxy fault.',
  NONET, ['src/glue/http_client_config.rs', 'src/glue/proxy.rs', 'src/types/config/params.rs', 'src/main.rs'], [('proxy list and no_proxy passed to the client', 'HttpClientConfig::make in src/glue/http_client_config.rs'), ('override application', 'HttpClientConfigDiff::apply'), ('command-line parameter diffs', 'ParamsDiffArgParser in src/types/config/params.rs')], ['addresses connected to and names looked up'])
p('N05', 'Redirect chains and loops cause a bounded, exact amount of work',
  'Following redirects by repeating rules performs at most the configured number of repetitions and stops at the first repetition that changes nothing, so that redirect loops and endless chains end with a bounded number of requests; redirects followed inside one request stop at the configured limit with an error, and with following turned off exactly one request is sent and the final page is never contacted.',
  [F, H, CF], 'For every shape of redirect graph (chains, cycles, self-loops, fan-in) and every limit.',
  NONET, ['src/types/rules.rs', 'src/glue/http_client_config.rs', 'src/types/rules/mappers.rs'], [('repeat until unchanged or limit', 'Rule::Repeat in src/types/rules.rs'), ('redirect policy', 'RedirectPolicy in src/glue/http_client_config.rs')], ['requests seen by the simulated servers', 'STDOUT'])
p('N06', 'Retrying makes exactly the attempts and pauses configured',
  'A retried step is attempted until it first succeeds, at most the configured number of times, with exactly the configured pause between consecutive attempts and none after the last; if every attempt fails the input fails with the last error. A retry on one thread does not slow inputs on other threads.',
  [F, S, CF], 'For every pattern of failing and succeeding attempts, every limit and pause, and every schedule.',
  NONET, ['src/types/rules/mappers.rs'], [('attempt loop with sleep', 'Mapper::Retry in src/types/rules/mappers.rs')], ['virtual times of the requests', 'STDOUT'])
p('N07', 'A response is used whole and unaltered, or not at all',
  'When a rule takes the body, a header, a cookie or the final URL of a response, it gets exactly what the server sent for that request, however the bytes were split or delayed on the way; a response cut short by a reset, a closed connection or a timeout makes the step fail instead of yielding a partial value. The request itself carries the configured method, URL, headers and body.',
  [F, S, I], 'For every split and delay of the response bytes and every point at which it can be cut.',
  NONET, ['src/glue/http.rs', 'src/types/string_source.rs'], [('response handlers', 'ResponseHandler::handle in src/glue/http.rs'), ('request construction', 'HttpRequestConfig in src/glue/http.rs')], ['STDOUT', 'request bytes seen by the simulated servers'])

p('N08', 'HTTPS servers are believed only as far as configured',
  'A request over HTTPS is answered only by a server whose certificate names the host asked for and is vouched for by the built-in roots or by an authority the configuration of that very request adds; an authority added for one request is not trusted by another, one that is removed is not trusted any more, and a certificate text that cannot be used makes the request fail rather than be sent with less or more trust than configured. With https-only set no request, redirected ones included, is sent over plain HTTP.',
  [F, S, I], 'For every combination of authorities over requests, redirects, proxies and threads.',
  NONET, ['src/glue/http_client_config.rs', 'src/types/job/task_state.rs'], [('building the client', 'HttpClientConfig::make in src/glue/http_client_config.rs'), ('per-request differences', 'HttpClientConfigDiff::apply in src/glue/http_client_config.rs')], ['simulated handshakes, connections and requests', 'STDOUT'])

p('A01', 'A revert-on-error group either takes full effect or none',
  'When a group of changes marked to be reverted on error fails at any point inside it, for any reason (explicit error, failing request, command or cache access, failing nested group), the URL and the scratch flags and variables of that input are exactly as they were before the group, and the error is reported to whatever surrounds the group. When it succeeds all its changes are kept.',
  [F, I, CF], 'For every nesting of groups and fallbacks and every point at which an outside step inside one can fail.',
  'The tests never make a step inside such a group fail because of an outside fault, and check at most the URL, not the scratch state.', ['src/types/rules/mappers.rs'], [('snapshot and restore', 'Mapper::RevertOnError in src/types/rules/mappers.rs')], ['STDOUT (the scratch state is made visible by rules)'])
p('A02', 'Fallbacks run exactly when the guarded step failed',
  'A fallback is carried out if and only if the step it guards failed: try/else runs the else part only after a failure and fails only if both do, first-not-error stops at the first success, ignore-error never fails the input, error-as-pass and error-as-fail conditions take their stated value on failure only, and steps after an unguarded failure are not carried out. This holds for string values, conditions and URL changes alike, whatever outside fault caused the failure.',
  [F, CF], 'For every nesting of fallback combinators and every pattern of outside failures.',
  'The tests evaluate a handful of combinators on pure values; none drives them with failing requests, commands or caches.', ['src/types/rules/mappers.rs', 'src/types/rules/conditions.rs', 'src/types/string_source.rs', 'src/types/rules.rs'], [('combinators', 'Mapper, Condition and StringSource error-handling variants')], ['STDOUT', 'requests and commands carried out'])

p('D01', 'The cache answers with the most recently written value',
  'Within and across runs, reading a category and key from the cache returns the value most recently stored for exactly that category and key, an absent value being kept apart from no entry; entries of other categories or keys never show. This holds for every interleaving of threads and for in-memory and file caches (plain path or file:// path) alike, the in-memory cache starting empty in each run.',
  [H, S, I], 'For every history of reads and writes by concurrent tasks and successive runs, with arbitrary category and key text.',
  NOCACHE, ['src/glue/caching.rs', 'src/types/rules/mappers.rs', 'src/types/string_source.rs'], [('select by category and key, replace on write', 'InnerCache::read and InnerCache::write in src/glue/caching.rs')], ['STDOUT', 'requests carried out', 'cache file contents'])
p('D02', 'A cached answer is used instead of asking again; the cache switches are obeyed',
  'Once a redirect, cached URL change or cached string has been stored, later inputs and later runs with reading enabled get the same result without any request. With reading disabled the cache contents never influence a result; with writing disabled nothing is ever stored; both off means no cache influence at all.',
  [H, CF, S], 'For every history of runs over the same cache with every setting of the read and write switches.',
  NOCACHE, ['src/types/rules/mappers.rs', 'src/types/string_source.rs', 'src/glue/caching.rs', 'src/types/config/params.rs'], [('read_cache / write_cache checks', 'Mapper::ExpandRedirect, Mapper::CacheUrl and StringSource::Cache')], ['STDOUT', 'requests carried out', 'cache file contents'])
p('D03', 'Only successful work is remembered',
  'A step that fails (failed or truncated request, error in a guarded change, failed command) stores nothing in the cache, so that a later run asks again and gets the right result once the outside recovers. Every entry in the cache equals the result that step gave when it was stored.',
  [F, H, S], 'For every pattern of outside failures followed by recovery, and every schedule.',
  NOCACHE, ['src/types/rules/mappers.rs', 'src/types/string_source.rs'], [('write after success only', 'Mapper::ExpandRedirect, Mapper::CacheUrl and StringSource::Cache')], ['cache file contents', 'STDOUT of later runs'])
p('D04', 'A crash at any point leaves a usable cache that keeps acknowledged entries',
  'If the process is killed or the machine loses power at any point, including while the cache file is being created, the next run can still use the cache: it never fails because of leftovers, and never yields a wrong or partial value. After a kill every entry whose input had its result written before is still there; after a loss of power at most the most recently stored of them is missing. Every entry found was really stored.',
  [C, H, F], 'For every crash point among all file operations and output writes, and every subset and tearing of writes that were not yet synced.',
  NOCACHE, ['src/glue/caching.rs'], [('database creation and initialisation', 'InnerCache::connect in src/glue/caching.rs'), ('SQLite journal', 'libsqlite3')], ['cache file after the crash', 'STDOUT of the next run'])
p('D05', 'Cache I/O faults cause errors, never wrong results, and do not last',
  'When opening, reading, writing, syncing or locking the cache file fails (I/O error, disk full, too many files, permission), each affected input either fails or gets the correct result; no input gets a wrong URL, the run ends normally, and inputs that do not use the cache are untouched. Once the fault is gone, a later run works and every value found in the cache is correct.',
  [F, S], 'For every sequence of failing file operations and every schedule.',
  NOCACHE, ['src/glue/caching.rs', 'src/types/rules/mappers.rs'], [('errors surfaced from connect, read and write', 'src/glue/caching.rs')], ['STDOUT', 'exit status', 'cache file'])
p('D06', 'Several processes can share one cache file',
  'When several runs use the same cache file at the same time, including when the file does not exist yet, every input of every run gets the same result as if its run were alone: no input fails because another process is creating, reading or writing the cache, no entry is lost, and the file stays valid.',
  [S, H, C], 'For every interleaving of the processes at the level of file operations and locks, and a crash of one of them.',
  NOCACHE, ['src/glue/caching.rs'], [('database creation and locking', 'InnerCache::connect in src/glue/caching.rs')], ['STDOUT of every process', 'cache file'])

p('X01', 'Command output is captured whole and commands cannot disturb the run',
  'When a rule runs an external command, the value used is exactly what the command wrote to its STDOUT, and the command receives exactly the configured arguments, environment and STDIN; a failure to start, or output that is not text, makes the step fail. However large the data, however the command interleaves reading and writing, and whether or not it reads its STDIN, the run neither deadlocks nor mixes outputs between inputs, a command never consumes the run\'s own STDIN, and nothing it writes to its STDERR appears among the run\'s diagnostics.',
  [S, F, I], 'For every order and size of the command\'s reads and writes, every exit, and every schedule with several commands at once.',
  'The existing tests do not start commands; pipe sizes, early exits and signals are never exercised.', ['src/glue/command.rs', 'src/types/string_source.rs', 'src/types/rules/conditions.rs'], [('spawn, feed STDIN, collect output', 'CommandConfig::output in src/glue/command.rs')], ['STDOUT', 'bytes read and written by the simulated commands'])
p('L01', 'Configuration is used whole and exactly, or the run refuses to start',
  'The config file, parameter diff files, parameter options, test files and job context are either read and understood completely, or the program stops with a nonzero status before writing any result, contacting any server or touching the cache. Short and interrupted reads make no difference; read errors, missing files, files cut at any byte and files that state the same parameter twice are refused, and several parameter diffs are applied in the order given, the one made of all parameter options last. Test files pass exactly if every test in them gives its stated result.',
  [F, I], 'For every read fault and every cut of the files.',
  NOCLI, ['src/main.rs', 'src/types/config.rs', 'src/types/config/params.rs'], [('load and parse before any thread starts', 'src/main.rs'), ('config loading', 'Config::load_from_file in src/types/config.rs')], ['STDOUT', 'exit status', 'sockets and cache file'])

# Properties this technique does not decide (see not_applicable in MANIFEST.json).
PURE = 'The tests check a few hundred fixed inputs.'
p('P01', 'Cleaning an already clean URL with the default config changes nothing',
  'For every URL, cleaning the result of cleaning it with the built-in configuration (network off) yields the same URL again.',
  [I], 'For every URL.', PURE, ['default-config.json'], [('default rules', 'default-config.json')], ['STDOUT'])
p('P02', 'Setting a URL part and reading it back agree',
  'For every URL, part and value: if setting the part succeeds, reading the part gives the value (up to the URL standard\'s percent-encoding) and the other independent parts are unchanged; if it fails, the URL is unchanged.',
  [I], 'For every URL, part and value.', PURE, ['src/types/url_part.rs', 'src/types/better_url.rs'], [('part getters and setters', 'src/types/url_part.rs')], ['library API'])
p('P03', 'Domain decomposition always matches the host',
  'For every URL and every sequence of changes to it, the stored subdomain, registrable domain and suffix boundaries always describe the current host.',
  [I, H], 'For every URL and sequence of host changes.', PURE, ['src/types/better_url.rs', 'src/types/better_url/host_details.rs'], [('cached host details', 'src/types/better_url.rs')], ['library API'])
p('P04', 'String matchers and modifications behave as documented for all text',
  'For every string, including non-ASCII text and out-of-range positions, each matcher, location and modification gives its documented value or error and never panics.',
  [I], 'For every string and parameter.', PURE, ['src/types/string_modification.rs', 'src/types/string_matcher.rs', 'src/types/string_location.rs'], [('operations', 'src/types/string_modification.rs')], ['library API'])
p('P05', 'Configurations survive serialisation',
  'Every configuration that can be loaded can be serialised and loaded again to an equal configuration.',
  [CF], 'For every loadable configuration.', PURE, ['src/types/config.rs'], [('serde implementations', 'src/types')], ['library API'])
p('P06', 'HTML and JavaScript text extraction is total and unescapes as standardised',
  'For every input text, unescaping HTML text, HTML attributes and JavaScript string literals yields the standard\'s value or an error and never panics.',
  [I], 'For every text.', PURE, ['src/glue/parse'], [('parsers', 'src/glue/parse')], ['library API'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        n = x['statement'].count('. ') + 1
        assert n <= 3, (x['id'], n)
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
