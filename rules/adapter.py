"""The adapter of the WASM server: cutting standard input into messages, and framing responses (TypeScript)."""
import glob, json, os, re, shutil, subprocess
import extract
from engine import *
from clientfs import TSC, walk
from requests import Base, SENDS, RECV
from host import CLOSE
from process import Ends, path
from check import callees

SEP = '\r\n\r\n'
SRC = 'packages/p4-analyzer/src'


def key(t): return json.dumps(t)


def lin(t):
    """a number as a sum: {atom: coefficient}, '' for the constant; anything else is an atom"""
    if t[0] == 'num':
        try: return {'': float(t[1])} if float(t[1]) else {}
        except ValueError: return {key(t): 1}
    if t[0] == 'get' and t[2] in ('length', 'byteLength') and t[1][0] == 'str': return {'': float(len(t[1][1].encode()))}
    if t[0] == 'cat': parts = [(x, 1) for x in t[1:]]
    elif t[0] == 'op' and t[1] == '-': parts = [(t[2], 1), (t[3], -1)]
    else: return {key(t): 1}
    out = {}
    for x, k in parts:
        for a, n in lin(x).items(): out[a] = out.get(a, 0) + k * n
    return {a: n for a, n in out.items() if n}


def sub(a, b):
    out = dict(a)
    for k, n in b.items(): out[k] = out.get(k, 0) - n
    return {k: n for k, n in out.items() if n}


GLOBALS = ('Number', 'Buffer', 'Math', 'parseInt', 'isNaN')


def meth(f): return f[2] if isinstance(f, list) and f[0] == 'get' and isinstance(f[2], str) else f[1] if isinstance(f, list) and f[0] == 'name' else None


def iscall(t, *names): return isinstance(t, list) and len(t) > 1 and t[0] == 'call' and meth(t[1]) in names


def base(t):
    """the buffer a view looks at from its start"""
    while True:
        if iscall(t, 'subarray', 'slice') and (len(t) == 2 or lin(t[2]) == {}): t = t[1][1]
        elif iscall(t, 'from') and t[1][1] == ['name', 'Buffer'] and len(t) == 3: t = t[2]
        else: return t


def analyse(c):
    repo = extract.REPO
    files = sorted(f for f in glob.glob(repo + '/' + SRC + '/**/*.ts', recursive=True) if not f.endswith('.d.ts') and '.test.' not in f)
    tsc = next((t for t in TSC if os.path.isdir(t)), None)
    node = shutil.which('node')
    if not tsc or not node: raise RuntimeError('node or the TypeScript compiler is not installed')
    if not files: c.missing('the sources of the adapter'); return None
    p = subprocess.run([node, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'ts_terms.js'), tsc] + files, capture_output=True, text=True, timeout=120)
    if p.returncode: raise RuntimeError('ts_terms: ' + p.stderr[-500:])
    d = json.loads(p.stdout)
    for e in d['errors']: c.bad('build:ts', e.replace(repo + '/', ''), 'does not parse')
    for f in files: c.ob('files of the adapter', os.path.relpath(f, repo))
    return d


def adapter(c):
    c.rule('chunk', 'all bytes of a chunk are put behind those received before')
    c.rule('message', 'a message is exactly the bytes from behind the blank line up to the announced length, taken as soon as and only if they have all arrived')
    c.rule('rest', 'what follows a message is kept, and looked at again before the next chunk arrives')
    c.rule('order', 'messages are sent in the order they were received, each once')
    c.rule('response', 'a response is written as its length in bytes, a blank line and its bytes')
    d = analyse(c)
    if d is None: return
    rel = lambda r: os.path.relpath(r['file'], extract.REPO)
    for s in d['streams']: stream(c, rel(s), s['events'])
    for w in d['writes']: response(c, rel(w), w['events'])
    if not d['streams']: c.missing('what listens to standard input')
    c.floor('files of the adapter', 1)


def stream(c, file, evs):
    at = lambda e: '%s:%d' % (file, e['line'])
    calls = [e for e in evs if e['op'] == 'call']
    sets = [e for e in evs if e['op'] == 'set']
    c.ob('listeners to standard input', file)
    # the chunk
    for e in calls:
        f = e['fn']
        if meth(f) == 'copy' and f[0] == 'get' and f[1] == ['chunk']:
            c.ob('chunks taken', at(e))
            a = e['args']
            if not e['loop'] and (len(a) > 2 and lin(a[2]) != {} or len(a) > 3 and lin(a[3]) not in ({key(['get', ['chunk'], n]): 1} for n in ('length', 'byteLength')) and a[3] != ['undefined']): c.bad('chunk:part', at(e), 'only a part of the chunk is taken over: where it starts in its allocation is not where its contents start')
        if meth(f) in ('slice', 'subarray') and f[0] == 'get' and f[1] == ['chunk']:
            if e['args'] and lin(e['args'][0]) != {} and not e['loop']: c.bad('chunk:part', at(e), 'only a part of the chunk is taken over')
        if meth(f) == 'concat' and f[0] == 'get' and f[1] == ['name', 'Buffer'] and e['args'] and e['args'][0][0] == 'arr':
            xs = [base(x) for x in e['args'][0][1:]]
            if ['chunk'] in xs:
                c.ob('chunks taken', at(e))
                if xs.index(['chunk']) != len(xs) - 1: c.bad('chunk:order', at(e), 'the chunk is put before what was received earlier')
    # the blank line and the length
    splits = {}
    for e in evs:
        for x in walk([e.get('args'), e.get('fn'), e.get('val'), e.get('cond')]):
            if iscall(x, 'indexOf', 'lastIndexOf') and len(x) > 2 and x[2][0] == 'str' and x[2][1].strip(' ') in (SEP, '\r\n', '\n\n', '\n'): splits[key(x)] = (x, e)
    cut = None
    for k, (x, e) in splits.items():
        if x[2][1] == SEP:
            c.ob('ends of headers', at(e))
            if iscall(x, 'lastIndexOf'): c.bad('header:last', at(e), 'the last blank line received is taken as the end of the headers')
            cut = cut or k
    if cut is None: return
    # messages taken out
    taken = []
    for e in calls:
        f, a = e['fn'], e['args']
        if meth(f) == 'copy' and f[0] == 'get' and f[1] != ['chunk'] and a and (iscall(a[0], 'alloc', 'allocUnsafe') or a[0][0] == 'new'):
            taken.append((e, a[2] if len(a) > 2 else ['num', '0'], a[3] if len(a) > 3 else None, a[0][2] if len(a[0]) > 2 else None))
        if meth(f) in ('push', 'sendRequest', 'unshift'):
            for x in a:
                y = x
                while iscall(y, 'from') and len(y) == 3: y = y[2]
                if iscall(y, 'subarray', 'slice') and len(y) > 2 and lin(y[2]) != {}: taken.append((e, y[2], y[3] if len(y) > 3 else None, None))
    end = None
    for e, a, b, n in taken:
        c.ob('messages taken', at(e))
        if sub(lin(a), {cut: 1}) != {'': 4.0}: c.bad('message:start', at(e), 'a message does not start right behind the blank line')
        if b is None and n is None: c.bad('message:end', at(e), 'a message takes along what follows it'); continue
        L = sub(lin(b), lin(a)) if b is not None else lin(n)
        if n is not None and b is not None and sub(lin(n), L): c.bad('message:length', at(e), 'a message is given another number of bytes than it has')
        if len(L) != 1 or list(L.values()) != [1] or '' in L or list(L)[0] == cut: c.bad('message:end', at(e), 'a message does not end after the announced number of bytes')
        end = {cut: 1, '': 4.0}
        for k, v in L.items(): end[k] = end.get(k, 0) + v
        if not e['loop'] and not any(x['op'] == 'again' for x in evs): c.bad('rest:later', at(e), 'only one message of a chunk is taken: the next one waits for another chunk')
    if end is None: return
    # the count of bytes received, and what follows the message
    counts = []
    for e in sets:
        l = lin(e['val'])
        k = key(e['place'])
        if l.get(k) == 1 and (['chunk'] in list(walk(e['val']))): counts.append(k)
    first = evs.index(taken[0][0])
    def after(e): return e['loop'] or evs.index(e) > first
    kept = False
    for e in calls:
        f, a = e['fn'], e['args']
        if meth(f) in ('copy', 'copyWithin') and f[0] == 'get' and f[1][0] != 'chunk' and (meth(f) == 'copyWithin' or a and base(a[0]) == base(f[1])):
            s = a[2] if meth(f) == 'copy' and len(a) > 2 else a[1] if meth(f) == 'copyWithin' and len(a) > 1 else ['num', '0']
            to = a[1] if meth(f) == 'copy' and len(a) > 1 else a[0] if meth(f) == 'copyWithin' and a else ['num', '0']
            c.ob('rests kept', at(e))
            kept = True
            if sub(lin(s), end): c.bad('rest:start', at(e), 'what is kept does not start where the message ends')
            if lin(to) != {}: c.bad('rest:place', at(e), 'what is kept is not put at the start of the buffer')
    for e in sets:
        v = e['val']
        if e['place'][0] == 'get' and e['place'][1] == ['this'] and after(e):
            y = v
            while iscall(y, 'from') and len(y) == 3: y = y[2]
            if iscall(y, 'subarray', 'slice') and len(y) > 2 and base(y[1][1]) in (e['place'], ['name', e['place'][2]]) or iscall(y, 'subarray', 'slice') and len(y) > 2 and end and not sub(lin(y[2]), end):
                c.ob('rests kept', at(e))
                kept = True
                if sub(lin(y[2]), end): c.bad('rest:start', at(e), 'what is kept does not start where the message ends')
        k = key(e['place'])
        if k in counts and ['chunk'] not in list(walk(v)):
            c.ob('counts of bytes', at(e))
            l = lin(v)
            if l == {}: c.bad('rest:lost', at(e), 'what follows a message in the same chunk is forgotten')
            elif l.get(k) == 1 and sub({k: 1}, l) != end and all(x[0] != 'name' or x[1] in GLOBALS for x in walk(v) if isinstance(x, list) and x): c.bad('rest:count', at(e), 'the count of bytes received is not reduced by the message that was taken out')
    # only if all has arrived
    tests = []
    for e in evs:
        if e['op'] not in ('if', 'while'): continue
        for x in walk(e['cond']):
            if not (isinstance(x, list) and len(x) == 4 and x[0] == 'op' and x[1] in ('<', '<=', '>', '>=')): continue
            l, r, op = x[2], x[3], x[1]
            if op in ('>', '>='): l, r, op = r, l, '<' if op == '>' else '<='
            # now l < r or l <= r
            dl = sub(lin(l), lin(r))
            for k, v in list(dl.items()):
                if not (k in counts or re.search(r'"(length|byteLength)"\]$', k)) or any(y == ['chunk'] for y in walk(e['cond'])): continue
                rest = sub(dl, {k: v})
                if not rest or abs(v) != 1: continue
                inv = e['op'] == 'if' and e['exit']
                if any(isinstance(y, list) and y[:1] == ['not'] and key(x) in key(y) for y in walk(e['cond'])): inv = not inv
                need = {a: -v * n for a, n in rest.items()}     # count < need (v = 1), need < count (v = -1)
                if need == end: tests.append((True, e, v, op, inv))
                elif all(a in end or a == '' for a in need): tests.append((False, e, v, op, inv))
    for good, e, v, op, inv in tests:
        c.ob('tests of completeness', at(e))
        if good and (v == 1 and op == '<=' and inv or v == -1 and op == '<' and not inv): c.bad('message:waits', at(e), 'a message that has arrived in full waits for more bytes')
    if not any(t[0] for t in tests):
        wrong = list(tests)
        unknown = any(e['op'] in ('if', 'while') and any(isinstance(x, list) and x[:1] == ['op'] and x[1] in ('<', '<=', '>', '>=') and any(k in counts or re.search(r'"(length|byteLength)"\]$', k) for k in sub(lin(x[2]), lin(x[3]))) for x in walk(e['cond'])) and not any(x == ['chunk'] for x in walk(e['cond'])) for e in evs)
        if counts and (wrong or not unknown): c.bad('message:early', at((wrong[0][1] if wrong else taken[0][0])), 'a message is taken before it has arrived in full')
    # what the chunks are collected in
    for e in calls:
        f, a = e['fn'], e['args']
        if not (meth(f) == 'copy' and f[0] == 'get' and f[1] == ['chunk'] and a and len(a) > 1 and key(a[1]) in counts): continue
        buf, cnt = a[0], key(a[1])
        for x, y in splits.values():
            if x[2][1] == SEP and x[1][1] == buf and all(z[2][1] != SEP or z[1][1] == buf for z, _ in splits.values()): c.bad('header:stale', at(y), 'the end of the headers is searched for behind the bytes received, too, where those of earlier messages are')
        for y in sets:
            if y['place'] == buf and evs.index(y) < evs.index(e) and not any(x == buf for x in walk(y['val'])) and not any(meth(z['fn']) == 'copy' and z['fn'][0] == 'get' and base(z['fn'][1]) == buf and evs.index(z) < evs.index(y) for z in calls): c.bad('chunk:growth', at(y), 'what was received before is lost when the buffer grows')
        later = [y for y in sets if after(y) and ['chunk'] not in list(walk(y['val'])) and y['place'][0] == 'get' and y['place'][1] == ['this']]
        if not kept and later and all(key(y['place']) == cnt for y in later) and not any(base(z['fn'][1]) == buf and meth(z['fn']) in ('set', 'fill', 'concat') for z in calls if z['fn'][0] == 'get'): c.bad('rest:kept', at(later[0]), 'what follows a message is not kept')
        if not later: c.bad('rest:count', at(taken[0][0]), 'the count of bytes received is not reduced by the message that was taken out')
    # order
    q = {}
    for e in calls:
        if e['fn'][0] == 'get' and meth(e['fn']) in ('push', 'unshift', 'pop', 'shift', 'reverse', 'splice'): q.setdefault(key(e['fn'][1]), {}).setdefault(meth(e['fn']), e)
    for k, m in q.items():
        c.ob('queues of messages', at(next(iter(m.values()))))
        if 'push' in m and 'pop' in m: c.bad('order:last', at(m['pop']), 'the message received last is sent first')
        if 'unshift' in m and 'shift' in m: c.bad('order:last', at(m['unshift']), 'the message received last is sent first')
        if 'reverse' in m: c.bad('order:last', at(m['reverse']), 'the messages are reversed')


def number(t):
    return t[0] == 'num' or t[0] == 'get' and t[2] in ('length', 'byteLength') or t[0] == 'op' and t[1] in ('-', '*') or t[0] == 'cat' and all(number(x) for x in t[1:]) or iscall(t, 'byteLength')


def flat(t):
    if t[0] == 'cat' and number(t): return [t]
    if t[0] == 'cat': return [y for x in t[1:] for y in flat(x)]
    return [] if t == ['str', ''] else [t]


def response(c, file, evs):
    ws = [e for e in evs if e['op'] == 'call' and meth(e['fn']) == 'write' and any(isinstance(x, list) and x[:1] == ['get'] and x[2] == 'stdout' for x in walk(e['fn']))]
    if not ws or not any(['message'] in list(walk(e['args'])) for e in ws): return
    at = '%s:%d' % (file, ws[0]['line'])
    c.ob('responses written', at)
    parts, text = [], True
    for e in ws:
        a = e['args'][0] if e['args'] else ['undefined']
        if iscall(a, 'concat') and len(a) > 2 and a[2][0] == 'arr':
            for x in a[2][1:]: parts += flat(x[2]) if iscall(x, 'from') and len(x) > 2 else flat(x)
        else: parts += flat(a)
    s = ''
    for x in parts: s += x[1] if x[0] == 'str' else '\0'
    ps = [x for x in parts if x[0] != 'str']
    def message(x):
        while iscall(x, 'toString', 'from'):
            enc = [y for y in x[2:] if y[0] == 'str'] if x[1][0] == 'get' and x[1][1] != ['name', 'Buffer'] else [y for y in x[3:] if y[0] == 'str']
            if any(not re.match(r'(?i)utf-?8$', y[1]) for y in enc): return None
            x = x[2] if x[1][1] == ['name', 'Buffer'] else x[1][1]
        return x == ['message']
    if len(ps) == 2:
        n, m = ps
        if not re.match(r'^Content-Length: ?\0\r\n(Content-Type: [^\r\n]*\r\n)?\r\n\0$', s): c.bad('response:frame', at, 'a response is framed as %r' % s.replace('\0', '..'))
        if message(m) is None or message(m) is False and m[0] in ('str', 'num'): c.bad('response:content', at, 'what is written is not the response in UTF-8')
        if n[0] == 'get' and n[2] == 'length' and n[1] != ['message'] and iscall(n[1], 'toString') and message(n[1]): c.bad('response:length', at, 'the length of a response is counted in characters, not in bytes')
        l = lin(n)
        if len(l) != 1 or list(l.values()) != [1]: c.bad('response:length', at, 'the length of a response is not that of its bytes')
    elif ['message'] in ps and len(ps) == 1: c.bad('response:frame', at, 'a response is written without its length')


# ---- C32: the WASM server

UNITS = ['analyzer_abstractions', 'analyzer_host', 'p4_analyzer_wasm']
CALLS = ('Function::call0', 'Function::call1', 'Function::call2', 'Function::call3', 'Function::apply')
DECODES = ('de::from_slice', 'de::from_str', 'de::from_reader', 'value::from_value')
ENCODES = ('ser::to_string', 'ser::to_vec', 'ser::to_string_pretty')


class Wire(Base):
    """state: (decoded, times sent, result of the last send, received, times answered)"""
    def __init__(s, c, P, mine):
        Base.__init__(s, c, P)
        s.mine, s.sinks, s.sources, s.did = mine, set(), set(), set()
    def init(s): return (None, 0, None, None, 0)
    def stop(s, fid): return s.P.fns[fid]['unit'] != 'p4_analyzer_wasm' or fid.endswith('buffer::from') or bool(re.search(r'buffer::\{impl#\d+\}::from$', fid)) or Base.stop(s, fid)

    def partition(s, st, E):
        d, n, sr, r, w = st.auto
        return (E.tags(st), n, w, E.fact_var(st, d) if d is not None else None, E.fact_var(st, sr) if sr is not None else None, E.fact_var(st, r) if r is not None else None)

    def event(s, kind, ev, st, E):
        d, n, sr, r, w = st.auto
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'ret' and name in DECODES:
            s.did.add('decode')
            return (ev.val, 0, None, r, w)
        if kind == 'call' and name in SENDS and F:
            c.ob('messages passed to the host', ev.where)
            s.sinks.add(path(E.val(st, ev.args[0])))
            v = strip(E.val(st, ev.args[1], 5))
            if d is None or v is not strip(pay(d, 'Ok')): c.bad('in:message', ev.where, 'what is passed to the host is %s, not the message that was decoded' % show(v, 4))
            if n: c.bad('in:twice', ev.where, 'a message is passed to the host twice')
        if kind == 'ret' and (name in SENDS and name != 'Sender::send' or name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in SENDS): return (d, min(n + 1, 2), ev.val, r, w)
        if kind == 'call' and name in RECV and F:
            c.ob('answers taken', ev.where)
            s.sources.add(path(E.val(st, ev.args[0])))
            s.answered(ev, st, E)
        if kind == 'ret' and (name in RECV and name != 'Receiver::recv' or name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in RECV): return (d, n, sr, ev.val, 0)
        if kind == 'call' and name == 'Uint8Array::copy_from' and F: s.content(ev, st, E, E.val(st, ev.args[0], 6), E.val(st, ev.args[1], 8))
        if kind == 'call' and name in CALLS:
            if F:
                c.ob('answers handed out', ev.where)
                if w: c.bad('out:twice', ev.where, 'an answer is handed out twice')
            return (d, n, sr, r, min(w + 1, 2))
        if kind == 'return' and F:
            if d is not None:
                c.ob('requests handled', ev.where)
                got = E.fact_var(st, d)
                if got == frozenset(['Ok']) and not n: c.bad('in:dropped', ev.where, 'a message that was decoded is not passed to the host')
                for v in E.leaves(ev.val):
                    v = E.val(st, v, 4)
                    if is_agg(v, 'Ok') and got == frozenset(['Err']): c.bad('in:silent', ev.where, 'a message that cannot be decoded is dropped without telling the caller')
                    if is_agg(v, 'Ok') and sr is not None and E.fact_var(st, sr) == frozenset(['Err']): c.bad('in:lost', ev.where, 'a message that could not be passed on is dropped without telling the caller')
            if r is not None:
                s.answered(ev, st, E)
                if E.fact_var(st, r) == frozenset(['Ok']): c.bad('out:ends', ev.where, 'answers are no longer handed out after the first one, or after some')
        return None

    def answered(s, ev, st, E):
        d, n, sr, r, w = st.auto
        if r is not None and not w and E.fact_var(st, r) in (frozenset(['Ok']), frozenset(['Some'])): s.c.bad('out:dropped', ev.where, 'an answer of the host is not handed out')

    def content(s, ev, st, E, array, src):
        r = st.auto[3]
        if r is None: return
        c = s.c
        c.ob('contents of answers', ev.where)
        enc = [x for x in subterms(src) if x.op == 'call' and x.a[1] in ENCODES]
        if not enc: c.bad('out:content', ev.where, 'what is handed out is %s, not the answer as JSON' % show(src, 4)); return
        if any(x.op in ('slice', 'range') or x.op == 'agg' and re.search(r'\bRange(?!Full)', str(x.a[0])) or x.op == 'call' and last(x.a[1]) in ('chars', 'take', 'get', 'split_at', 'trim', 'truncate', 'index') or x.op == 'app' and x.a[0] in ('slice', 'index', 'trim', 'sub') for x in subterms(src) if x is not enc[0] and x not in subterms(enc[0])): c.bad('out:part', ev.where, 'only a part of the text of an answer is handed out: %s' % show(src, 3))
        v = E.val(st, enc[0].a[2], 6)
        fs = dict(v.a[2]) if v.op == 'agg' and len(v.a) > 2 else {}
        m = strip(pay(r, 'Ok'))
        if not any(strip(x) is m for x in fs.values()): c.bad('out:message', ev.where, 'what is handed out is not the message that was received from the host')
        if 'jsonrpc' in fs and "'2.0'" not in show(fs['jsonrpc'], 4): c.bad('out:version', ev.where, 'answers are marked as version %s of JSON-RPC' % show(fs['jsonrpc'], 3))
        if 'jsonrpc' not in fs: c.bad('out:version', ev.where, 'answers are not marked as JSON-RPC 2.0')
        for x in subterms(array):
            if x.op == 'call' and x.a[1] == 'Uint8Array::new_with_length':
                l = [y for y in subterms(x.a[2]) if y.op == 'app' and y.a[0] == 'len' or y.op == 'call' and last(y.a[1]) == 'len']
                y = x.a[2]
                while y.op in ('cast',) or y.op == 'app' and y.a[0] == 'cast':
                    if {'u8', 'u16', 'i8', 'i16'} & {str(k) for k in y.a}: c.bad('out:narrow', ev.where, 'the length of an answer is cut off at 64 KiB or less')
                    y = y.a[0] if y.op == 'cast' else y.a[1]
                if y not in l or not any(z in subterms(l[0]) for z in enc): c.bad('out:length', ev.where, 'the buffer of an answer is given %s bytes' % show(x.a[2], 4))


class Start(Base):
    def __init__(s, c, P): Base.__init__(s, c, P); s.host, s.tokens, s.awaits, s.together = [], [], [], False
    def init(s): return 0
    def stop(s, fid): return s.P.fns[fid]['unit'] != 'p4_analyzer_wasm' and not fid.endswith('::start') or Base.stop(s, fid)
    def event(s, kind, ev, st, E):
        if not E.final: return
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'AnalyzerHost::new': s.host.append((ev.where, E.val(st, ev.args[0], 6)))
        if kind == 'call' and name == 'AnalyzerHost::start': s.tokens.append((ev.where, E.val(st, ev.args[1], 6)))
        if kind == 'enter' and getattr(ev, 'id', '').startswith('analyzer_host') and '::start::{closure' in getattr(ev, 'id', ''): s.awaits.append(ev.where)


class Stop(Base):
    def __init__(s, c, P): Base.__init__(s, c, P); s.ends = []
    def init(s): return (False, frozenset())
    def stop(s, fid): return s.P.fns[fid]['unit'] != 'p4_analyzer_wasm' or Base.stop(s, fid)
    def event(s, kind, ev, st, E):
        name = getattr(ev, 'name', '')
        can, cl = st.auto
        if kind == 'call' and name == 'CancellationTokenSource::cancel': return (True, cl)
        if kind == 'call' and name in CLOSE: return (can, cl | {path(E.val(st, ev.args[0]))})
        if kind == 'return' and E.final: s.ends.append((ev.where, can, cl))


def wasm(c):
    c.rule('in', 'each message handed to the WASM server is decoded and passed to the host once; if that is impossible, the caller is told')
    c.rule('out', 'each message of the host is handed to the callback once, as JSON-RPC 2.0, all of its bytes, until the host is done')
    c.rule('wiring', 'what is passed on is what the host receives, what the host sends is what is handed out, over two channels')
    c.rule('start', 'the host and the handing out of answers run at the same time, and the host gets the token that stopping cancels')
    c.rule('stop', 'stopping cancels and closes the channel that answers are taken from')
    P = c.program(UNITS)
    mine = {i: f for i, f in P.fns.items() if f['unit'] == 'p4_analyzer_wasm'}
    sinks, sources = set(), set()
    where = 'crates/p4-analyzer-wasm/src/lib.rs'
    made = lambda i: '::_' in i or '__wasm' in i or '__wbg' in i        # what wasm_bindgen generates
    calls = {i: {j for j in callees(P, i) if j in mine and j != i} if not made(i) else set() for i in mine}
    start = {i for i in mine if re.search(r'\{impl#\d+\}::start(::\{closure#0\})?$', i)}
    def below(i):
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            todo += [y for y in calls[x]] + ([x + '::{closure#0}'] if x + '::{closure#0}' in mine else [])
        return seen
    inner = set()
    for i in mine:
        if i not in start:
            for j in calls[i]: inner |= {j, j + '::{closure#0}'}
    for i, f in sorted(mine.items()):
        if i in start or i in inner or made(i) or i + '::{closure#0}' in mine: continue
        if not any(set(direct(mine[j])) & set(SENDS + RECV + DECODES) for j in below(i)): continue
        r = Wire(c, P, mine)
        c.run_engine(P, r, i)
        sinks |= r.sinks; sources |= r.sources
    for k in ('messages passed to the host', 'requests handled', 'answers taken', 'answers handed out'): c.floor(k, 1)
    st = next((i for i in mine if re.search(r'\{impl#\d+\}::start::\{closure#0\}$', i)), None)
    if st is None: c.missing('the start of the WASM server'); return
    r = Start(c, P)
    c.run_engine(P, r, st)
    c.ob('hosts made', where, len(r.host))
    c.floor('hosts made', 1)
    for w, ch in r.host:
        e = [path(x) for _, x in ch.a[2]] if ch.op == 'agg' else []
        if len(e) != 2 or len(sinks) != 1 or len(sources) != 1 or None in e or None in sinks | sources: c.bad('wiring', w, 'messages flow through several channels: the host has %s, requests go to %s, answers come from %s' % (e, sorted(map(str, sinks)), sorted(map(str, sources)))); continue
        sk, so = next(iter(sinks)), next(iter(sources))
        tx, rx = e
        c.ob('channels', w, 2)
        if sk[:-1] != rx[:-1] or sk[-1] != '0' or rx[-1] != '1': c.bad('wiring:in', w, 'requests go to %s, the host receives from %s' % (sk, rx))
        if so[:-1] != tx[:-1] or so[-1] != '1' or tx[-1] != '0': c.bad('wiring:out', w, 'the host sends to %s, answers are taken from %s' % (tx, so))
        if sk[:-1] == so[:-1]: c.bad('wiring:same', w, 'both directions use the same channel')
    c.ob('tokens of the host', where, len(r.tokens))
    c.floor('tokens of the host', 1)
    for w, t in r.tokens:
        if not any(x.op == 'call' and x.a[1] == 'CancellationTokenSource::token' and any(y is mk('arg', 1) for y in subterms(x.a[2])) for x in subterms(t)): c.bad('start:token', w, 'the host gets %s, which stopping does not cancel' % show(t, 4))
    for w in r.awaits: c.bad('start:order', w, 'the host is waited for before answers are handed out: they come when it has ended')
    for i, f in sorted(mine.items()):
        if f['kind'] in ('fn', 'method') and f['locals'][0]['t'].endswith('LspServer'):
            e = Ends()
            Engine(P, e, i).run()
            for t in e.got:
                src = [x for x in t if x.op == 'call' and last(x.a[1]) in ('unbounded', 'bounded')]
                if not src: continue
                c.ob('servers made', where)
                if len(src) != len(set(src)): c.bad('wiring:shared', where, 'both directions use one channel')
    sp = next((i for i in mine if re.search(r'\{impl#\d+\}::stop$', i)), None)
    if sp is None: c.missing('the stop of the WASM server'); return
    r = Stop(c, P)
    c.run_engine(P, r, sp)
    for w, can, cl in r.ends:
        c.ob('ways to stop', w)
        if not can: c.bad('stop:cancel', w, 'stopping does not cancel the host')
        names = {x[:-1] for x in cl if x}
        for so in sources:
            if so and so[:-1] not in names: c.bad('stop:open', w, 'stopping leaves the channel of answers open: the server never ends')
    c.floor('ways to stop', 1)


def direct(f):
    out = []
    for b in f['blocks']:
        t = b['t']
        if t['k'] == 'call':
            fn = ((t.get('fn') or {}).get('c') or {}).get('fn') or {}
            n = re.sub(r'::<.*?>(?=::|$)', '', fn.get('name') or fn.get('id') or '')
            out.append('::'.join(n.split('::')[-2:]))
    return out
