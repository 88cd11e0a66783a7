"""The process around the analyzer: the native file system, and the relay between the client and the host."""
import re
from engine import *
from engine import _strip_generics
from requests import Base, SENDS, RECV
from dispatch import Rec, impls
from host import CLOSE

UNITS = ['analyzer_abstractions', 'analyzer_core', 'analyzer_host', 'p4analyzer', 'p4_analyzer_wasm']
READS = ('read::read', 'fs::read')
PARTIAL = ('skip', 'take', 'step_by', 'skip_while', 'take_while', 'nth', 'last')
PLAIN = ('Path::to_string_lossy', 'Path::display', 'Path::to_str', 'Path::to_owned')


def short(f): return '::'.join(_strip_generics(f['name']).split('::')[-2:])


# ---- C27: the native file system

class Fs(Base):
    """state: (an item that is not yet in the answer, the item is exhausted)"""
    see_bin = True
    def __init__(s, c, P, kind): Base.__init__(s, c, P); s.kind, s.globs, s.vecs, s.all = kind, [], set(), False
    def init(s): return (None, False, False)
    def partition(s, st, E):
        item = st.auto[0]
        return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and k.a[0].op in ('call', 'elem')), st.auto[1], st.auto[2])

    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        item, pushed, done = st.auto
        name = getattr(ev, 'name', '')
        if kind in ('panic', 'assertfail', 'diverge') and F:
            if kind == 'assertfail' and 'resumed' in str(getattr(ev, 'msg', '')): return None
            c.bad(s.kind + ':panic', ev.where, 'the native file system can panic at %s: the server dies with it' % (name or getattr(ev, 'msg', 'an assertion')))
        if kind == 'call' and F:
            c.ob('steps of ' + s.kind, ev.where)
            if name in PRINTS: c.bad(s.kind + ':stdout', ev.where, 'writes to standard output, which belongs to the client')
        if s.kind == 'file_contents':
            if kind == 'return' and F:
                for v in E.leaves(ev.val): s.contents(ev, st, E, E.val(st, v, 6))
            return None
        if kind == 'call' and name == 'glob::glob' or kind == 'call' and name == 'glob::glob_with':
            if F: s.pattern(ev, st, E, E.val(st, ev.args[0], 8))
            return None
        if kind in ('next', 'exhausted') and s.ofglob(ev.it, st, E):
            if F and kind == 'next': s.settled(ev, st, E)
            if F: s.all = True
            cut = [x for x in re.findall(r'[a-z_]+', show(E.val(st, ev.it, 8))) if x in PARTIAL]
            if cut and F: c.bad(s.kind + ':skipped', ev.where, 'files that match are left out of the answer (%s)' % cut[0])
            return (mk('item'), False, kind == 'exhausted')
        if kind == 'call' and name == 'Vec::push' or kind == 'collected':
            v = E.val(st, ev.val if kind == 'collected' else ev.args[1], 6)
            fs = dict(v.a[2]) if v.op == 'agg' else {}
            u = strip(fs.get('uri', v))
            if F: s.uri(ev, u)
            return (item, True, done)
        if kind == 'return' and F:
            c.ob('answers of ' + s.kind, ev.where)
            early = any(k.op == 'var' and f == ('in', frozenset(['Err'])) and k.a[0].op == 'call' and (k.a[0].a[1] in ('Url::to_file_path', 'glob::glob', 'glob::glob_with')) for k, f in st.facts.items())
            if not early and not done: c.bad(s.kind + ':partial', ev.where, 'the answer is given before all files that match were seen')
        return None

    def ofglob(s, it, st, E):
        return any(x.op == 'call' and x.a[1].startswith('glob::glob') for x in subterms(E.val(st, it, 8)))

    def settled(s, ev, st, E):
        item, pushed, done = st.auto
        if item is None or pushed: return
        errs = [k for k, f in st.facts.items() if k.op == 'var' and f == ('in', frozenset(['Err'])) and (k.a[0].op == 'elem' or k.a[0].op == 'call' and k.a[0].a[1] == 'Url::from_file_path')]
        s.c.ob('files that match', ev.where)
        if not errs: s.c.bad(s.kind + ':skipped', ev.where, 'a file that matches can be left out of the answer')

    def uri(s, ev, u):
        c = s.c
        c.ob('addresses given', ev.where)
        b = u
        while b.op in ('fld', 'as'): b = b.a[0]
        if b.op != 'call' or b.a[1] != 'Url::from_file_path': c.bad(s.kind + ':address', ev.where, 'the address given for a file is %s' % show(u, 4)); return
        p = b.a[2]
        while p.op in ('fld', 'as') or p.op == 'call' and last(p.a[1]) in ('clone', 'as_path', 'to_path_buf', 'as_ref', 'canonicalize'): p = p.a[0] if p.op != 'call' else p.a[2]
        if p.op != 'elem': c.bad(s.kind + ':address', ev.where, 'the address is that of %s, not of the file that was found' % show(p, 4))

    def pattern(s, ev, st, E, t):
        c = s.c
        c.ob('patterns', ev.where)
        s.globs.append(t)
        esc = [x for x in subterms(t) if x.op == 'call' and x.a[1] == 'Pattern::escape']
        inside = {y for x in esc for y in subterms(x)}
        folder = [x for x in subterms(t) if x.op == 'call' and x.a[1] == 'Url::to_file_path']
        if not folder: c.bad(s.kind + ':folder', ev.where, 'the files looked for do not lie in the folder asked for: %s' % show(t, 5)); return
        if any(x in inside for x in folder) is False: c.bad(s.kind + ':unescaped', ev.where, 'the name of the folder is read as a pattern: a folder with [ ] * or ? in its name is not enumerated, or others are')
        for x in folder:
            if x.a[2].op != 'arg': c.bad(s.kind + ':folder', ev.where, 'the folder looked into is %s' % show(x.a[2], 4))
        args = {x for x in subterms(t) if x.op == 'arg'} - {y for x in folder for y in subterms(x)}
        if not args: c.bad(s.kind + ':pattern', ev.where, 'the pattern asked for is not used')
        for a in args:
            if a in inside: c.bad(s.kind + ':pattern', ev.where, 'the pattern asked for is escaped: nothing matches it')

    def contents(s, ev, st, E, v):
        c = s.c
        c.ob('answers of ' + s.kind, ev.where)
        if is_agg(v, 'None'):
            if not any(k.op == 'var' and f in (('in', frozenset(['Err'])), ('in', frozenset(['None']))) and fails(k.a[0]) for k, f in st.facts.items()):
                c.bad(s.kind + ':missing', ev.where, 'a file that can be read may be reported as missing')
            return
        x = v.a[2][0][1] if is_agg(v, 'Some') else None
        if x is None: c.bad(s.kind + ':answer', ev.where, 'the answer is %s' % show(v, 5)); return
        x = strip(x)
        while x.op in ('fld', 'as') or x.op == 'app' and x.a[0] in ('from_utf8_lossy', 'to_string', 'into_owned', 'display') or x.op == 'call' and last(x.a[1]) in ('from_utf8_lossy', 'into_owned', 'to_string', 'to_owned'):
            x = strip(x.a[2] if x.op == 'call' else x.a[1] if x.op == 'app' else x.a[0])
        if x.op == 'await': x = x.a[1] if x.a[0] is None or not isinstance(x.a[0], T) else x.a[0]
        r = next((y for y in subterms(x) if y.op == 'call' and y.a[1] in READS), None)
        if r is None or x is not r and x.op not in ('await', 'call'): c.bad(s.kind + ':contents', ev.where, 'the contents are %s, not what was read from the file' % show(v, 6)); return
        p = r.a[2]
        while p.op in ('fld', 'as'): p = p.a[0]
        if p.op != 'call' or p.a[1] != 'Url::to_file_path' or p.a[2].op != 'arg': c.bad(s.kind + ':path', ev.where, 'the file read is %s' % show(r.a[2], 5))


def fails(t):
    """naming the file or reading it (or what was made of these results)"""
    if t.op == 'app' and t.a[0] in ('ok', 'Result::ok') or t.op == 'call' and last(t.a[1]) in ('ok', 'branch', 'map'): return any(fails(x) for x in t.a if isinstance(x, T))
    if t.op == 'call': return t.a[1] == 'Url::to_file_path' or t.a[1] in READS or t.a[1] == 'await' and any(y.op == 'call' and y.a[1] in READS for y in subterms(t))
    return t.op == 'await' and any(y.op == 'call' and y.a[1] in READS for y in subterms(t))


def native_fs(c):
    P = c.program(UNITS)
    c.rule('contents', 'file_contents never panics; Some only of all bytes read from the path of the address asked for; None only if the address has no path or reading it failed')
    c.rule('folder', 'enumerate_folder never panics; the pattern searched is the escaped folder followed by the pattern asked for; every file found is answered with its own address')
    for m in ('file_contents', 'enumerate_folder'):
        for i, fid in impls(P, 'EnumerableFileSystem', m):
            if 'Native' not in i['self_ty']: continue
            if fid is None: c.missing(m); continue
            if fid.endswith('::{closure#0}') and fid[:-13] in P.fns: fid = fid[:-13]       # the future is made by a block inside the method
            r = Made()
            Engine(P, r, fid).run()
            c.ob('entry ' + m, fid)
            if len(r.made) != 1: c.missing('the work of ' + fid); continue
            body, caps = r.made.pop()
            want = [mk('arg', k) for k in range(2, P.fns[fid]['argc'] + 1)]
            if [x for x in caps if x in want] != want or len([x for x in caps if x.op == 'arg' and x not in want and x is not mk('arg', 1)]): c.bad(m + ':arguments', P.fns[fid]['id'], 'the work is done on %s, not on what was asked for' % [show(x, 3) for x in caps])
            rule = Fs(c, P, m)
            c.run_engine(P, rule, body)
            if m == 'enumerate_folder':
                if not rule.globs: c.missing('the search of ' + fid)
                if not rule.all: c.bad(m + ':unused', fid, 'what the search finds is not answered')
    c.floor('entry file_contents', 1); c.floor('entry enumerate_folder', 1); c.floor('answers of file_contents', 2); c.floor('answers of enumerate_folder', 1)


class Made(Rule):
    """the coroutine a function returns, and what it captures"""
    def __init__(s): s.made = set()
    def init(s): return 0
    def stop(s, fid): return False
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                for x in subterms(E.val(st, v, 6)):
                    if x.op == 'agg' and x.a[0] == 'coroutine': s.made.add((x.a[1], tuple(E.val(st, w, 4) for _, w in x.a[2])))


# ---- C28: the relay

PRINTS = ('io::_print', 'stdio::_print')
MESSAGE = 'json_rpc::message::Message'


def is_reader(f): return bool(re.match(r'^core::result::Result<core::option::Option<[\w:]*Message>, ', f['locals'][0]['t']))
def is_writer(f):
    return bool(re.match(r'^core::result::Result<\(\), [\w:]*Error>$', f['locals'][0]['t'])) and any(re.search(r'(^|&(mut )?)[\w:]*json_rpc::message::Message$', l['t']) for l in f['locals'][1:f['argc'] + 1])


class Relay(Base):
    """state: (message read, times it was sent, result of the last send, closed, message received, times it was written, result of the last write, in a thread of its own)"""
    see_bin = True
    def __init__(s, c, P, readers, writers):
        Base.__init__(s, c, P)
        s.readers, s.writers = readers, writers
        s.closes = []
        s.sinks, s.sources, s.threads, s.joined, s.cancels, s.shut, s.read_in, s.write_in, s.stack, s.runs = set(), set(), {}, [], set(), {}, set(), set(), [], False
    def init(s): return (None, 0, None, frozenset(), None, 0, None, ())
    def stop(s, fid): return fid in s.readers or fid in s.writers or Base.stop(s, fid)

    def partition(s, st, E):
        m, n, sr, cl, r, w, wr, inn = st.auto
        p = pay(m, 'Ok') if m is not None else None
        return (E.tags(st), n, w, cl, inn, E.fact_var(st, m) if m is not None else None, E.fact_var(st, p) if p is not None else None, E.fact_var(st, sr) if sr is not None else None,
                E.fact_var(st, r) if r is not None else None, E.fact_var(st, wr) if wr is not None else None)

    def event(s, kind, ev, st, E):
        m, n, sr, cl, r, w, wr, inn = st.auto
        c, F = s.c, E.final
        name, fid = getattr(ev, 'name', ''), getattr(ev, 'id', None)
        if kind == 'call' and name.split('::')[-1] in ('spawn', 'spawn_blocking'):
            for a in ev.args:
                v = E.val(st, a)
                if v.op == 'agg' and v.a[0] == 'closure': s.threads[v.a[1]] = name
        if kind == 'call' and name == 'CancellationToken::run':
            s.runs = True
            v = E.val(st, ev.args[1])
            if v.op == 'agg' and v.a[0] == 'closure': s.cancels.add(v.a[1])
        if kind == 'enter' and fid in s.threads: return (None, 0, None, frozenset(), None, 0, None, (fid,))
        if kind == 'enter': return (m, n, sr, cl if inn else frozenset(), r, w, wr, inn + (fid,) if len(inn) < 6 else inn)
        if kind == 'leave':
            if fid in s.cancels and F: s.shut[ev.where] = s.shut[ev.where] & cl if ev.where in s.shut else cl
            if fid in s.threads:
                if F: s.ended(ev, st, E)
                return (None, 0, None, frozenset(), None, 0, None, ())
            return (m, n, sr, cl, r, w, wr, inn[:-1])
        if kind == 'call' and fid in s.readers:
            if F:
                c.ob('reads of the client', ev.where)
                s.read_in.add(inn[0] if inn else None)
                s.between(ev, st, E)
            return None
        if kind == 'ret' and fid in s.readers: return (ev.val, 0, None, cl, r, w, wr, inn)
        if kind == 'call' and name in SENDS:
            v = strip(E.val(st, ev.args[1], 5))
            if F:
                c.ob('messages passed to the host', ev.where)
                if m is None or v is not strip(pay(pay(m, 'Ok'), 'Some')): c.bad('in:message', ev.where, 'what is passed to the host is %s, not the message that was read' % show(v, 4))
                if n: c.bad('in:twice', ev.where, 'a message of the client is passed to the host twice')
                s.sinks.add(E.val(st, ev.args[0]))
                if name == 'Sender::try_send': c.bad('in:dropped', ev.where, 'a message of the client is dropped if the channel is full')
            return (m, min(n + 1, 2), sr, cl, r, w, wr, inn)
        if kind == 'ret' and (name in SENDS and name != 'Sender::send' or name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in SENDS): return (m, n, ev.val, cl, r, w, wr, inn)
        if kind == 'call' and name in CLOSE: return (m, n, sr, cl | {strip(E.val(st, ev.args[0]))}, r, w, wr, inn)
        if kind == 'call' and name in RECV:
            if F:
                c.ob('receives from the host', ev.where)
                s.sources.add(E.val(st, ev.args[0]))
                s.write_in.add(inn[0] if inn else None)
                s.waiting(ev, st, E, False)
                if r is not None and E.fact_var(st, r) == frozenset(['Err']): c.bad('out:closed', ev.where, 'receives again after the channel was found closed: the process never ends')
            return None
        if kind == 'ret' and (name in RECV and name != 'Receiver::recv' or name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in RECV): return (m, n, sr, cl, ev.val, 0, None, inn)
        if kind == 'call' and fid in s.writers:
            if F:
                c.ob('messages written to the client', ev.where)
                vs = [strip(E.val(st, a, 5)) for a in ev.args]
                if r is None or strip(pay(r, 'Ok')) not in vs: c.bad('out:message', ev.where, 'what is written is not the message received from the host')
                if w: c.bad('out:twice', ev.where, 'a message is written to the client twice')
            return (m, n, sr, cl, r, min(w + 1, 2), wr, inn)
        if kind == 'ret' and fid in s.writers: return (m, n, sr, cl, r, w, ev.val, inn)
        if kind == 'call' and name == 'JoinHandle::join' and F: s.joined.append(E.val(st, ev.args[0], 6))
        if kind in ('panic', 'assertfail', 'diverge') and F:
            if kind == 'assertfail' and 'resumed' in str(getattr(ev, 'msg', '')): return None
            t = strip(E.val(st, ev.args[0], 4)) if getattr(ev, 'args', None) else None
            if t is not None and (t.op == 'call' and t.a[1] in ('JoinHandle::join', 'await') or t.op == 'await'): return None
            c.bad('relay:panic', ev.where, 'the relay can panic at %s: the process stops answering' % (name or getattr(ev, 'msg', '')))
        if kind == 'return' and F:
            c.ob('ends of the relay', ev.where)
        return None

    def state(s, st, E):
        m, n, sr = st.auto[:3]
        if m is None: return 'none'
        a, b = E.fact_var(st, m), E.fact_var(st, pay(m, 'Ok'))
        if a == frozenset(['Err']) or a == frozenset(['Ok']) and b == frozenset(['None']): return 'end'
        if b == frozenset(['Some']): return 'message'
        return 'unknown'

    def between(s, ev, st, E):
        m, n, sr = st.auto[:3]
        k = s.state(st, E)
        if k == 'end': s.c.bad('in:ended', ev.where, 'reads again after the client has disconnected or reading failed: the process never ends')
        if k == 'message' and n == 0: s.c.bad('in:lost', ev.where, 'a message of the client may not be passed to the host')
        if k == 'unknown': s.c.bad('in:unknown', ev.where, 'reads again without having looked at what was read')
        if sr is not None and E.fact_var(st, sr) != frozenset(['Ok']): s.c.bad('in:closed', ev.where, 'reads again although the host may take no more messages: the process never ends')

    def waiting(s, ev, st, E, end):
        r, w, wr = st.auto[4:7]
        if r is None: return
        a = E.fact_var(st, r)
        if a != frozenset(['Err']) and w == 0: s.c.bad('out:lost', ev.where, 'a message of the host may not be written to the client')
        if w and not end and (wr is None or E.fact_var(st, wr) != frozenset(['Ok'])): s.c.bad('out:failed', ev.where, 'goes on after writing to the client failed')
        if w and end and wr is not None and E.fact_var(st, wr) != frozenset(['Err']): s.c.bad('out:ended', ev.where, 'the thread that writes to the client can end although the channel is open and writing succeeded')

    def ended(s, ev, st, E):
        c = s.c
        m, n, sr, cl, r, w, wr, inn = st.auto
        if m is not None:
            c.ob('ends of reading', ev.where)
            k = s.state(st, E)
            if k != 'end' and not (sr is not None and E.fact_var(st, sr) == frozenset(['Err'])): c.bad('in:stopped', ev.where, 'reading can stop although the client is connected and the host takes messages')
            s.closes.append((ev.where, cl))
            if not cl: c.bad('in:open', ev.where, 'the channel to the host stays open when the client has disconnected: the process never ends')
        if r is not None:
            c.ob('ends of writing', ev.where)
            s.waiting(ev, st, E, True)


class Io(Rec):
    """a function that reads or writes one message: does so exactly once on every path and answers with that result"""
    def __init__(s, c, P, what, ops): Rec.__init__(s, c, P); s.what, s.ops = what, ops
    def init(s): return (0, None)
    def stop(s, fid): return fid in s.ops or fid.endswith(s.ends) or Base.stop(s, fid)
    ends = ('::message_read', '::message_write', '::message_read::{closure#0}', '::message_write::{closure#0}')
    def partition(s, st, E): return (E.tags(st), st.auto[0])
    def event(s, kind, ev, st, E):
        n, v = st.auto
        c, F = s.c, E.final
        name, fid = getattr(ev, 'name', ''), getattr(ev, 'id', None) or ''
        if kind == 'call' and (fid in s.ops or name.endswith(('::message_read', '::message_write'))):
            if F and n: c.bad(s.what + ':twice', ev.where, 'one call %ss more than one message' % s.what)
            if F and s.what == 'write' and mk('arg', 2) not in [strip(E.val(st, a, 5)) for a in ev.args]: c.bad('write:message', ev.where, 'what is written is not the message given')
            if F and fid in s.ops:
                c.ob('%s of the console' % s.what, ev.where)
                if not any(x.op == 'call' and x.a[1].endswith('::stdin' if s.what == 'read' else '::stdout') for a in ev.args for x in subterms(E.val(st, a, 5))): c.bad(s.what + ':stream', ev.where, 'a message is not %s' % ('read from standard input' if s.what == 'read' else 'written to standard output'))
            return (min(n + 1, 2), v)
        if kind == 'return' and F:
            c.ob('answers of ' + s.what, ev.where)
            if n != 1: c.bad(s.what + ':none', ev.where, 'a path %ss no message' % s.what)
            for x in E.leaves(ev.val):
                x = strip(E.val(st, x, 4))
                if x.op != 'call' or not any(y.op == 'call' and (y.a[1].endswith(('Message::read', 'Message::write', '::message_read', '::message_write'))) for y in subterms(x)): c.bad(s.what + ':result', ev.where, 'the result is %s, not that of the %s' % (show(x, 4), s.what))
        if kind in ('panic', 'assertfail', 'diverge') and F: c.bad(s.what + ':panic', ev.where, 'can panic at %s' % name)
        return None


def relay(c):
    P = c.program(UNITS)
    c.rule('in', 'every message read is passed to the host exactly once; reading goes on until the client disconnects or the host takes no more; then the channel is closed')
    c.rule('out', 'every message received from the host is written exactly once; the writer ends only when the channel is closed or writing failed')
    c.rule('wiring', 'the driver hands out the opposite ends of its own two channels; cancelling closes both; the driver waits for the writer')
    c.rule('stdout', 'nothing but messages is written to standard output while the server runs')
    unit = 'p4analyzer'
    mine = {i: f for i, f in P.fns.items() if f['unit'] == unit}
    low = {i for i, f in P.fns.items() if f['unit'] == 'analyzer_host' and (is_reader(f) or is_writer(f)) and f.get('self_ty', '') and last(f['self_ty']) == 'Message'}
    readers = {i for i, f in mine.items() if is_reader(f) and f['kind'] in ('fn', 'method') and 'buffer_driver' not in i} | {i for i in low if is_reader(P.fns[i])}
    writers = {i for i, f in mine.items() if is_writer(f) and f['kind'] in ('fn', 'method') and 'buffer_driver' not in i} | {i for i in low if is_writer(P.fns[i])}
    for i in sorted(readers - low): c.run_engine(P, Io(c, P, 'read', {x for x in low if is_reader(P.fns[x])}), i)
    for i in sorted(writers - low): c.run_engine(P, Io(c, P, 'write', {x for x in low if is_writer(P.fns[x])}), i)
    c.floor('read of the console', 1); c.floor('write of the console', 1)

    start = next((i for i in mine if re.search(r'driver::\{impl#\d+\}::start$', i)), None)
    if start is None: c.missing('Driver::start'); return
    body = start + '::{closure#0}' if start + '::{closure#0}' in P.fns else start
    r = Relay(c, P, readers, writers)
    c.run_engine(P, r, body)
    for k in ('reads of the client', 'messages passed to the host', 'receives from the host', 'messages written to the client', 'ends of reading', 'ends of writing'): c.floor(k, 1)
    where = P.fns[body]['id']
    gm = next((i for i in mine if re.search(r'driver::\{impl#\d+\}::get_message_channel$', i)), None)
    if gm is None: c.missing('Driver::get_message_channel'); return
    ends = Ends()
    Engine(P, ends, gm).run()
    want = {(tuple(path(x) for x in t)) for t in ends.got}
    sinks, sources = {path(x) for x in r.sinks}, {path(x) for x in r.sources}
    c.ob('ends handed out', where)
    if len(want) != 1 or len(sinks) != 1 or len(sources) != 1: c.bad('wiring', where, 'messages flow through several channels: handed out %s, passed to %s, written from %s' % (want, sinks, sources))
    else:
        tx, rx = want.pop()
        sk, so = sinks.pop(), sources.pop()
        if sk is None or rx is None or sk[:-1] != rx[:-1] or sk[-1] != '0' or rx[-1] != '1': c.bad('wiring:in', where, 'what the client sends goes to %s, the host receives from %s' % (sk, rx))
        if so is None or tx is None or so[:-1] != tx[:-1] or so[-1] != '1' or tx[-1] != '0': c.bad('wiring:out', where, 'what the host sends goes to %s, the client is sent what comes from %s' % (tx, so))
        if sk is not None and so is not None and sk[:-1] == so[:-1]: c.bad('wiring:same', where, 'both directions use the same channel')
        for w, cl in r.closes:
            if cl and sk is not None and not any(path(x) and path(x)[:-1] == sk[:-1] for x in cl): c.bad('in:open', w, 'the channel to the host stays open when the client has disconnected: the process never ends')
        if not r.runs: c.bad('cancel', where, 'cancelling does not end the driver')
        for w, cl in r.shut.items():
            c.ob('cancellation', w)
            names = {path(x)[:-1] for x in cl if path(x)}
            for e, what in ((sk, 'to'), (so, 'from')):
                if e is not None and e[:-1] not in names: c.bad('cancel:' + what, w, 'cancelling leaves the channel %s the host open: the process never ends' % what)
        c.floor('cancellation', 1)
    if None in r.read_in or None in r.write_in or r.read_in & r.write_in: c.bad('threads', where, 'reading and writing are not done in threads of their own: one waits for the other')
    wr = [x for x in r.write_in if x]
    if not any(any(y.op == 'agg' and y.a[0] == 'closure' and y.a[1] == w for y in subterms(h)) for h in r.joined for w in wr): c.bad('join', where, 'the driver does not wait for the thread that writes: the last messages to the client are lost')
    drivers(c, P, mine)
    command(c, P, mine)
    stdout(c, P)


def path(t):
    """self.a.b as names"""
    t = strip(t)
    out = []
    while t.op in ('fld', 'as'):
        if t.op == 'fld': out.append(str(t.a[1]))
        t = t.a[0]
    return tuple(reversed(out)) if t is mk('arg', 1) else None


class Ends(Rule):
    def __init__(s): s.got = set()
    def init(s): return 0
    def stop(s, fid): return False
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                v = E.val(st, v, 6)
                s.got.add(tuple(strip(x) for _, x in v.a[2]) if v.op == 'agg' else (v,))


def drivers(c, P, mine):
    """the two channels of a driver are two channels"""
    for i, f in sorted(mine.items()):
        if f['kind'] not in ('fn', 'method') or not f['locals'][0]['t'].endswith('driver::Driver'): continue
        e = Ends()
        Engine(P, e, i).run()
        for t in e.got:
            src = [x for x in t if x.op == 'call' and x.a[1].startswith(('async_channel::', 'channel::'))]
            src = [x for x in t if x.op == 'call' and last(x.a[1]) in ('unbounded', 'bounded')]
            if not src: continue
            c.ob('drivers made', i)
            if len(src) != len(set(src)): c.bad('wiring:shared', i, 'both directions of the driver use one channel')


class Run(Base):
    def __init__(s, c, P): Base.__init__(s, c, P); s.host, s.driver, s.fs, s.ends = [], [], [], []
    def init(s): return 0
    def stop(s, fid): return fid.startswith('analyzer_core') or Base.stop(s, fid)
    def event(s, kind, ev, st, E):
        if not E.final: return
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'AnalyzerHost::new': s.host.append((ev.where, [E.val(st, a, 6) for a in ev.args]))
        if kind == 'call' and name in ('Driver::start', 'AnalyzerHost::start'): s.driver.append((name, ev.where, [E.val(st, a, 4) for a in ev.args]))


def command(c, P, mine):
    run = next((b for i, b in impls(P, 'Command', 'run') if b in mine), None)
    if run is None: c.missing('the command that runs the server'); return
    r = Run(c, P)
    c.run_engine(P, r, run)
    for w, a in r.host:
        c.ob('host made', w)
        ch = a[0]
        e = [path(x) for _, x in ch.a[2]] if ch.op == 'agg' else []
        if len(e) != 2 or any(x is None or len(x) < 3 for x in e): c.bad('run:channel', w, 'the host is not given the ends of the channels of the driver')
        if len(a) > 2 and is_agg(a[2], 'None'): c.bad('run:files', w, 'the host has no native file system')
    names = {n for n, _, _ in r.driver}
    for n in ('Driver::start', 'AnalyzerHost::start'):
        if n not in names: c.bad('run:start', run, '%s is not run' % n)
    for n, w, a in r.driver:
        c.ob('parts started', w)
        if len(a) < 2 or strip(a[1]) is not mk('arg', 2): c.bad('run:token', w, '%s does not get the token the process is cancelled with' % n)
    c.floor('host made', 1); c.floor('parts started', 2)


def stdout(c, P):
    """who writes to standard output"""
    for i, f in P.fns.items():
        if f['unit'] == 'p4_analyzer_wasm': continue
        prints, runs = [], []
        for k, b in enumerate(f['blocks']):
            t = b['t']
            if t['k'] != 'call': continue
            fn = ((t.get('fn') or {}).get('c') or {}).get('fn') or {}
            n = _strip_generics(fn.get('name') or fn.get('id') or '')
            if n.endswith('::_print') or last(n) == '_print': prints.append((k, t))
            if f['unit'] == 'p4analyzer' and n.endswith(('::run', 'RunnableCommand::run')): runs.append(k)
        if not prints: continue
        for k, t in prints:
            w = '%s:%d' % (t['s']['f'].split('/repo/')[-1], t['s']['l'])
            c.ob('prints', w)
            if i.startswith('p4analyzer::cli'): continue      # before the server is made
            if runs or i.startswith('p4analyzer::main') and not f['kind'] == 'closure':
                if any(reach(f, k, x) for x in runs): c.bad('stdout', w, 'standard output is written to before the server runs: the client reads it as part of a message')
            else: c.bad('stdout', w, 'standard output, which belongs to the client, is printed to')
    c.floor('prints', 1)


def reach(f, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        for y in targets(f['blocks'][x]['t']):
            if y == b: return True
            if y not in seen: seen.add(y); todo.append(y)
    return False


def targets(t):
    return [x for x in [t.get('t'), t.get('otherwise')] + [x[1] for x in t.get('cases') or []] if isinstance(x, int)]
