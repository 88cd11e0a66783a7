"""The LSIF dump: one entry per line, ids that never repeat, one document for every file of the workspaces, all of it on disk."""
import re
from engine import *
from requests import Base
from process import PARTIAL
from jsonrpc import _lit_bytes

UNITS = ['analyzer_abstractions', 'analyzer_core', 'analyzer_host', 'lsif_p4']
UNIT = 'lsif_p4'
SELF = mk('arg', 1)
WRITES = ('Write::write_all', 'fs::write')
SHORT = ('Write::write',)


def template(t):
    """pieces of a formatted text: literals and the terms put in"""
    while t.op in ('app', 'call') and last(t.a[0] if t.op == 'app' else t.a[1]) in ('format', 'must_use'): t = next(x for x in t.a if isinstance(x, T))
    if t.op != 'fmt': return None
    f = t.a[0]
    if f.op == 'const' and isinstance(f.a[0], str): return [f.a[0]]
    raw = _lit_bytes(f.a[0]) if f.op == 'lit' else None
    if raw is None: return None
    args = [x for _, x in t.a[1].a[2]] if len(t.a) > 1 and t.a[1].op == 'agg' else []
    out, i = [], 0
    while i < len(raw) and raw[i]:
        b = raw[i]
        if b < 0x80: out.append(raw[i + 1:i + 1 + b].decode('latin-1')); i += 1 + b
        elif b == 0xc0 and args and args[0].op == 'fmtarg' and args[0].a[0] == 'display': out.append(args.pop(0).a[1]); i += 1
        else: return None
    return out


def pieces(E, st, t, n=0):
    """what a text is put together from: literals, ('json', what was serialised), ('base', the text before)"""
    t = strip(E.val(st, t, 4)) if n < 30 else t
    p = template(t)
    if p is not None: return [y for x in p for y in ([x] if isinstance(x, str) else pieces(E, st, x, n + 1))]
    if t.op == 'upd' or t.op == 'app' and t.a[0] == 'upd':
        a = [x for x in t.a if isinstance(x, T)]
        names = [x for x in t.a if isinstance(x, str)]
        op = next((x for x in names if '::' in x), '')
        if last(op) in ('push', 'push_str', 'add_assign', 'add', 'write_str', 'write_fmt', 'extend') and len(a) >= 2: return pieces(E, st, a[-2], n + 1) + pieces(E, st, a[-1], n + 1)
        return [('?', t)]
    if t.op == 'fld' and t.a[0] is SELF: return [('base', t)]
    for x in subterms(t):
        if x.op == 'call' and last(x.a[1]) in ('to_string', 'to_vec') and x.a[1].startswith(('ser::', 'serde_json')) and (t is x or t.op in ('fld', 'as')): return [('json', strip(E.val(st, x.a[2], 8)))]
    if t.op == 'const' and isinstance(t.a[0], str): return [t.a[0]]
    return [('?', t)]


def number(t, cnt):
    """offset of a term from the counter on entry"""
    if t.op == 'fld' and t.a[0] is SELF and t.a[1] == cnt: return 0
    if t.op in ('app', 'bin') and t.a[0] in ('Add', 'Sub'):
        x, y = t.a[1], t.a[2]
        if t.a[0] == 'Add' and x.op == 'const': x, y = y, x
        n = number(x, cnt)
        if y.op != 'const' or not isinstance(y.a[0], int) or n is None: return None
        return n + (y.a[0] if t.a[0] == 'Add' else -y.a[0])
    return None


class Entries(Base):
    """a method that changes the writer: what it appends, which ids it uses"""
    def __init__(s, c, P, f, cnt, text):
        Base.__init__(s, c, P); s.f, s.cnt, s.text = f, cnt, text
        s.url = next((mk('arg', i) for i in range(2, f['argc'] + 1) if re.search(r'&(mut )?url::Url$', f['locals'][i]['t'])), None)
        s.returned = 0
    def init(s): return ()
    def partition(s, st, E): return (E.tags(st), len(st.auto))
    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'HashMap::insert':
            return st.auto + ((E.val(st, ev.args[1], 4), E.val(st, ev.args[2], 4)),)
        if kind in ('panic', 'diverge') and F and s.returned:
            t = strip(E.val(st, ev.args[0], 3)) if getattr(ev, 'args', None) else None
            if t is not None and t.op == 'call' and last(t.a[1]) in ('to_string', 'to_vec'): return None
            c.bad('entry:panic', ev.where, 'the dump can be abandoned at %s' % (name or 'a panic'))
        if kind == 'return' and F: s.done(ev, st, E)
        return None

    def done(s, ev, st, E):
        c = s.c
        s.returned += 1
        c.ob('methods of the writer', ev.where)
        now = strip(E.read(st, (('p', SELF), (('f', s.cnt),))))
        end = [number(strip(E.val(st, x, 4)), s.cnt) for x in E.leaves(now)]
        if None in end or not end: c.bad('id:counter', ev.where, 'the counter of ids becomes %s' % show(E.val(st, now, 4), 4)); return
        used, docs = [], []
        text = E.read(st, (('p', SELF), (('f', s.text),)))
        for leaf in E.leaves(text):
            ps = pieces(E, st, leaf)
            if ps[0] != ('base', mk('fld', SELF, s.text)): c.bad('text:replaced', ev.where, 'what was written before is not kept: the text becomes %s' % show(E.val(st, leaf, 4), 3)); continue
            rest, used, docs = ps[1:], [], []
            while rest:
                j, rest = rest[0], rest[1:]
                c.ob('entries', ev.where)
                if isinstance(j, str) or j[0] != 'json': c.bad('text:entry', ev.where, 'what is appended is %s, not an entry as JSON' % (repr(j) if isinstance(j, str) else show(j[1], 3))); break
                if not rest or not isinstance(rest[0], str) or not rest[0] == '\n': c.bad('text:line', ev.where, 'an entry does not end its line'); break
                rest = rest[1:]
                e = j[1]
                if e.op == 'arg': continue
                fs = dict(e.a[2]) if e.op == 'agg' else {}
                i = strip(fs['id']) if 'id' in fs else None
                k = number(strip(i.a[2][0][1]), s.cnt) if i is not None and is_agg(i, 'Number') else None
                if k is None or k < 0 or k >= min(end): c.bad('id:reserved', ev.where, 'the id of an entry is %s, which is not one that was taken from the counter' % (show(i, 4) if i is not None else 'unknown')); continue
                if k in used: c.bad('id:twice', ev.where, 'two entries have the same id')
                used.append(k)
                docs += [(k, strip(dict(x.a[2]).get('uri', x))) for x in subterms(fs.get('data', e)) if x.op == 'agg' and 'uri' in dict(x.a[2]) and 'language_id' in dict(x.a[2])]
            if s.url is not None:
                c.ob('documents', ev.where)
                if len(docs) != 1: c.bad('document:count', ev.where, '%d documents are written for one file' % len(docs)); continue
                k, u = docs[0]
                if E.val(st, u, 4) is not s.url: c.bad('document:uri', ev.where, 'the document written is that of %s, not of the file given' % show(u, 4))
                if [(a is s.url, number(strip(b), s.cnt)) for a, b in st.auto] != [(True, k)]: c.bad('document:recorded', ev.where, 'the id of the document is not recorded for the file')
                for v in E.leaves(ev.val):
                    if number(strip(E.val(st, v, 4)), s.cnt) != k: c.bad('document:answer', ev.where, 'the id answered is not that of the document')


class Disk(Base):
    """a method that writes the dump to disk"""
    def __init__(s, c, P, text): Base.__init__(s, c, P); s.text, s.any = text, False
    def init(s): return (0, False)
    def partition(s, st, E): return (E.tags(st), st.auto[0])
    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        n, _ = st.auto
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in WRITES + SHORT:
            s.any = True
            if F:
                c.ob('writes to disk', ev.where)
                if name in SHORT: c.bad('disk:short', ev.where, 'a single write may write less than the whole dump')
                v = strip(E.val(st, ev.args[1], 5))
                if v is not mk('fld', SELF, s.text): c.bad('disk:content', ev.where, 'what is written to disk is %s, not the whole dump' % show(v, 4))
                if n: c.bad('disk:twice', ev.where, 'the dump is written twice to the same file')
            return (min(n + 1, 2), False)
        if kind == 'call' and name == 'OpenOptions::append' and F: c.bad('disk:append', ev.where, 'the dump is appended to an older one: ids repeat')
        if kind == 'return' and F:
            c.ob('ends of writing to disk', ev.where)
            if n == 0: c.bad('disk:none', ev.where, 'a path does not write the dump')
        return None


class Dump(Base):
    """state: (workspace at hand, its files were looked at, file at hand, it has a document, all workspaces seen, written)"""
    see_bin = True
    def __init__(s, c, P, docs, disk): Base.__init__(s, c, P); s.docs, s.disk, s.entered, s.loop, s.report = docs, disk, set(), False, False
    def init(s): return (None, False, None, False, False, False)
    def stop(s, fid): return fid in s.docs or fid in s.disk or 'buffer_driver' in fid or Base.stop(s, fid)
    def partition(s, st, E): return (E.tags(st), st.auto[0] is None, st.auto[1], st.auto[2] is None) + st.auto[3:]
    def event(s, kind, ev, st, E):
        c, F = s.c, E.final and s.report
        w, seen, f, doc, all_, wr = st.auto
        name, fid = getattr(ev, 'name', ''), getattr(ev, 'id', None)
        if kind == 'enter': s.entered.add(fid)
        if kind in ('next', 'exhausted'):
            it = E.val(st, ev.it, 8)
            sub = list(subterms(it))
            inner = any(x.op == 'fld' and x.a[1] == 'files' for x in sub)
            outer = not inner and any(x.op == 'fld' and x.a[1] == 'workspaces' for x in sub)
            if not inner and not outer: return None
            s.loop = True
            if F:
                c.ob('loops over files', ev.where)
                cut = [x for x in re.findall(r'[a-z_]+', show(it, 8)) if x in PARTIAL + ('filter', 'filter_map', 'find')]
                if cut: c.bad('files:skipped', ev.where, 'files are left out of the dump (%s)' % cut[0])
                if kind == 'next' and f is not None and not doc: c.bad('files:skipped', ev.where, 'a file can be left out of the dump')
                if kind == 'next' and outer and w is not None and not seen: c.bad('files:workspace', ev.where, 'the files of a workspace can be left out of the dump')
            if inner: return (w, kind == 'exhausted', ev.where if kind == 'next' else None, False, all_, wr)
            return (ev.where if kind == 'next' else None, False, None, False, kind == 'exhausted', wr)
        if kind == 'call' and fid in s.docs:
            if F:
                c.ob('documents asked for', ev.where)
                u = E.val(st, ev.args[1], 5)
                while u.op in ('fld', 'as', 'app') and any(isinstance(x, T) for x in u.a): u = next(x for x in u.a if isinstance(x, T))
                if u.op != 'elem': c.bad('files:address', ev.where, 'the document is that of %s, not of a file of the workspace' % show(u, 4))
                if f is None: c.bad('files:address', ev.where, 'a document is written that is not a file of a workspace')
                if doc: c.bad('files:twice', ev.where, 'a file gets two documents')
            return (w, seen, f, True, all_, wr)
        if kind == 'call' and fid in s.disk:
            if F:
                c.ob('ends of the dump', ev.where)
                if not all_: c.bad('dump:early', ev.where, 'the dump is written to disk before all files have a document')
            return (w, seen, f, doc, all_, True)
        if kind in ('panic', 'diverge') and name == 'process::exit' and F:
            c.ob('ends of the program', ev.where)
            if not wr: c.bad('dump:unwritten', ev.where, 'the program ends before the dump is on disk')
        return None


def dump(c):
    P = c.program(UNITS)
    c.rule('entries', 'a method of the writer only appends: each entry as JSON on a line of its own, with an id taken from the counter, which grows and is used for one entry')
    c.rule('document', 'exactly one document is written for the file given, under its address; its id is recorded and answered')
    c.rule('disk', 'the whole text is written to the file, once')
    c.rule('files', 'every file of every workspace gets one document before the dump is written; the program does not end before')
    mine = {i: f for i, f in P.fns.items() if f['unit'] == UNIT}
    ms = {i: f for i, f in mine.items() if f['kind'] == 'method' and f['argc'] and re.match(r'^&(mut )?lsif_p4::[\w:]*LsifWriter$', f['locals'][1]['t'])}
    if not ms: c.missing('the writer of LSIF dumps'); return
    text, cnt, disk, docs = layout(c, P)
    if not text or not cnt: c.missing('the text and the counter of the writer'); return
    for i, f in sorted(ms.items()):
        if f['locals'][1]['t'].startswith('&mut'):
            r = Entries(c, P, f, cnt, text)
            c.ob('entry of the writer', f['id'] if 'id' in f else i)
            c.run_engine(P, r, i)
            if r.url is not None:
                docs.add(i)
                if not r.returned: c.bad('document:never', i, 'no path writes the document of a file')
        else:
            r = Quiet(P, text)
            Engine(P, r, i).run()
            if r.any:
                disk.add(i)
                c.run_engine(P, Disk(c, P, text), i)
    if not disk: c.missing('the method that writes the dump to disk')
    if not docs: c.missing('the method that writes a document')
    cors = sorted(i for i, f in mine.items() if f['kind'] == 'coroutine')
    rules = {}
    for i in cors:
        rules[i] = Dump(c, P, docs, disk)
        Engine(P, rules[i], i).run()
    inside = {x for r in rules.values() for x in r.entered}
    ends = [i for i in cors if rules[i].loop and i not in inside]
    if not ends: c.missing('the loop over the files of the workspaces'); return
    for i in ends:
        c.ob('ways to make a dump', i)
        r = Dump(c, P, docs, disk)
        r.report = True
        c.run_engine(P, r, i)
    c.floor('entries', 2); c.floor('documents', 1); c.floor('writes to disk', 1); c.floor('documents asked for', 1); c.floor('loops over files', 2)


class Quiet(Rule):
    def __init__(s, P, text): s.any = False
    def init(s): return 0
    def stop(s, fid): return False
    def event(s, kind, ev, st, E):
        if kind == 'call' and getattr(ev, 'name', '') in WRITES + SHORT + ('File::create', 'OpenOptions::open'): s.any = True


def layout(c, P):
    """the text and the counter of the writer, by their types"""
    text = cnt = None
    for a in adts(P):
        if a['id'].endswith('::LsifWriter'):
            for v in a['variants']:
                for f in v['fields']:
                    if f['t'] == 'alloc::string::String': text = f['n']
                    elif re.match(r'^[iu](8|16|32|64|size)$', f['t']): cnt = f['n']
    return text, cnt, set(), set()


def adts(P): return P.adts.values() if isinstance(P.adts, dict) else P.adts
