"""Who decides what the text of a file is: the editor for open documents, the file system for all others."""
from engine import *
from engine import _strip_generics
from requests import Base, SENDS, RECV
from jsonrpc import method
from dispatch import impls, is_get
from server import UNITS, FCS, SETS, PARTIAL, handlers, canon, uri

SPAWN = 'AsyncPool::spawn_work'
LOAD = 'BackgroundLoad::load'
TEXT = ('Analyzer::update', 'Analyzer::delete', 'Analyzer::file_change_event')
EDITOR = ('DidOpenTextDocument', 'DidChangeTextDocument', 'DidCloseTextDocument', 'DidSaveTextDocument')
WATCH = {1: 'created', 2: 'changed', 3: 'deleted'}
FRESH = ('RwLock::try_read', 'RwLock::try_write', 'await')


class Names:
    """the functions and fields the rule speaks about, found by their types"""
    def __init__(s, c, P):
        s.ok = True
        s.state = next((a for a in P.adts.values() if 'workspace' in a['name'] and any('FutureCompletionSource' in f['t'] for v in a['variants'] for f in v['fields'])), None)
        fs = {f['n']: f['t'] for v in (s.state['variants'] if s.state else []) for f in v['fields']}
        s.open = next((n for n, t in fs.items() if t == 'bool'), None)
        s.unit = next((n for n, t in fs.items() if 'FutureCompletionSource' in t), None)
        s.files = {last(f['self_ty']): i for i, f in P.fns.items() if f['unit'] == 'analyzer_host' and f['kind'] == 'method' and f['argc'] == 2 and f['self_ty'] and last(f['self_ty']) in ('WorkspaceManager', 'Workspace')
                   and re.search(r'Arc<.*workspace::File>', f['locals'][0]['t']) and last(f['locals'][2]['t']) == 'Url'}
        s.wm, s.ws = s.files.get('WorkspaceManager'), s.files.get('Workspace')
        s.wmname = 'WorkspaceManager::' + last(s.wm or '?')
        s.wsname = 'Workspace::' + last(s.ws or '?')
        if not s.open or not s.unit or not s.wm or not s.ws: c.missing('the state of a file and the lookup of files'); s.ok = False


def fresh(t):
    """a source that is new and was given no outcome"""
    t = strip(t)
    while t.op == 'upd': t = strip(t.a[2])
    return t if t.op == 'call' and t.a[1] == FCS + '::new' else None


def file_of(t, nm):
    """the address of the file a value belongs to"""
    for x in subterms(t):
        if x.op == 'call' and x.a[1] in (nm.wmname, nm.wsname): return uri(x.a[3])
        if x.op == 'ref' and x.a[0][0][0] == 'p':
            u = file_of(x.a[0][0][1], nm)
            if u is not None: return u
    return None


def contents_of(t):
    """the address whose contents were read from the file system"""
    for x in subterms(t):
        if x.op == 'call' and x.a[1].endswith('::file_contents'): return uri(x.a[3] if len(x.a) > 3 else x.a[-1])
    return None


def document(t, *path):
    """the member `path` of the parameters of a message"""
    t = uri(t)
    for n in reversed(path):
        if t.op != 'fld' or t.a[1] != n: return False
        t = uri(t.a[0])
    return t.op == 'arg'


class Effects(Base):
    """state: (open flags stored, done, stale facts, element of a list of changes being treated, loops finished, last received)"""
    see_bin = False
    def __init__(s, c, P, nm): Base.__init__(s, c, P); s.nm, s.spawned, s.stored = nm, [], set()
    def init(s): return ((), frozenset(), frozenset(), None, frozenset(), None)
    def stop(s, fid): return fid in (s.nm.wm, s.nm.ws) or fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid

    def opens(s, E, st, u, stale=()):
        """what the path knows about the file being open in the editor"""
        for x, v in reversed(st.auto[0]):
            if x is u: return v
        r = set()
        for k, f in st.facts.items():
            if k.op == 'fld' and k.a[1] == s.nm.open and k not in stale and file_of(k.a[0], s.nm) is u and f[0] == 'in' and len(f[1]) == 1: r |= f[1]
        return next(iter(r)) if len(r) == 1 else None

    def partition(s, st, E):
        a = st.auto
        facts = frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'fld' and (k.a[1] == s.nm.open or is_typ(k) or is_typ(k.a[0]))
                          or k.op == 'var' and (k.a[0].op == 'call' and k.a[0].a[1] == 'await' and s.kept(k.a[0]) or k.a[0].op == 'fld' and k.a[0].a[1] in ('text', 'range') or k.a[0] is a[5]) and k.a[0].op != 'phi')
        return (E.tags(st), a, facts)

    def kept(s, t): return any(x.op == 'call' and (x.a[1].endswith('::file_contents') or x.a[1] in RECV) for x in subterms(t))

    def event(s, kind, ev, st, E):
        opens, done, stale, elem, loops, msg = st.auto
        name = getattr(ev, 'name', '')
        c, F, nm = s.c, E.final, s.nm
        if kind in ('yield', 'await'):
            stale = frozenset(k for k, f in st.facts.items() if k.op == 'fld' and k.a[1] == nm.open)
        elif kind == 'ret' and name in FRESH and stale:
            stale = frozenset(k for k in stale if not contains(k, ev.val))
        elif kind == 'store':
            f = ev.loc[1][-1] if ev.loc[1] else None
            if F and not (f and f[0] == 'f' and f[1] == nm.open): s.stored |= managers(E.val(st, ev.val, 9))
            if f == ('f', nm.open):
                u = file_of(ev.loc[0][1], nm) if ev.loc[0][0] == 'p' else None
                v = E.val(st, ev.val)
                if u is not None:
                    opens = tuple(x for x in opens if x[0] is not u) + ((u, v.a[0] if v.op == 'const' else None),)
                    if F: s.set_open(ev, st, E, u, v.a[0] if v.op == 'const' else None)
            elif f == ('f', nm.unit) and ev.loc[0][0] == 'p':
                u = file_of(ev.loc[0][1], nm)
                if u is not None:
                    v = E.val(st, ev.val, 6)
                    if F: s.set_unit(ev, st, E, u, v)
                    n = fresh(v)
                    done = done - {x for x in done if x[0] == 'pending' and x[1] is u}
                    done = done | ({('unit', u)} if n is None or ('set', n) in done else {('pending', u, n)})
            elif ev.loc[0][0] == 'p' and not ev.loc[1]:
                u = file_of(ev.loc[0][1], nm)
                if u is not None and any(x.op == 'fld' and x.a[1] == nm.unit or x.op == 'ref' and x.a[0][1] and x.a[0][1][-1] == ('f', nm.unit) for x in subterms(ev.loc[0][1])) and name != 'Analyzer::update':
                    if F: s.set_unit(ev, st, E, u, E.val(st, ev.val, 6))
                    done = done | {('unit', u)}
        elif kind == 'call' and name in SETS:
            u = file_of(ev.args[0], nm)
            n = fresh(E.val(st, ev.args[0], 6))
            if n is not None:
                done = done | {('set', n)} | {('unit', x[1]) for x in done if x[0] == 'pending' and x[2] is n}
                done = done - {x for x in done if x[0] == 'pending' and x[2] is n}
            if u is not None:
                if F: s.set_unit(ev, st, E, u, E.val(st, ev.args[1], 6), name == SETS[1])
                done = done | {('unit', u)}
        elif kind == 'call' and name in TEXT:
            i = canon(E.val(st, ev.args[1]))
            u = uri(E.val(st, ev.args[1])) if name == TEXT[1] else i.a[0] if i.op == 'fileid' else file_of(i, nm)
            if u is None or u.op == 'call' and u.a[1] in (nm.wmname,):
                if F: c.bad('file:' + name, ev.where, '%s is called for %s, which is not the identifier of the address of a file' % (name, show(i, 4)))
            else:
                if F: s.text(ev, st, E, name, u)
                done = done | {(name, u)}
        elif kind == 'call' and name == LOAD:
            u = uri(E.val(st, ev.args[1]))
            if F: s.loaded(ev, st, E, u)
            done = done | {('load', u)}
        elif kind == 'call' and name == SPAWN:
            v = E.val(st, ev.args[0], 6)
            if F: s.spawn(ev, st, E, v)
            if msg is not None and contains(v, pay(msg, 'Ok')): done = done | {('spawn', pay(msg, 'Ok'))}
        elif kind == 'call' and name in RECV:
            if F: s.next_message(ev, st, E)
            msg, done = None, frozenset()
        elif kind == 'ret' and (name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in RECV or name in RECV and name != 'Receiver::recv'): msg = ev.val
        elif kind == 'next' and ev.it.op == 'it' and document(strip(ev.it.a[1]), 'content_changes'):
            if F and any(o[0] in PARTIAL + ('filter', 'rev', 'filter_map') for o in ev.it.a[2] if isinstance(o, tuple)): c.bad('change:order', ev.where, 'not every change of the document is made, or not in order')
        elif kind == 'next' and s.watches(ev.it):
            if elem is not None and F: s.element(ev, st, E, elem)
            done, opens, stale = frozenset(), (), frozenset()
            elem = (ev.call.site, ev.it)
            if F and any(o[0] in PARTIAL + ('filter', 'take') for o in ev.it.a[2] if isinstance(o, tuple)): c.bad('watch:partial', ev.where, 'not every change of a watched file is treated')
        elif kind == 'exhausted' and s.watches(ev.it): elem, done, loops = None, frozenset(), loops | {ev.call.site}
        elif kind == 'collected' and F: s.change(ev, st, E, E.val(st, ev.val, 6))
        elif kind == 'store' and name == 'Vec::push' and F: s.change(ev, st, E, E.val(st, ev.val, 6))
        elif kind == 'return' and F:
            for x in done:
                if x[0] == 'pending': c.bad('unit:pending', ev.where, 'the completion of %s is replaced by one that is never completed: who waits for the file waits for ever' % show(x[1], 3))
            if elem is not None: s.element(ev, st, E, elem); c.bad('watch:early', ev.where, 'the remaining changes of watched files are not treated')
            s.returned(ev, st, E)
        if kind == 'call' and name == 'Vec::push' and F: s.change(ev, st, E, E.val(st, ev.args[1], 6))
        return (opens, done, stale, elem, loops, msg)

    def watches(s, it): return it.op == 'it' and document(strip(it.a[1]), 'changes')
    def change(s, ev, st, E, v): pass
    def set_open(s, ev, st, E, u, v): s.c.bad('open:' + str(v), ev.where, 'only messages about documents opened and closed may change whether a file is open')
    def text(s, ev, st, E, name, u): pass
    def loaded(s, ev, st, E, u): pass
    def next_message(s, ev, st, E): pass
    def element(s, ev, st, E, elem): pass
    def returned(s, ev, st, E): pass

    def set_unit(s, ev, st, E, u, v, err=False):
        """what a file is completed with is its own identifier"""
        c = s.c
        c.ob('completion of a file', ev.where)
        ids = [canon(x) for x in subterms(v) if x.op == 'call' and x.a[1] == 'Analyzer::file_id']
        if any(i.a[0] is not u for i in ids) or (not ids and not err and file_of(v, s.nm) not in (None, u)): c.bad('unit:other', ev.where, 'the file %s is completed with the identifier of another file' % show(u, 3))

    def spawn(s, ev, st, E, v):
        for x in subterms(v):
            if x.op == 'agg' and x.a[0] == 'coroutine': s.spawned.append((x.a[1], ev.where, x)); break

    def guarded(s, ev, st, E, u, what, stale=True):
        """an effect on the text of a file by anybody but the editor"""
        s.c.ob('effect not made by the editor', ev.where)
        if s.opens(E, st, u, st.auto[2] if stale else ()) is not False:
            s.c.bad('authority:' + what, ev.where, '%s of %s although the file may be open in the editor%s: the text of the editor is lost' % (what, show(u, 3), ' by now' if s.opens(E, st, u) is False else ''))

    def of_disk(s, E, st, v, u):
        v = [E.val(st, x, 6) for x in E.leaves(v)]
        for x in v:
            w = contents_of(x)
            if w is u: continue
            if w is None and x.op == 'const' and x.a[0] == '': continue
            if w is None and x.op in ('default', 'app') : continue
            return False
        return True


class Editor(Effects):
    """a message about a document of the editor"""
    def __init__(s, c, P, nm, h): Effects.__init__(s, c, P, nm); s.h = h; s.made = 0
    def subject(s, u): return document(u, 'text_document', 'uri')

    def set_open(s, ev, st, E, u, v):
        s.c.ob('flag of an open document', ev.where)
        want = False if s.h.msg.startswith('DidClose') else True
        if v is not want or not s.subject(u): s.c.bad('open:%s' % s.h.msg, ev.where, '%s sets the flag of %s to %s' % (s.h.msg, show(u, 3), v))

    def text(s, ev, st, E, name, u):
        c, m = s.c, s.h.msg
        c.ob('text of a document', ev.where)
        if not s.subject(u): c.bad('file:' + m, ev.where, '%s changes the text of %s instead of the document of the message' % (m, show(u, 3))); return
        v = E.val(st, ev.args[2], 6) if len(ev.args) > 2 else None
        if name == TEXT[0]:
            p = ('text_document', 'text') if m.startswith('DidOpen') else ('text',)
            t = uri(v)
            if is_agg(t, 'Some'): t = pay(t, 'Some')
            w = t.a[0] if t.op == 'fld' and t.a[1] in ('0', 0) else t
            if w.op == 'as': w = w.a[0]
            if m.startswith(('DidClose', 'DidChange')): c.bad('text:' + m, ev.where, '%s replaces the text of the document by %s' % (m, show(v, 3)))
            elif not (document(t, *p) or document(w, *p)): c.bad('text:' + m, ev.where, '%s sets the text of the document to %s instead of the text of the message' % (m, show(v, 3)))
        elif name == TEXT[1] and not m.startswith('DidClose'): c.bad('text:' + m, ev.where, '%s drops the text of the document' % m)
        elif name == TEXT[2]:
            if not m.startswith('DidChange'): c.bad('text:' + m, ev.where, '%s changes the text of the document' % m)
            for w in E.leaves(ev.args[2]):
                w = E.val(st, w, 6)
                if w.op == 'agg' and not contains_elem(w) and w.a[2]: c.bad('change:some', ev.where, 'only some changes of the message are made: %s' % show(w, 4))
            if (name, u) in st.auto[1] and not contains_elem(v): c.bad('text:twice', ev.where, 'the changes of the message are made twice')

    def change(s, ev, st, E, v):
        """the changes given to the analyzer are those of the message"""
        for x in E.leaves(v):
            x = E.val(st, x, 6)
            if x.op != 'agg' or last(x.a[0]) != 'ChangeEvent': continue
            s.made += 1
            s.c.ob('change of a document', ev.where)
            f = dict(x.a[2])
            t = uri(f['text'])
            e = t.a[0] if t.op == 'fld' and t.a[1] == 'text' else None
            if e is None or e.op != 'elem' or not any(document(y, 'content_changes') for y in subterms(e) if y.op == 'fld'): s.c.bad('change:text', ev.where, 'the text of a change is %s' % show(t, 4)); continue
            for r in E.leaves(f['range']):
                r = E.val(st, r, 8)
                if is_agg(r, 'None'):
                    if E.fact_var(st, mk('fld', e, 'range')) == frozenset(['Some']): s.c.bad('change:range', ev.where, 'a change with a range is made to the whole document')
                    continue
                if is_agg(r, 'Some'): s.range(ev, st, E, pay(r, 'Some'), e)
                elif r is not mk('fld', e, 'range'): s.c.bad('change:range', ev.where, 'the range of a change is %s' % show(r, 4))

    def range(s, ev, st, E, r, e):
        c = s.c
        r = E.val(st, r, 8)
        if r.op != 'agg': c.bad('change:range', ev.where, 'the range of a change is %s' % show(r, 4)); return
        for side, p in r.a[2]:
            p = E.val(st, p, 8)
            if p.op != 'agg': c.bad('change:range', ev.where, 'the %s of a range is %s' % (side, show(p, 4))); continue
            for m, v in p.a[2]:
                v = strip(E.val(st, v, 8))
                while v.op in ('cast', 'app') and len(v.a) and any(isinstance(y, T) for y in v.a): v = next(y for y in v.a if isinstance(y, T))
                q = []
                while v.op == 'fld': q.append(v.a[1]); v = strip(v.a[0])
                if q[:2] != [m, side] or not any(y is e for y in subterms(v)): c.bad('change:%s.%s' % (side, m), ev.where, 'the %s of the %s of a range is taken from %s of the message' % (m, side, '.'.join(reversed(q[:2])) or show(v, 3)))

    def returned(s, ev, st, E):
        c, m = s.c, s.h.msg
        if any(is_agg(v, 'Err') for v in E.leaves(ev.val)): return
        c.ob('end of a message about a document', ev.where)
        opens, done = st.auto[0], st.auto[1]
        us = {x[1] for x in done if x[0] != 'set'} | {u for u, v in opens}
        u = next((u for u in us if s.subject(u)), None)
        is_open = dict(opens).get(u) if u is not None else None
        def need(k, what):
            if u is None or (k, u) not in done: c.bad('missing:%s:%s' % (m, k), ev.where, '%s can end without %s' % (m, what))
        if m.startswith('DidOpen'):
            need(TEXT[0], 'giving the text of the document to the analyzer')
            need('unit', 'completing the file')
            if is_open is not True: c.bad('missing:open', ev.where, 'a document that is opened is not marked as open: what is on disk replaces the text of the editor')
        elif m.startswith('DidChange'): need(TEXT[2], 'making the changes of the document')
        elif m.startswith('DidClose'):
            if u is None or (TEXT[1], u) not in done and ('load', u) not in done: c.bad('missing:delete', ev.where, 'a document that is closed keeps the text of the editor')
            if is_open is not False: c.bad('missing:close', ev.where, 'a document that is closed is not marked as closed: changes on disk are ignored from then on')
        elif m.startswith('DidSave'):
            none = any(k.op == 'var' and k.a[0].op == 'fld' and k.a[0].a[1] == 'text' and f == ('in', frozenset(['None'])) for k, f in st.facts.items())
            if not none: need(TEXT[0], 'giving the saved text to the analyzer')


class Watch(Effects):
    """changes of watched files, and messages that are about no document"""
    def __init__(s, c, P, nm, h): Effects.__init__(s, c, P, nm); s.h = h; s.treated = 0

    def kinds(s, st):
        for k, f in st.facts.items():
            if f[0] == 'in' and (is_typ(k) or k.op == 'fld' and is_typ(k.a[0])): return {WATCH.get(x, 'other') for x in f[1]}
            if f[0] == 'ni' and (is_typ(k) or k.op == 'fld' and is_typ(k.a[0])): return {WATCH.get(x, 'other') for x in (0, 1, 2, 3) if x not in f[1]}
        return {'created', 'changed', 'deleted', 'other'}

    def subject(s, u, elem):
        t = uri(u)
        return t.op == 'fld' and t.a[1] == 'uri' and t.a[0].op == 'elem' and elem is not None

    def text(s, ev, st, E, name, u):
        c = s.c
        elem = st.auto[3]
        c.ob('text of a watched file', ev.where)
        if elem is None or not s.subject(u, elem): c.bad('file:' + s.h.msg, ev.where, '%s changes the text of %s' % (s.h.msg, show(u, 3))); return
        s.guarded(ev, st, E, u, {'Analyzer::update': 'update', 'Analyzer::delete': 'deletion'}.get(name, 'change'), stale=False)
        k = s.kinds(st)
        if name == TEXT[1] and k - {'deleted'}: c.bad('watch:deleted', ev.where, 'a watched file that was %s is deleted from the analyzer' % ' or '.join(sorted(k - {'deleted'})))
        if name == TEXT[0]:
            if k & {'deleted', 'other'}: c.bad('watch:updated', ev.where, 'a watched file is updated when it was %s' % ' or '.join(sorted(k & {'deleted', 'other'})))
            if not s.of_disk(E, st, ev.args[2], u): c.bad('watch:contents', ev.where, 'a watched file gets the text %s instead of its contents' % show(E.val(st, ev.args[2], 6), 4))

    def set_unit(s, ev, st, E, u, v, err=False):
        Effects.set_unit(s, ev, st, E, u, v, err)
        s.guarded(ev, st, E, u, 'completion', stale=False)

    def element(s, ev, st, E, elem):
        c = s.c
        c.ob('change of a watched file', ev.where)
        s.treated += 1
        k = s.kinds(st)
        u = next((x[1] for x in st.auto[1] if x[0] != 'set' and s.subject(x[1], elem)), None)
        known = [f for t, f in st.facts.items() if t.op == 'fld' and t.a[1] == s.nm.open and contains_elem(t)]
        if ('in', frozenset([True])) in known: return
        did = {x[0] for x in st.auto[1] if x[1] is u}
        if k == {'deleted'} and TEXT[1] not in did: c.bad('watch:notdeleted', ev.where, 'a watched file that was deleted and is not open stays in the analyzer')
        if k <= {'created', 'changed'} and not did & {TEXT[0], 'load'}: c.bad('watch:notupdated', ev.where, 'a watched file that was %s and is not open is neither read again nor loaded' % ' or '.join(sorted(k)))
        if k & {'deleted', 'created', 'changed'} and len(k) > 1 and not did and 'other' not in k: c.bad('watch:ignored', ev.where, 'a change of a watched file is ignored')

    def returned(s, ev, st, E):
        if s.h.msg != 'DidChangeWatchedFiles': return
        if any(is_agg(v, 'Err') for v in E.leaves(ev.val)): return
        if not st.auto[4]: s.c.bad('watch:none', ev.where, 'changes of watched files can be left untreated')


def managers(t):
    """the tables of workspaces in a value"""
    return {v for x in subterms(t) if x.op == 'agg' and last(str(x.a[0])) == 'WorkspaceManager' for n, v in x.a[2] if n == 'workspaces'}


def is_typ(t): return t.op == 'fld' and t.a[1] == 'typ'


def contains_elem(t): return any(x.op == 'elem' for x in subterms(t))


class Background(Effects):
    """a task that reads files from the file system"""
    def __init__(s, c, P, nm, where): Effects.__init__(s, c, P, nm); s.at, s.reads, s.recvs = where, 0, []

    def text(s, ev, st, E, name, u):
        s.c.ob('text of a file read in the background', ev.where)
        s.guarded(ev, st, E, u, {'Analyzer::update': 'update', 'Analyzer::delete': 'deletion'}.get(name, 'change'))
        if name == TEXT[0] and not s.of_disk(E, st, ev.args[2], u): s.c.bad('background:contents', ev.where, 'a file gets the text %s instead of its contents' % show(E.val(st, ev.args[2], 6), 4))

    def set_unit(s, ev, st, E, u, v, err=False):
        Effects.set_unit(s, ev, st, E, u, v, err)
        s.guarded(ev, st, E, u, 'completion')
        read = {f for k, f in st.facts.items() if k.op == 'var' and k.a[0].op == 'call' and s.kept(k.a[0]) and contents_of(k.a[0]) is u}
        is_err = err or any(x.op == 'agg' and last(str(x.a[0])) == 'IndexError' for x in subterms(v)) or any(x.op == 'call' and x.a[1] == SETS[1] for x in subterms(v)) or v.op == 'call' and v.a[1] == FCS + '::new'
        if is_err and ('in', frozenset(['Some'])) in read: s.c.bad('background:error', ev.where, 'a file whose contents were read is completed with an error')
        if not is_err and (TEXT[0], u) not in st.auto[1]: s.c.bad('background:empty', ev.where, 'a file is completed before its contents were given to the analyzer')

    def subject(s, st):
        us = {x[1] for x in st.auto[1] if x[1].op == "arg"}
        for k in st.facts:
            if k.op == 'fld' and k.a[1] == s.nm.open:
                u = file_of(k.a[0], s.nm)
                if u is not None: us.add(u)
        return us

    def settled(s, st, E, u): return ('unit', u) in st.auto[1] or any(k.op == 'fld' and k.a[1] == s.nm.open and file_of(k.a[0], s.nm) is u and f == ('in', frozenset([True])) for k, f in st.facts.items())

    def next_message(s, ev, st, E):
        msg = st.auto[5]
        s.recvs.append(E.val(st, ev.args[0]))
        if msg is None: return
        s.c.ob('request for a file', ev.where)
        if E.fact_var(st, msg) == frozenset(['Err']): s.c.bad('background:loop', ev.where, 'the task waits for requests although the channel is closed'); return
        u = pay(msg, 'Ok')
        if ('spawn', u) not in st.auto[1] and not s.settled(st, E, u): s.c.bad('background:dropped', ev.where, 'a request to load a file is dropped: who waits for the file waits for ever')

    def returned(s, ev, st, E):
        c, msg = s.c, st.auto[5]
        if s.recvs:
            if msg is None or E.fact_var(st, msg) != frozenset(['Err']): c.bad('background:ends', ev.where, 'the task that loads files ends although its channel is not closed')
            return
        c.ob('end of a background task', ev.where)
        us = s.subject(st)
        if not us: c.bad('background:unsettled', ev.where, 'a task that loads a file can end without having settled any file'); return
        for u in us:
            if not s.settled(st, E, u): c.bad('background:unsettled', ev.where, 'a task that loads a file can end without completing the file: who waits for it waits for ever')


class Lookup(Base):
    """a file is entered into its workspace once, and loaded when it is
    state: (inserted keys, loaded keys, iterating, exhausted)"""
    def __init__(s, c, P, nm): Base.__init__(s, c, P); s.nm, s.inserts, s.elems = nm, 0, []
    def init(s): return (frozenset(), frozenset(), None, False)
    def model(s, name):
        if name == 'HashMap::insert': return None
        return Base.model(s, name)
    def partition(s, st, E):
        return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and k.a[0].op == 'call' and k.a[0].a[1] in ('HashMap::entry',) or s.keyed(k)))
    def keyed(s, k):
        return k.op in ('call', 'app', 'get') and 'contains_key' in str(k.a[:2]) or k.op == 'var' and (is_get(k.a[0]) or k.a[0].op == 'call' and k.a[0].a[1].endswith('HashMap::get'))

    def event(s, kind, ev, st, E):
        ins, loads, elem, done = st.auto
        name = getattr(ev, 'name', '')
        c, F = s.c, E.final
        if kind == 'call' and name in ('VacantEntry::insert', 'VacantEntry::insert_entry', 'HashMap::insert', 'Entry::or_insert', 'Entry::or_insert_with', 'Entry::insert_entry', 'OccupiedEntry::insert'):
            k, v = s.key(E, st, ev, name)
            if F:
                s.inserts += 1
                c.ob('file entered into a workspace', ev.where)
                if name == 'OccupiedEntry::insert' or name == 'Entry::insert_entry': c.bad('lookup:replaced', ev.where, 'a file that is known already is replaced: whoever holds it no longer learns about it, and whether it is open is forgotten')
                elif name == 'HashMap::insert' and not s.absent(E, st, k): c.bad('lookup:replaced', ev.where, 'a file that may be known already is replaced: whoever holds it no longer learns about it, and whether it is open is forgotten')
                if v is not None: s.fresh(ev, st, E, k, v)
            ins = ins | {k}
        elif kind == 'call' and name == LOAD: loads = loads | {uri(E.val(st, ev.args[1]))}
        elif kind == 'next' and ev.it.op == 'it':
            if elem is not None and F: s.element(ev, st, E, elem)
            ins, loads = frozenset(), frozenset()
            elem = ev.it
            if F and s.documents(ev.it):
                s.elems.append(ev.where)
                if any(o[0] in PARTIAL + ('filter',) for o in ev.it.a[2] if isinstance(o, tuple)): c.bad('index:partial', ev.where, 'not every document that was found becomes known')
        elif kind == 'exhausted' and ev.it.op == 'it': elem, done = None, done or s.documents(ev.it)
        elif kind == 'return' and F: s.returned(ev, st, E)
        return (ins, loads, elem, done)

    def documents(s, it): return any(x.op == 'call' and x.a[1].endswith('::enumerate_folder') for x in subterms(it.a[1]))

    def key(s, E, st, ev, name):
        if name == 'HashMap::insert': return uri(E.val(st, ev.args[1])), E.val(st, ev.args[2], 8)
        t = E.val(st, ev.args[0], 8)
        e = next((x for x in subterms(t) if x.op == 'call' and x.a[1] == 'HashMap::entry'), None)
        v = E.val(st, ev.args[1], 8) if len(ev.args) > 1 and name != 'Entry::or_insert_with' else None
        return (uri(e.a[3]) if e is not None else None), v

    def absent(s, E, st, k):
        for t, f in st.facts.items():
            if not s.keyed(t): continue
            if k is not None and not any(uri(x) is k for x in subterms(t)): continue
            if t.op == 'var' and f == ('in', frozenset(['None'])) or t.op != 'var' and f == ('in', frozenset([False])): return True
        return False

    def fresh(s, ev, st, E, k, v):
        """a file that becomes known is not open, and nothing is known about it yet"""
        c, nm = s.c, s.nm
        fs = next((x for x in subterms(v) if x.op == 'agg' and last(str(x.a[0])) == last(nm.state['name'])), None)
        if fs is None: return
        d = dict(fs.a[2])
        if d.get(nm.open) is not FALSE_T(d.get(nm.open)): c.bad('lookup:open', ev.where, 'a file that becomes known is open although no document was opened')
        u = d.get(nm.unit)
        if u is not None and not (u.op == 'call' and u.a[1] == FCS + '::new'): c.bad('lookup:unit', ev.where, 'a file that becomes known is completed before it was loaded')
        if k is not None and not any(uri(x) is k or mk('fld', strip(x), 'uri') is k for x in subterms(v)): c.bad('lookup:key', ev.where, 'a file is entered under the address of another file')

    def settle(s, ev, st):
        ins, loads = st.auto[0], st.auto[1]
        for k in ins:
            s.c.ob('file that became known is loaded', ev.where)
            if k not in loads: s.c.bad('lookup:notloaded', ev.where, 'a file that becomes known is not loaded: who waits for it waits for ever')

    def element(s, ev, st, E, elem):
        if not s.documents(elem): return
        s.settle(ev, st)
        if st.auto[0]: return
        for k, f in st.facts.items():
            if k.op == 'var' and k.a[0].op == 'call' and k.a[0].a[1] == 'HashMap::entry' and f == ('in', frozenset(['Occupied'])): return
            if s.keyed(k) and f in (('in', frozenset(['Some'])), ('in', frozenset([True]))): return
        s.c.bad('index:skipped', ev.where, 'a document that was found and is not known does not become known')

    def returned(s, ev, st, E): s.settle(ev, st)


def FALSE_T(t): return t if t is not None and t.op == 'const' and t.a[0] is False else None


class GetFile(Lookup):
    """the lookup of a file in a workspace"""
    def returned(s, ev, st, E):
        Lookup.returned(s, ev, st, E)
        c = s.c
        c.ob('file looked up', ev.where)
        for v in E.leaves(ev.val):
            v = E.val(st, v, 8)
            if any(x.op == 'call' and x.a[1] in ('HashMap::entry', 'HashMap::get', 'OccupiedEntry::get') or x.op == 'get' for x in subterms(v)): continue
            if v.op == 'box' or v.op == 'agg' or v.op == 'call' and v.a[1] == 'Arc::new':
                if not st.auto[0] and not s.conditional: c.bad('lookup:lost', ev.where, 'the file returned is not entered into the workspace: nobody completes it')
                continue
    conditional = True


class Index(Lookup):
    def returned(s, ev, st, E):
        Lookup.returned(s, ev, st, E)
        s.c.ob('end of the indexing of a workspace', ev.where)
        if st.auto[3]: return
        for k, f in st.facts.items():
            if any(x.op == 'call' and x.a[1].endswith('::enumerate_folder') for x in subterms(k)) and k.op != 'var' and f[0] == 'in' and len(f[1]) == 1: return     # nothing was found
        s.c.bad('index:none', ev.where, 'the indexing of a workspace can end without having entered the documents found')


class Choose(Base):
    """the workspace a file belongs to.  state: (base with a final slash)"""
    def __init__(s, c, P, nm): Base.__init__(s, c, P); s.nm, s.compared, s.results = nm, 0, []
    def stop(s, fid): return fid == s.nm.ws
    def init(s): return frozenset()
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op in ('app', 'ends_with', 'starts_with', 'call') or k.op == 'var' and k.a[0].op == 'call'))
    def event(s, kind, ev, st, E):
        slash = st.auto
        name = getattr(ev, 'name', '')
        c, F = s.c, E.final
        if kind == 'next': slash = frozenset()
        elif kind == 'call' and name in ('Url::set_path', 'PathSegmentsMut::push', 'PathSegmentsMut::pop_if_empty'): slash = slash | {'set'}
        elif kind == 'call' and name == 'Url::make_relative' and F:
            s.compared += 1
            c.ob('comparison of a folder with a file', ev.where)
            if not 'set' in slash and not any(s.is_slash(k) and f == ('in', frozenset([True])) for k, f in st.facts.items()):
                c.bad('folder:sibling', ev.where, 'the address of a folder may lack its final slash here: the files beside the folder are taken for files in it')
            t = uri(E.val(st, ev.args[1]))
            if t is not mk('arg', 2): c.bad('folder:target', ev.where, 'a folder is compared with %s' % show(t, 3))
        elif kind == 'call' and name == s.nm.wsname and F:
            c.ob('file looked up in a workspace', ev.where)
            s.results.append(ev.where)
            if uri(E.val(st, ev.args[1])) is not mk('arg', 2): c.bad('folder:file', ev.where, 'another file is looked up')
            w = E.val(st, ev.args[0])
            if any(x.op == 'elem' for x in subterms(w)):
                no = [f for k, f in st.facts.items() if k.op in ('app', 'starts_with', 'call') and '..' in show(k, 9) and 'make_relative' in show(k, 1)]
                s.elem = True
        return slash
    elem = False
    def is_slash(s, k): return 'ends_with' in (k.op, k.a[0] if k.a else None) and any(x.op == 'const' and x.a[0] == '/' for x in subterms(k))


class Inside(Rule):
    """a file is in a folder only when it can be reached without leaving it"""
    def __init__(s, c): s.c, s.n = c, 0
    def init(s): return 0
    def partition(s, st, E): return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items()))
    def event(s, kind, ev, st, E):
        if kind == 'call' and ev.name == 'Url::make_relative' and E.final:
            b = strip(E.val(st, ev.args[0], 4))
            s.c.ob('folder a file is compared with', ev.where)
            ends = {f[1] for k, f in st.facts.items() if 'ends_with' in (k.op, k.a[0] if k.a else None) and f[0] == 'in' and len(f[1]) == 1 and any(x.op == 'const' and x.a[0] in ('/', 47) for x in subterms(k))}
            if b.op == 'arg' and frozenset([True]) not in ends: s.c.bad('folder:last', ev.where, 'an address is resolved against that of a folder which may not end with "/": the last part of it is dropped, so that its neighbours count as inside')
            cares = any('Url::path' in str(x.a[:2]) for k in st.facts for x in subterms(k)) or any(w in str([x.a[0] for x in subterms(b) if x.op == 'app'] + [x.a[1] for x in subterms(b) if x.op == 'call']) for w in ('trim', 'strip', 'join'))
            if b.op == 'upd' and 'set_path' in str(b.a[1]) and not cares: s.c.bad('folder:slash', ev.where, 'a folder whose address ends with "/" already is given a second one: no file is in it')
            if b.op == 'upd' and 'set_path' in str(b.a[1]) and ends == {frozenset([True])}: s.c.bad('folder:slash', ev.where, 'a folder whose address ends with "/" already is taken for another one')
        if kind != 'return' or not E.final: return
        for v in E.leaves(ev.val):
            v = E.val(st, v, 6)
            b = v.a[0] if v.op == 'const' else E.fact_bool(st, v)
            if b is False: continue
            s.n += 1
            s.c.ob('file taken for one in the folder', ev.where)
            neg = v.op == 'un' and v.a[0] == 'Not' and s.outside(v.a[1])
            facts = any(s.outside(k) and f == ('in', frozenset([False])) for k, f in st.facts.items())
            if not neg and not facts: s.c.bad('folder:outside', ev.where, 'a file that can only be reached by leaving the folder is taken for one in the folder')
    def outside(s, k): return ('starts_with' in (k.op, k.a[0] if k.a else None)) and any(x.op == 'const' and str(x.a[0]).startswith('..') for x in subterms(k)) and any(x.op == 'call' and x.a[1] == 'Url::make_relative' for x in subterms(k))


class Indexing(Base):
    """after the client is initialised the workspaces are indexed.  state: (indexed, all)"""
    def __init__(s, c, P, nm, idx, msg): Base.__init__(s, c, P); s.nm, s.idx, s.n, s.msg = nm, [i.replace('::{closure#0}', '') for i in idx] + idx, 0, msg; s.names = ['Workspace::' + last(i) for i in s.idx]
    def stop(s, fid): return Base.stop(s, fid) or fid in s.idx or '::lsp::request::' in fid or '::lsp::progress::' in fid and 'Manager' in fid
    def init(s): return (None, frozenset(), False)
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'fld'))
    def event(s, kind, ev, st, E):
        call, sites, all_ = st.auto
        name = getattr(ev, 'name', '')
        c, F = s.c, E.final
        if kind == 'next' and ev.it.op == 'it' and s.spaces(ev.it):
            if ev.call.site in sites and call != 'done' and F: c.bad('index:workspace', ev.where, 'a workspace folder is not indexed')
            if F and any(o[0] in PARTIAL + ('filter',) for o in ev.it.a[2] if isinstance(o, tuple)): c.bad('index:workspaces', ev.where, 'not every workspace folder is indexed')
            call, sites = None, sites | {ev.call.site}
        elif kind == 'exhausted' and ev.it.op == 'it' and s.spaces(ev.it): all_, sites, call = True, sites - {ev.call.site}, None
        elif kind == 'await' or kind == 'ret' and name == 'await':
            t = ev.fut if kind == 'await' and hasattr(ev, 'fut') else ev.args[0]
            if any(x.op == 'agg' and x.a[0] == 'coroutine' and x.a[1] in s.idx or x.op == 'call' and x.a[1] in s.names for x in subterms(t)):
                call = 'done'
                if F: s.n += 1; c.ob('workspace folder indexed', ev.where)
        elif kind == 'return' and F:
            if any(is_agg(v, 'Err') for v in E.leaves(ev.val)): return (call, sites, all_)
            c.ob('end of the initialization', ev.where)
            if all_: return (call, sites, all_)
            if any(k.op == 'fld' and k.a[1].startswith('has_') and f == ('in', frozenset([False])) for k, f in st.facts.items()): return (call, sites, all_)
            c.bad('index:missing', ev.where, 'the initialization can end without indexing the workspace folders')
        return (call, sites, all_)
    def spaces(s, it): return any(x.op == 'fld' and x.a[1] == 'workspaces' for x in subterms(it.a[1]))


def channel(c, P, nm, tasks):
    """requests to load a file reach the task that loads files"""
    new = next((i for i, f in P.fns.items() if f['unit'] == 'analyzer_host' and f.get('self_ty') and last(f['self_ty']) == 'State' and 'lsp_impl' in i and last(i) == 'new'), None)
    if new is None: c.missing('the creation of the state'); return
    r = Value()
    Engine(P, r, new).run()
    pairs = {}
    for v in r.vals:
        for n, t in (v.a[2] if v.op == 'agg' else ()):
            if t.op == 'call' and 'bounded' in t.a[1]: pairs[n] = (t, None)
            elif t.op == 'fld' and t.a[0].op == 'call' and 'bounded' in t.a[0].a[1]: pairs[n] = (t.a[0], t.a[1])
            elif is_agg(t) and t.a[2] and all(x.op == 'fld' and x.a[0].op == 'call' and 'bounded' in x.a[0].a[1] for _, x in t.a[2]): pairs[n] = (t.a[2][0][1].a[0], None)
        c.ob('channel of the requests to load a file', P.fns[new]['span']['f'].split('/repo/')[-1])
        an = next((t for n, t in v.a[2] if any(x.op == 'agg' and 'Analyzer' in str(x.a[0]) for x in subterms(t))), None) if v.op == 'agg' else None
        if an is None: c.missing('the analyzer of the state'); continue
        snd = {x.a[0] for x in deep(an) if x.op == 'fld' and x.a[0].op == 'call' and 'bounded' in x.a[0].a[1] and x.a[1] in ('0', 0)}
        for ch in snd:
            if ch.a[1].endswith('::bounded'): c.bad('channel:bounded', P.fns[new]['span']['f'].split('/repo/')[-1], 'the channel of the requests to load a file is bounded: whoever sends to it can block the executor for ever')
        rcv = set()
        for body, where, agg in tasks:
            for x in subterms(agg):
                if x.op == 'fld' and x.a[0].op == 'fld' and x.a[0].a[1] in pairs and x.a[1] in ('1', 1): rcv.add(pairs[x.a[0].a[1]][0])
                elif x.op == 'fld' and x.a[1] in pairs and pairs[x.a[1]][1] in ('1', 1): rcv.add(pairs[x.a[1]][0])
        if not snd or snd != rcv: c.bad('channel:other', tasks[0][1] if tasks else '-', 'the task that loads files does not receive from the channel the requests are sent to')


class Value(Rule):
    def __init__(s): s.vals = []
    def init(s): return 0
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final: s.vals += [E.val(st, v, 9) for v in E.leaves(ev.val)]


def deep(t):
    for x in subterms(t): yield x


class Send(Rule):
    """a request to load a file is sent as it is"""
    def __init__(s, c, arg): s.c, s.arg, s.n = c, arg, 0
    def init(s): return False
    def event(s, kind, ev, st, E):
        if kind == 'call' and getattr(ev, 'name', '') in SENDS:
            u = uri(E.val(st, ev.args[1], 6))
            if E.final:
                s.n += 1
                s.c.ob('request to load a file is sent', ev.where)
                if ev.name == 'Sender::send': s.c.bad('load:notsent', ev.where, 'the request to load a file is prepared, but not sent')
                if not any(x is s.arg for x in subterms(u)) or u.op in ('format', 'agg'): s.c.bad('load:other', ev.where, 'what is requested is %s, not the file to load' % show(u, 3))
            return True
        if kind == 'return' and E.final and not st.auto:
            if not any(k.op == 'var' and contains(k.a[0], s.arg) and f == ('in', frozenset(['Err'])) for k, f in st.facts.items()): s.c.bad('load:dropped', ev.where, 'a request to load a file can be dropped')
        return st.auto
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var'))


def authority(c):
    c.rule('editor', 'a message about a document acts on that document only: opening gives its text and marks it open, changing makes its changes in order, closing drops the text and marks it closed, saving gives the saved text')
    c.rule('authority', 'anybody else touches the text or completion of a file only when it was tested not to be open since the last point at which that could have changed')
    c.rule('settle', 'a file that becomes known is loaded, and every task that loads a file completes it unless it is open')
    c.rule('lookup', 'a known file is never replaced; a file belongs to a folder only when it is below it')
    P = c.program(UNITS)
    nm = Names(c, P)
    if not nm.ok: return
    hs = handlers(c, P)
    seen = set()
    spawned = []
    for m in EDITOR + ('DidChangeWatchedFiles', 'Initialize', 'Initialized'):
        if not any(h.msg == m for h in hs): c.missing('the handler of ' + m)
    made = 0
    for h in hs:
        if h.body in seen: continue
        seen.add(h.body)
        c.ob('handler', h.where)
        r = (Editor if h.msg in EDITOR else Watch)(c, P, nm, h)
        c.run_engine(P, r, h.body)
        spawned += r.spawned
        for b, w, agg in r.spawned:
            m = managers(agg)
            if m and not m <= r.stored: c.bad('channel:workspaces', w, 'the task that loads files has its own workspaces: the files it completes are not those of the server')
        if h.msg == 'DidChangeTextDocument' and not r.made: c.bad('change:none', h.where, 'no change of the document is derived from the message')
        if h.msg == 'DidChangeWatchedFiles' and not r.treated: c.bad('watch:none', h.where, 'changes of watched files are not treated')
    tasks, loops = [], []
    while spawned:
        body, where, agg = spawned.pop()
        if body in seen or body not in P.fns: continue
        seen.add(body)
        tasks.append((body, where, agg))
        c.ob('background task', where)
        r = Background(c, P, nm, where)
        c.run_engine(P, r, body)
        if r.recvs: loops.append((body, where, agg))
        spawned += r.spawned
    if not loops: c.missing('the task that receives requests to load files')
    channel(c, P, nm, loops)
    for i, body in impls(P, 'BackgroundLoad', 'load'):
        s = Send(c, mk('arg', 2)); c.run_engine(P, s, body)
        if not s.n: c.bad('load:dropped', body, 'requests to load a file are never sent')
    # lookups
    g = GetFile(c, P, nm); c.run_engine(P, g, nm.ws)
    if not g.inserts: c.bad('lookup:none', nm.ws, 'a file that is looked up never becomes known')
    idx = [i for i, f in P.fns.items() if i.startswith(nm.ws.rsplit('::', 1)[0] + '::') and f['kind'] == 'coroutine' and enumerates(P, i)]
    if not idx: c.missing('the indexing of a workspace')
    for i in idx:
        x = Index(c, P, nm); c.run_engine(P, x, i)
        if not x.inserts or not x.elems: c.bad('index:none', i, 'the documents found in a workspace folder do not become known')
    ch = Choose(c, P, nm); c.run_engine(P, ch, nm.wm)
    if not ch.elem: c.bad('folder:none', nm.wm, 'no file is ever looked up in a workspace folder')
    rel = [i for i, f in P.fns.items() if f['unit'] == 'analyzer_host' and f['kind'] in ('fn', 'method', 'closure') and f['locals'][0]['t'] == 'bool' and any(bb['t']['k'] == 'call' and (((bb['t'].get('fn') or {}).get('c') or {}).get('fn') or {}).get('name', '').endswith('Url::make_relative') for bb in f['blocks'])]
    if not rel: c.missing('the test whether a file is in a folder')
    for i in rel: c.run_engine(P, Inside(c), i)
    for h in hs:
        if h.msg == 'Initialized':
            x = Indexing(c, P, nm, idx, h); c.run_engine(P, x, h.body)
            if not x.n: c.bad('index:never', h.where, 'the workspace folders are never indexed')
    for k, n in (('handler', 8), ('text of a document', 4), ('effect not made by the editor', 4), ('completion of a file', 3), ('end of a background task', 1), ('file entered into a workspace', 2)): c.floor(k, n)


def enumerates(P, i): return any(b['t']['k'] == 'call' and (((b['t'].get('fn') or {}).get('c') or {}).get('fn') or {}).get('name', '').endswith('::enumerate_folder') for b in P.fns[i]['blocks'])
