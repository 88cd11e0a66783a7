"""The file system behind the client: what the server asks, and how the VS Code extension answers."""
import glob, json, os, re, shutil, subprocess
from engine import *
from requests import Base
from dispatch import impls
from process import Made
import extract

UNITS = ['analyzer_abstractions', 'analyzer_host']
ASK = 'send_and_receive'
TSC = ['/opt/veriftools/node/node_modules/typescript']
LOSES = ('slice', 'filter', 'splice', 'pop', 'shift', 'find', 'at')


class Asks(Base):
    """state: number of requests, the request, its awaited answer"""
    see_bin = True
    def __init__(s, c, P, kind, nargs): Base.__init__(s, c, P); s.kind, s.nargs, s.types, s.given = kind, nargs, set(), {}
    def init(s): return (0, None)
    def stop(s, fid): return ('::' + ASK) in fid or Base.stop(s, fid)
    def partition(s, st, E): return (E.tags(st), st.auto[0], E.fact_var(st, st.auto[1]) if st.auto[1] is not None else None)
    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        n, a = st.auto
        name = getattr(ev, 'name', '')
        if kind == 'call' and last(name) == ASK:
            ty = next((g for g in (ev.fr or {}).get('args', []) if not g.startswith("'")), None)
            s.types.add(ty)
            if F:
                c.ob('requests to the client', ev.where)
                if n: c.bad(s.kind + ':twice', ev.where, 'the client is asked twice for one thing')
                p = strip(E.val(st, ev.args[1], 5))
                fs = {k: strip(v) for k, v in p.a[2]} if p.op == 'agg' else {}
                if not fs: c.bad(s.kind + ':params', ev.where, 'what the client is asked for is %s' % show(p, 4))
                s.given[ty] = p.a[0] if p.op == 'agg' else None, {k: v.a[0] if v.op == 'arg' else None for k, v in fs.items()}
                for k, v in fs.items():
                    if v.op != 'arg' or v is mk('arg', 1): c.bad(s.kind + ':params', ev.where, 'the client is asked with %s = %s' % (k, show(v, 4)))
                if sorted(v.a[0] for v in fs.values() if v.op == 'arg') != list(range(2, s.nargs + 1)): c.bad(s.kind + ':params', ev.where, 'the client is not asked for what was asked of the file system')
            return (min(n + 1, 2), None)
        if kind == 'ret' and name == 'await' and ev.args and ASK in show(E.val(st, ev.args[0], 4), 5): return (n, ev.val)
        if kind in ('panic', 'diverge', 'assertfail') and F:
            if kind == 'assertfail' and 'resumed' in str(getattr(ev, 'msg', '')): return None
            c.bad(s.kind + ':panic', ev.where, 'asking the client can panic at %s: the server dies with it' % (name or 'an assertion'))
        if kind == 'return' and F:
            c.ob('answers of ' + s.kind, ev.where)
            if n != 1: c.bad(s.kind + ':unasked', ev.where, 'an answer is given without asking the client')
            for v in E.leaves(ev.val): s.answer(ev, st, E, strip(E.val(st, v, 6)))
        return None

    def answer(s, ev, st, E, v):
        c = s.c
        a = st.auto[1]
        if a is None: return
        ok = strip(pay(a, 'Ok'))
        failed = E.fact_var(st, a) == frozenset(['Err'])
        x = strip(v.a[2][0][1]) if is_agg(v, 'Some') else v
        if x is ok: return
        if v.op in ('app', 'call') and last(v.a[0] if v.op == 'app' else v.a[1]) in ('ok', 'unwrap_or_default', 'unwrap_or_else', 'unwrap_or') and any(y is a for y in subterms(v)): return
        if s.kind == 'file_contents' and is_agg(v, 'None'):
            if not failed: c.bad(s.kind + ':missing', ev.where, 'a file the client has given may be reported as missing')
            return
        if s.kind == 'enumerate_folder' and (v.op == 'call' and last(v.a[1]) in ('new', 'default') or is_empty(v)):
            if not failed: c.bad(s.kind + ':missing', ev.where, 'the files the client has listed may be left out')
            return
        if not failed and E.fact_var(st, a) != frozenset(['Ok']) and any(y is a for y in subterms(v)): return
        c.bad(s.kind + ':answer', ev.where, 'the answer is %s, not what the client has given' % show(v, 4))


def is_empty(v): return v.op == 'agg' and not v.a[2] or v.op == 'app' and v.a[0] in ('Vec::new', 'default', 'from') or show(v, 3) in ('array{}', 'vec()')


class Fields(Rule):
    """the names under which a structure is serialised"""
    def __init__(s): s.names = {}
    def init(s): return 0
    def stop(s, fid): return False
    def event(s, kind, ev, st, E):
        if kind == 'call' and last(getattr(ev, 'name', '')) == 'serialize_field':
            v = strip(E.val(st, ev.args[1], 4))
            f = strip(E.val(st, ev.args[2], 4))
            if v.op == 'const' and f.op == 'fld' and f.a[0] is mk('arg', 1): s.names[f.a[1]] = v.a[0]


def names(P, ty):
    """serialised name of each field, in the order of declaration"""
    if last(ty) == 'TextDocumentIdentifier': return {'uri': 'uri'}
    for i in P.impls:
        if i.get('trait') and last(i['trait']) == 'Serialize' and last(i['self_ty']) == last(ty) and i['crate'] == 'analyzer_host':
            fid = next((it['id'] for it in i['items'] if it['n'] == 'serialize'), None)
            if fid not in P.fns: continue
            r = Fields()
            Engine(P, r, fid).run()
            return r.names
    return None


def walk(t):
    yield t
    if isinstance(t, list):
        for x in t: yield from walk(x)


def called(t, name):
    return isinstance(t, list) and len(t) > 1 and t[0] == 'call' and (t[1] == ['name', name] or isinstance(t[1], list) and t[1][0] == 'get' and t[1][2] == name)


def mentions(t, name): return ['get', ['params'], name] in list(walk(t))


def alts(t): return [y for x in t[1:] for y in alts(x)] if isinstance(t, list) and t and t[0] == 'alt' else [t]


def client_fs(c):
    P = c.program(UNITS)
    c.rule('asks', 'the file system behind the client never panics; one request per question, with what was asked; the answer is that of the client, empty only if the request failed')
    c.rule('agreement', 'the extension has a handler for each of these requests and reads only fields that the server sends, under the names it sends')
    c.rule('folder', 'enumerateFolder searches the folder and pattern asked for, no other folder, and answers with all files that were found, each as an identifier with its address')
    c.rule('contents', 'fileContents answers with the whole text of the file asked for')
    asked = {}
    for m in ('file_contents', 'enumerate_folder'):
        for i, fid in impls(P, 'EnumerableFileSystem', m):
            if fid is None: c.missing(m); continue
            if fid.endswith('::{closure#0}') and fid[:-13] in P.fns: fid = fid[:-13]       # the future is made by a block inside the method
            r = Made()
            Engine(P, r, fid).run()
            if len(r.made) != 1: c.missing('the work of ' + fid); continue
            body, caps = r.made.pop()
            c.ob('entry ' + m, fid)
            want = [mk('arg', k) for k in range(1, P.fns[fid]['argc'] + 1)]
            if [x for x in caps if x.op == 'arg'] != want: c.bad(m + ':arguments', P.fns[fid]['id'] if 'id' in P.fns[fid] else fid, 'what is asked is not what was given')
            rule = Asks(c, P, m, P.fns[fid]['argc'])
            c.run_engine(P, rule, body)
            if len(rule.types) != 1: c.missing('the request of ' + fid); continue
            asked[m] = (rule.types.pop(), rule.given)
    c.floor('entry file_contents', 1); c.floor('entry enumerate_folder', 1); c.floor('requests to the client', 2)
    sent = {}
    for m, (ty, given) in asked.items():
        imp = next((i for i in P.impls if i.get('trait') and last(i['trait']) == 'Request' and i['self_ty'] == ty), None)
        mid = next((it['id'] for it in imp['items'] if it['n'] == 'METHOD'), None) if imp else None
        meth = const_str(P, mid)
        if meth is None: c.missing('the method of the request ' + str(ty)); continue
        sent[m] = (meth, ty) + (given.get(ty) or (None, {}))
    if len({x[0] for x in sent.values()}) != len(sent): c.bad('method:same', 'crates/analyzer-host/src/fs.rs', 'two requests have the same method')
    extension(c, P, sent)


def const_str(P, mid):
    if mid not in P.fns: return None
    for b in P.fns[mid]['blocks']:
        for x in b['s']:
            o = (x.get('r') or {}).get('o') or {}
            if 'str' in (o.get('c') or {}): return o['c']['str']
    return None


def extension(c, P, sent):
    repo = extract.REPO
    files = sorted(f for f in glob.glob(repo + '/packages/p4-analyzer-vscode/src/**/*.ts', recursive=True) if not f.endswith('.d.ts') and '.test.' not in f)
    if not files: c.missing('the sources of the VS Code extension'); return
    tsc = next((t for t in TSC if os.path.isdir(t)), None)
    node = shutil.which('node')
    if not tsc or not node: raise RuntimeError('node or the TypeScript compiler is not installed')
    p = subprocess.run([node, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'ts_terms.js'), tsc] + files, capture_output=True, text=True, timeout=120)
    if p.returncode: raise RuntimeError('ts_terms: ' + p.stderr[-500:])
    d = json.loads(p.stdout)
    rel = lambda r: '%s:%d' % (os.path.relpath(r['file'], repo), r['line'])
    for e in d['errors']: c.bad('build:ts', e.replace(repo + '/', ''), 'does not parse')
    for f in files: c.ob('files of the extension', os.path.relpath(f, repo))
    if not any(x['name'] == 'setP4AnalyzerHandlers' for x in d['calls']) and any('setP4AnalyzerHandlers' in open(f).read() for f in files): c.bad('handlers:unset', 'packages/p4-analyzer-vscode/src', 'the handlers are never installed')
    for m, (meth, ty, pty, given) in sorted(sent.items()):
        hs = [r for r in d['requests'] if r['kind'] == 'onRequest' and r['method'] == ['str', meth]]
        open_ = [r for r in d['requests'] if r['method'][0] not in ('str',)]
        c.ob('handlers', meth)
        if not hs:
            if not open_: c.bad('handler:' + m, 'packages/p4-analyzer-vscode/src', 'the extension has no handler for the request "%s"' % meth)
            continue
        nm = names(P, pty) if pty else None
        for r in hs:
            t = r['answer']
            if t is None: continue
            read = {x[2] for x in walk(t) if isinstance(x, list) and len(x) == 3 and x[0] == 'get' and x[1] == ['params'] and isinstance(x[2], str)}
            if nm:
                c.ob('fields of requests', n=len(nm), where=rel(r))
                for f in sorted(read - set(nm.values())): c.bad('field:%s:%s' % (m, f), rel(r), 'the handler of "%s" reads "%s", which the server does not send (it sends %s)' % (meth, f, ', '.join(sorted(nm.values()))))
            byarg = {a: nm.get(f, f) for f, a in given.items()} if nm else {}
            (folder if m == 'enumerate_folder' else contents)(c, rel(r), t, byarg.get(2, 'uri'), byarg.get(3, 'filePattern'))
    c.floor('handlers', 2); c.floor('fields of requests', 3)


def folder(c, where, t, uri, pattern):
    for t in alts(t):
        finds = [x for x in walk(t) if called(x, 'findFiles')]
        c.ob('searches', where)
        if not finds:
            if t[0] in ('arr', 'undefined', 'str', 'obj'): c.bad('folder:answer', where, 'the answer is not what was found in the folder')
            continue
        for f in finds:
            args = f[2:]
            g = args[0] if args else ['undefined']
            rp = next((x for x in walk(g) if isinstance(x, list) and x[:2] == ['new', ['name', 'RelativePattern']]), None)
            if rp is None or g is not rp and g[0] in ('get', 'cat', 'str'):
                if g[0] in ('get', 'cat', 'str'): c.bad('folder:everywhere', where, 'the pattern is searched in every folder of the workspace, not in the folder asked for')
                continue
            c.ob('patterns', where)
            if len(rp) > 2 and not mentions(rp[2], uri): c.bad('folder:base', where, 'the folder searched is not the one asked for')
            if len(rp) > 3 and rp[3] != ['get', ['params'], pattern]:
                if not mentions(rp[3], pattern): c.bad('folder:pattern', where, 'the pattern searched is not the one asked for')
            if len(args) > 2 and args[2] != ['undefined']: c.bad('folder:limit', where, 'the number of files answered is limited')
            if len(args) > 1 and args[1] not in (['undefined'], ['name', 'null']) and args[1][0] in ('str', 'cat'): c.bad('folder:excluded', where, 'files that match are excluded from the answer')
        for x in walk(t):
            if isinstance(x, list) and x and x[0] == 'call' and isinstance(x[1], list) and x[1][0] == 'get' and x[1][2] in LOSES and any(called(y, 'findFiles') for y in walk(x[1][1])): c.bad('folder:lost', where, 'files that were found can be left out of the answer (%s)' % x[1][2])
            if isinstance(x, list) and x and x[0] == 'lambda':
                v = x[1]
                c.ob('identifiers', where)
                u = v[2] if called(v, 'create') and len(v) > 2 else dict((k, w) for k, w in v[1]).get('uri') if v[0] == 'obj' else None
                if v[0] in ('item', 'get', 'str') or v[0] == 'call' and called(v, 'toString') : c.bad('folder:shape', where, 'what is answered for a file is not an identifier with an address')
                elif v[0] == 'obj' and u is None: c.bad('folder:shape', where, 'what is answered for a file has no "uri"')
                elif u is not None and (u[0] == 'item' or u[0] == 'get' and u[2] in ('path', 'fsPath')): c.bad('folder:address', where, 'the address answered for a file is a path or an object, not an address in text')
        if called(t, 'findFiles'): c.bad('folder:shape', where, 'what is answered for a file is not an identifier with an address')


def contents(c, where, t, uri, _):
    for t in alts(t):
        c.ob('contents', where)
        reads = [x for x in walk(t) if isinstance(x, list) and (called(x, 'readFile') or called(x, 'readFileSync') or called(x, 'openTextDocument'))]
        if not reads:
            if t[0] in ('str', 'undefined', 'obj', 'arr', 'num'): c.bad('contents:answer', where, 'the answer is not what the file holds: a file that cannot be read must fail the request')
            continue
        for r in reads:
            if not mentions(r[2:], uri): c.bad('contents:file', where, 'the file read is not the one asked for')
            if called(r, 'readFile') and r[1][0] == 'name' and len(r) < 4 and t is r: c.bad('contents:bytes', where, 'the answer is bytes, not text')
            enc = [x[1] for x in walk(r[3:]) if isinstance(x, list) and len(x) == 2 and x[0] == 'str'] if len(r) > 3 else []
            if any(re.match(r'(?i)^(ascii|latin1|binary|utf-?16le|ucs-?2|base64|hex)$', e) for e in enc): c.bad('contents:encoding', where, 'the file is not read as UTF-8')
        for x in walk(t):
            if isinstance(x, list) and x and x[0] == 'call' and isinstance(x[1], list) and x[1][0] == 'get' and x[1][2] in ('slice', 'substring', 'substr', 'trim', 'trimEnd', 'trimStart', 'replace', 'replaceAll', 'split', 'toLowerCase') and any(y in reads for y in walk(x[1][1])): c.bad('contents:changed', where, 'what the file holds is changed before it is answered (%s)' % x[1][2])
