"""The message handlers and the background work of the server."""
from engine import *
from engine import _strip_generics
from requests import Base, map_insert, same_clone
from jsonrpc import method

UNITS = ['analyzer_host']
FCS = 'FutureCompletionSource'
SETS = (FCS + '::set_value', FCS + '::set_err')
MODULES = ('lsp_impl', 'lsp::workspace', 'lsp::progress', 'lsp::analyzer', 'fs', 'tracing')
LOCKS = ('RwLock::read', 'RwLock::write', 'Mutex::lock')
TRIES = ('RwLock::try_read', 'RwLock::try_write', 'Mutex::try_lock', 'RwLock::try_lock')


class Handler:
    def __init__(s, msg, fid, body, where, state): s.msg, s.fid, s.body, s.where, s.state = msg, fid, body, where, state


def fn_named(P, name):
    if not hasattr(P, '_byname'):
        P._byname = {}
        for i, f in P.fns.items(): P._byname.setdefault(f['name'], i); P._byname.setdefault(i, i)
    return P._byname.get(name)


def handlers(c, P):
    """the handlers registered with the dispatchers: the message type comes from the type arguments of the registration"""
    out = []
    for i, f in P.fns.items():
        if f['unit'] != 'analyzer_host': continue
        for b in f['blocks']:
            t = b['t']
            fr = ((t.get('fn') or {}).get('c') or {}).get('fn') if t['k'] == 'call' else None
            if not fr: continue
            args = fr.get('args') or []
            m = [last(a) for a in args if re.match(r'^[\w:]*\b(request|notification)::\w+$', a)]
            if len(m) != 1: continue
            for a in args:
                h = re.search(r'\{([\w:#{}<>,. ]+?)\}$', a) if a.startswith('fn(') or a.startswith('for<') else None
                fid = None
                if h: fid = fn_named(P, _strip_generics(h.group(1))) or fn_named(P, h.group(1))
                elif 'closure' in a:
                    k = re.search(r'\.rs:(\d+):', a)
                    fid = next((g for g in P.fns if P.fns[g]['kind'] == 'closure' and k and P.fns[g]['span']['l'] == int(k.group(1)) and P.fns[g]['span']['f'].endswith(re.search(r'([\w/.-]+\.rs)', a).group(1))), None)
                if fid is None: continue
                body = fid + '::{closure#0}' if fid + '::{closure#0}' in P.fns and P.fns[fid + '::{closure#0}']['kind'] == 'coroutine' else fid
                out.append(Handler(m[0], fid, body, '%s:%d' % (t['s']['f'].split('/repo/')[-1], t['s']['l']), f))
    return out


def is_state_arg(t): return 'RwLock' in t and 'State' in t


def canon(t):
    """a file identifier by the address it was made from"""
    t = strip(t)
    if t.op == 'call' and t.a[1] == 'Analyzer::file_id': return mk('fileid', uri(t.a[3]))
    return t


def uri(t):
    """an address, however it is passed"""
    t = strip(t)
    while t.op == 'call' and t.a[1] in ('Url::as_str', 'Url::to_string', 'ToString::to_string', 'Url::clone', 'str::to_string', 'AsRef::as_ref') and len(t.a) > 2: t = strip(t.a[2])
    while t.op == 'app' and t.a[0] in ('Url::as_str', 'as_str', 'ToString::to_string', 'str::to_string', 'from', 'Url::to_string') and len(t.a) > 1: t = strip(t.a[1])
    return t


def needs_known(P):
    """methods of the analyzer that panic for a file it does not know"""
    out = set()
    for i, f in P.fns.items():
        if f.get('self_ty') and last(_strip_generics(f['self_ty'])) == 'Analyzer' and f['unit'] == 'analyzer_core' and f['kind'] == 'method' and not f.get('of_trait'):
            r = Unknown()
            Engine(P, r, i).run()
            if r.hit: out.add('Analyzer::' + last(i))
    return out


class Unknown(Rule):
    """does a method of the analyzer unwrap what it found for the given file"""
    def __init__(s): s.hit = False
    def init(s): return 0
    def stop(s, fid): return not fid.startswith('analyzer_core::{impl') or 'lsp_file' in fid
    def event(s, kind, ev, st, E):
        if kind == 'panic' and E.final and ev.args and contains(E.val(st, ev.args[0], 6), mk('arg', 2)): s.hit = True


PARTIAL = ('skip', 'take', 'step_by', 'skip_while', 'take_while', 'nth')
PANICS = ('Vec::remove', 'Vec::swap_remove', 'Vec::insert', 'Vec::drain', 'Vec::split_off', 'String::remove', 'String::insert', 'String::insert_str', 'String::drain', 'String::split_off', 'String::truncate', 'String::replace_range', 'str::split_at', 'slice::split_at', 'slice::split_at_mut', 'slice::copy_from_slice', 'VecDeque::swap', 'slice::swap', 'VecDeque::drain')
KNOWS = ('Analyzer::input', 'Analyzer::buffer', 'Analyzer::lexed', 'Analyzer::preprocessed')


class Server(Base):
    """the conditions under which the code of the server may panic.
    state: (members set, known files, pending sources, ok of the last set, comparisons of ranges, inverted, all ranges were tested)"""
    see_bin = True
    def __init__(s, c, P, after, needs, entry_first=False):
        Base.__init__(s, c, P); s.after, s.needs = after, needs
        s.always, s.compared, s.edits, s.loops, s.full = None, 0, [], [], set()
    def init(s): return (frozenset(), frozenset(), (), True, None, False, False)
    def stop(s, fid): return fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid

    def partition(s, st, E):
        a = st.auto
        opts = frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and (k.a[0].op == 'fld' and k.a[0].a[1] in s.members and k.a[0].a[1] not in s.after or k.a[0].op == 'call' and (k.a[0].a[1] in KNOWS or any(v is k.a[0] for _, v in a[2]))))
        return (E.tags(st), a[0], a[1], a[3], a[5], a[6], E.fact_bool(st, a[4][0]) if a[4] else None, opts)
    members = ()

    def event(s, kind, ev, st, E):
        mem, known, pend, okset, cmp, inv, tested = st.auto
        name = getattr(ev, 'name', '')
        c, F = s.c, E.final
        if cmp is not None:
            b = E.fact_bool(st, cmp[0]) if cmp[0].op != 'ord' else None
            if b is not None:
                if b is cmp[1]: inv = True
                cmp = None
        if kind in ('yield', 'await'): known, pend = frozenset(), ()
        elif kind == 'exhausted' and ev.call.site in s.full: tested = True
        elif kind == 'next':                  # of the next element nothing is known
            known = frozenset(x for x in known if not any(y.op in ('elem', 'phi', 'call') for y in subterms(x)))
            pend = ()
            if ev.it.op == 'it' and (ev.call.site, ev.it) not in s.loops: s.loops.append((ev.call.site, ev.it))
        elif kind == 'store':
            f = ev.loc[1][-1] if ev.loc[1] else None
            if f and f[0] == 'f' and f[1] in s.members:
                v = E.val(st, ev.val)
                if is_agg(v, 'Some'): mem = mem | {f[1]}
                elif not s.unchanged(v, f[1]):
                    mem = mem - {f[1]}
                    if F and not is_agg(v, 'Some'): c.bad('member:unset', ev.where, 'the %s of the server is set to %s: messages that need it make the server panic' % (f[1], show(v, 3)))
        elif kind == 'call' and name in ('Option::replace', 'Option::insert') :
            t = E.val(st, ev.args[0]) if ev.args[0].op != 'ref' else ev.args[0]
            f = t.a[0][1][-1][1] if t.op == 'ref' and t.a[0][1] and t.a[0][1][-1][0] == 'f' else t.a[1] if t.op == 'fld' else None
            if f in s.members: mem = mem | {f}
        elif kind == 'ret' and name == FCS + '::state': pend = pend[-2:] + ((s.fcs(E, st, ev.args[0]), ev.val),)
        elif kind == 'call' and name in SETS:
            x = s.fcs(E, st, ev.args[0])
            okset = x.op == 'call' and x.a[1] == FCS + '::new' or any(y is x and E.fact_var(st, v) == frozenset(['Pending']) for y, v in pend)
            pend = tuple(p for p in pend if p[0] is not x)
        elif kind == 'call' and name == 'Analyzer::update':
            known = known | {canon(E.val(st, ev.args[1]))}
        elif kind == 'call' and name == 'Analyzer::delete': known = frozenset()
        elif kind == 'call' and name in s.needs:
            if F: s.need(ev, st, E, known, inv)
        elif kind == 'bin' and ev.op in ('Gt', 'Lt', 'Ge', 'Le'):
            a, b = E.val(st, ev.a, 6), E.val(st, ev.b, 6)
            p = position_test(ev.op.lower(), a, b)
            if p is not None:
                s.compare((a, b))
                cmp = (mk('bin', ev.op, a, b), p)
        elif kind == 'ret' and ordering(name) and len(ev.args) == 2:
            p = position_test(name.split('::')[1], *(E.val(st, x, 6) for x in ev.args))
            if p is not None:
                s.compare([E.val(st, x, 6) for x in ev.args])
                cmp = (ev.val, p)
        if kind == 'call' and name == 'Analyzer::file_change_event' and F: s.edit(ev, st, E, inv, tested)
        if kind == 'index' and F:
            c.ob('index', ev.where)
            if not s.within(E, st, ev): c.bad('index', ev.where, 'a message of the client can make the server panic here: the index %s of %s may be out of range' % (show(ev.idx, 3), show(ev.base, 4)))
        if kind == 'call' and name in PANICS and F: c.bad('panic:' + name, ev.where, 'a message of the client can make the server panic here: %s panics outside of the bounds' % name)
        if kind in ('panic', 'assertfail', 'diverge') and F: s.paniced(kind, ev, st, E, mem, okset)
        if kind == 'return' and F:
            for v in E.leaves(ev.val): s.returned(ev, st, E, v, mem)
        return (mem, known, pend, okset, cmp, inv, tested)

    def within(s, E, st, ev):
        i = ev.idx
        if is_agg(i) and 'RangeFull' in str(i.a[0]): return True
        return any(k.op == 'bin' and k.a[0] == 'Lt' and k.a[1] is i and f == ('in', frozenset([True])) for k, f in st.facts.items())

    def unchanged(s, v, f): return v.op == 'fld' and v.a[1] == f

    def fcs(s, E, st, t):
        v = E.val(st, t)
        return strip(v) if v.op != 'ref' else v

    def need(s, ev, st, E, known, inv):
        c = s.c
        c.ob('use of a file the analyzer has to know', ev.where)
        i = canon(E.val(st, ev.args[1]))
        if i in known: return
        for k, f in st.facts.items():
            if k.op == 'var' and k.a[0].op == 'call' and k.a[0].a[1] in KNOWS and f == ('in', frozenset(['Some'])) and canon(k.a[0].a[3]) is i: return
        c.bad('unknown:' + ev.name, ev.where, '%s is asked for a file that the analyzer may not know: it panics, and the server with it' % ev.name)

    def compare(s, args):
        """the iteration whose elements are compared, if it passes over every element"""
        s.compared += 1
        sites = {x.a[0].split('.')[0] + '.' + x.a[0].split('.')[1] for t in args for x in subterms(t) if x.op == 'elem' and isinstance(x.a[0], str)}
        for site, it in s.loops:
            if site in sites and not any(o[0] in PARTIAL for o in it.a[2] if isinstance(o, tuple)): s.full.add(site)

    def edit(s, ev, st, E, inv, tested):
        s.edits.append((ev.where, inv, tested))

    def returned(s, ev, st, E, v, mem):
        if is_agg(v, 'Ok') or v is UNIT or v.op != 'agg': s.always = mem if s.always is None else s.always & mem

    def paniced(s, kind, ev, st, E, mem, okset):
        c = s.c
        c.ob('place that can panic', ev.where)
        name = getattr(ev, 'name', '')
        t = strip(E.val(st, ev.args[0], 6)) if getattr(ev, 'args', None) else None
        for k, f in st.facts.items():
            if k.op == 'var' and k.a[0].op == 'fld' and k.a[0].a[1] in (mem | s.after) and f == ('in', frozenset(['None'])): return   # set before: not possible
        if kind == 'panic' and t is not None and name.startswith(('Result::', 'Option::')):
            e = pay(t, 'Err') if is_agg(t, 'Err') else None
            if t.op == 'call' and t.a[1] in LOCKS + TRIES: return         # std locks: only after another panic; tries: see the rule on guards
            if t.op == 'fld' and t.a[1] in mem | s.after: return
            if t.op == 'call' and t.a[1] in SETS and okset: return
            if t.op == 'call' and t.a[1].endswith(('to_value', 'to_json', 'to_string', 'Write::write_fmt', 'Write::write_str', 'String::write_fmt')): return
            if e is not None and contains_name(e, 'SerializeError'): return
            if t.op == 'call' and t.a[1] == 'Url::parse':
                u = t.a[2]
                if u.op == 'const' and isinstance(u.a[0], str) and re.match(r'^[a-z][a-z0-9+.-]*:', u.a[0]): return
                if resolver(s.P, ev.fn) and (u is mk('arg', 2) or u.op == 'carg' and u.a[2] == 0): return    # file ids are addresses
        elif kind == 'panic' and t is not None and t.op == 'call' and t.a[1].startswith('AsyncPool'): return
        c.bad('panic:' + name.split('::')[-1], ev.where, 'a message of the client can make the server panic here (%s of %s)' % (name or ev.msg, show(t, 3) if t is not None else 'a value'))


def contains_name(t, n): return any(isinstance(x.a[0], str) and n in x.a[0] or x.op == 'agg' and x.a[1] and n in str(x.a[1]) for x in subterms(t) if x.a)


def ordering(n): return n in ('PartialOrd::gt', 'PartialOrd::lt', 'PartialOrd::ge', 'PartialOrd::le', 'Ord::cmp', 'PartialOrd::partial_cmp')


def position_test(op, a, b):
    """the truth value of a comparison that says that a range ends before it starts"""
    side = lambda t: t.a[1] if t.op == 'fld' and t.a[1] in ('start', 'end') else None
    x, y = side(strip(a)), side(strip(b))
    if {x, y} != {'start', 'end'}: return None
    if x == 'end': op = {'gt': 'lt', 'lt': 'gt', 'ge': 'le', 'le': 'ge'}.get(op, op)
    return {'gt': True, 'ge': True, 'le': False, 'lt': False}.get(op)


def state_members(c, P):
    """optional members of the state of the server"""
    for a in P.adts.values():
        if last(a['name']) == 'State' and 'lsp_impl' in a['name']:
            return tuple(f['n'] for v in a['variants'] for f in v['fields'] if re.match(r'^core::option::Option<.*(Manager)', f['t']))
    c.missing('the state of the server')
    return ()


def derived(f): return bool(f['span'].get('m'))


def panics(c):
    c.rule('panics', 'no handler of a message and no background task reaches a panic except where the condition cannot arise: members set during initialization, locks, sources known to be pending, constants')
    c.rule('known', 'methods of the analyzer that panic for an unknown file are only asked for files the path has made or found known')
    c.rule('ranges', 'a change whose range ends before it starts is refused before it reaches the text')
    P = c.program(UNITS)
    hs = handlers(c, P)
    needs = needs_known(P)
    Server.members = state_members(c, P)
    for m in needs: c.ob('method that panics for an unknown file', m)
    seen = set()
    init = [h for h in hs if h.msg == 'Initialize']
    if not init: c.missing('the handler of initialize'); return
    after = None
    for h in init:
        r = Server(c, P, frozenset(), needs)
        E = c.run_engine(P, r, h.body); seen |= E.inlined | {h.body}
        after = r.always if after is None else after & (r.always or frozenset())
    after = frozenset(after or ())
    for m in Server.members:
        c.ob('member set by initialize', m)
        if m not in after: c.bad('member:' + m, init[0].where, 'initialize can succeed without setting %s: every message that needs it makes the server panic' % m)
    compared, edits = 0, []
    for h in hs:
        c.ob('handler', h.where)
        if h in init or h.body in seen: continue
        r = Server(c, P, after, needs)
        E = c.run_engine(P, r, h.body); seen |= E.inlined | {h.body}
        if r.full:                            # now the iterations over ranges are known
            r.edits = []
            c.run_engine(P, r, h.body)
        compared += r.compared; edits += r.edits
    for w, inv, tested in edits:
        c.ob('change of a text', w)
        if inv: c.bad('ranges:inverted', w, 'a change with a range that ends before it starts reaches the text: the edit panics')
        elif not tested and compared: c.bad('ranges:partial', w, 'a change reaches the text before all its ranges were tested for ending before they start')
    if edits and not compared: c.bad('ranges:untested', edits[0][0], 'nothing tests whether the ranges of a change end before they start: an inverted range makes the edit panic')
    # what handlers do not reach: background work, callbacks of the analyzer and of the tracing library
    mods = tuple('analyzer_host::' + m + '::' for m in MODULES)
    rest = [f for f in P.fns if f.startswith(mods) and P.fns[f]['kind'] in ('coroutine', 'closure', 'method', 'fn') and not derived(P.fns[f])]
    order = {'coroutine': 0, 'method': 1, 'fn': 2, 'closure': 3}
    for f in sorted(rest, key=lambda f: (order[P.fns[f]['kind']], f)):
        if f in seen: continue
        if P.fns[f]['kind'] in ('fn', 'method') and f + '::{closure#0}' in P.fns and P.fns[f + '::{closure#0}']['kind'] == 'coroutine': continue
        c.ob('background function', f)
        r = Server(c, P, after, needs)
        E = c.run_engine(P, r, f); seen |= E.inlined | {f}
    for k, n in (('handler', 8), ('place that can panic', 5), ('use of a file the analyzer has to know', 1), ('change of a text', 1)): c.floor(k, n)


def resolver(P, f):
    """a callback from a base address and a path to an address"""
    if f not in P.fns or P.fns[f]['kind'] != 'closure': return False
    ls = P.fns[f]['locals']
    return P.fns[f]['argc'] == 3 and all(re.match(r"^&('\w+ )?str$", l['t']) for l in ls[2:4])
