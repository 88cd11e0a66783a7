"""Locks and borrows: none is held where somebody else, or the holder itself, would block or panic on it."""
from engine import *
from engine import _strip_generics
from requests import Base
from server import UNITS, handlers, derived
from files import Names

BORROW = ('RefCell::borrow_mut', 'RefCell::borrow')
TRY = ('RwLock::try_read', 'RwLock::try_write', 'Mutex::try_lock', 'RwLock::try_upgradable_read')
LOCK = ('RwLock::read', 'RwLock::write', 'Mutex::lock', 'RwLock::upgradable_read')
WRITES = ('borrow_mut', 'try_write', 'write', 'lock', 'try_lock')


def member(t):
    """name of the member that is the lock"""
    t = strip(t)
    if t.op == 'ref': return t.a[0][1][-1][1] if t.a[0][1] and t.a[0][1][-1][0] == 'f' else None
    return t.a[1] if t.op == 'fld' else None


class Guards(Base):
    """state: live guards as (term, lock, member, how, asynchronous)"""
    def __init__(s, c, P, nm): Base.__init__(s, c, P); s.nm, s.n, s.tried, s.later = nm, 0, set(), []
    def init(s): return frozenset()
    def stop(s, fid): return fid in (s.nm.wm, s.nm.ws) or fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and k.a[0].op == 'call' and k.a[0].a[1] in TRY))

    def values(s, E, st, t, d=0):
        """the parts of a value that are moved with it"""
        for x in E.leaves(t):
            yield x
            y = E.val(st, x, 6) if d < 4 else x
            if y is not x: yield y
            if y.op == 'agg' and d < 5:
                for _, z in y.a[2]: yield from s.values(E, st, z, d + 1)

    def event(s, kind, ev, st, E):
        live = st.auto
        name = getattr(ev, 'name', '')
        c, F = s.c, E.final
        if kind == 'call' and (name in BORROW + TRY + LOCK):
            lk, m, how = s.lock(E, st, ev.args[0]), member(ev.args[0]), name.split('::')[1]
            if F:
                if name in TRY: s.tried.add(m)
                s.n += 1
                c.ob('lock or borrow taken', ev.where)
                for g, l2, m2, h2, a2 in live:
                    if l2 is lk and (how in WRITES or h2 in WRITES):
                        c.bad('again:%s' % (m or name), ev.where, '%s of %s while its own %s is still held: the server %s' % (how, show(lk, 4), h2, 'waits for ever' if name in LOCK else 'panics'))
        if kind == 'ret' and name in BORROW: live = live | {(ev.val, s.lock(E, st, ev.args[0]), member(ev.args[0]), name.split('::')[1], False)}
        elif kind == 'ret' and name in TRY:
            live = live | {(pay(ev.val, 'Ok' if s.std(ev) else 'Some'), s.lock(E, st, ev.args[0]), member(ev.args[0]), name.split('::')[1], False)}
        elif kind == 'ret' and name in LOCK and s.std(ev):
            live = live | {(pay(ev.val, 'Ok'), s.lock(E, st, ev.args[0]), member(ev.args[0]), name.split('::')[1], False)}
        elif kind == 'ret' and name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in LOCK:
            l = ev.args[0].a[2]
            live = live | {(ev.val, s.lock(E, st, l), member(l), ev.args[0].a[1].split('::')[1], True)}
        elif kind == 'drop' and live:
            gone = set(s.values(E, st, ev.val))
            live = frozenset(g for g in live if g[0] not in gone)
        elif kind == 'call' and live and not getattr(ev, 'inlined', False) and ev.args:
            gone = set()
            for i, a in enumerate(ev.args):
                if a.op != 'ref' and not str(E.argty(ev.call, i) or '').startswith('&'): gone |= set(s.values(E, st, a))
            live = frozenset(g for g in live if g[0] not in gone or name in LOCK + TRY + BORROW)
        elif kind == 'await' and F:
            c.ob('await', ev.where)
            for g, l2, m2, h2, a2 in live:
                if s.impossible(st, g): continue
                x = ('await:%s' % (m2 or h2), ev.where, 'the %s of %s is held across an await: a message or background task that runs meanwhile %s' % (h2, show(l2, 4), 'waits for ever' if not a2 and h2 in ('read', 'write', 'lock') else 'panics'))
                if a2: s.later.append((m2, x))
                else: c.bad(*x)
        return live

    def impossible(s, st, g):
        """the payload of a lock that was not obtained"""
        return g.op == 'fld' and g.a[0].op == 'as' and st.facts.get(mk('var', g.a[0].a[0]), ('ni', ()))[0] == 'in' and g.a[0].a[1] not in st.facts[mk('var', g.a[0].a[0])][1]
    def lock(s, E, st, t):
        t = strip(t)
        if t.op == 'ref':
            b, p = t.a[0]
            return mk('ref', t.a[0])
        return t
    def std(s, ev):
        n = ev.call.fr.get('name') or ''
        return n.startswith('std::') or n.startswith('parking_lot')


def guards(c):
    c.rule('guards', 'no borrow of the analyzer, no lock of the standard library and no lock that others try to take is held across an await, and none is taken again by its holder')
    P = c.program(UNITS)
    nm = Names(c, P)
    if not nm.ok: return
    tried, later = set(), []
    fns = [h.body for h in handlers(c, P)]
    mods = ('analyzer_host::lsp_impl::', 'analyzer_host::lsp::', 'analyzer_host::fs::', 'analyzer_host::tracing::', 'analyzer_host::fsm::', 'analyzer_host::{impl')
    fns += [f for f in P.fns if f.startswith(mods) and P.fns[f]['kind'] == 'coroutine' and not derived(P.fns[f])]
    fns += [f for f in P.fns if f.startswith(mods) and P.fns[f]['kind'] in ('method', 'fn', 'closure') and not derived(P.fns[f]) and P.fns.get(f + '::{closure#0}', {}).get('kind') != 'coroutine']
    seen, n = set(), 0
    for f in fns:
        if f in seen: continue
        c.ob('function', f)
        r = Guards(c, P, nm)
        E = c.run_engine(P, r, f); seen |= E.inlined | {f}; n += r.n
        tried |= r.tried; later += r.later
    for t in sorted(x for x in tried if x): c.ob('lock that is only tried', t)
    for m, x in later:
        if m in tried: c.bad(*x)
    for k, m in (('function', 10), ('lock or borrow taken', 10), ('await', 5)): c.floor(k, m)

