"""FutureCompletionSource: exactly-once completion and no lost wake-up."""
from engine import *

UNITS = ['analyzer_abstractions']
MAXUSIZE = 2 ** 64 - 1


class Anchors:
    def __init__(s, P, c):
        s.ok = False
        s.adt = next((a for a in P.adts.values() if last(a['name']) == 'FutureCompletionSource'), None)
        if s.adt is None: c.missing('the type FutureCompletionSource'); return
        # the shared state: every adt of the module, fields found by type
        mod = s.adt['name'].rsplit('::', 1)[0]
        s.flag, s.slot, s.event = set(), set(), set()
        for a in P.adts.values():
            if not a['name'].startswith(mod): continue
            if '::async_extensions' in a['name']: continue
            for v in a['variants']:
                for f in v['fields']:
                    t = f['t']
                    if 'Atomic<bool>' in t: s.flag.add(f['n'])
                    elif re.search(r'(RwLock|Mutex)<core::option::Option<', t): s.slot.add(f['n'])
                    elif t.endswith('event_listener::Event') or 'event_listener::Event' in t: s.event.add(f['n'])
        s.fn = {}
        for f in P.fns.values():
            if f['kind'] in ('fn', 'method') and f.get('self_ty', '') and last(_strip(f['self_ty'])) == 'FutureCompletionSource' and not f.get('of_trait'):
                s.fn[last(f['id'])] = f['id']
        s.mod = mod
        for n in ('new', 'new_with_value', 'set_value', 'set_err', 'future', 'state'):
            if n not in s.fn: c.missing('FutureCompletionSource::' + n); return
        if not s.slot: c.missing('the lock-protected value slot of FutureCompletionSource'); return
        if not s.event: c.missing('the completion event of FutureCompletionSource'); return
        s.ok = True


def _strip(t):
    from engine import _strip_generics
    return _strip_generics(t)


def on_field(E, st, t, names):
    """is t (a pointer argument) the field called one of `names`"""
    n = 0
    while n < 4:
        if t.op == 'ref' and t.a[0][1] and t.a[0][1][-1][0] == 'f' and t.a[0][1][-1][1] in names: return True
        if t.op == 'fld' and t.a[1] in names: return True
        if t.op == 'ref': t = E.read(st, t.a[0]); n += 1; continue
        if t.op == 'box': t = t.a[1]; n += 1; continue
        return False
    return False


def lock_term(t, kinds):
    """the lock() call inside t"""
    for s in subterms(t):
        if s.op == 'call' and s.a[1] in kinds: return s
    return None


WRITE = ('RwLock::write', 'Mutex::lock', 'RwLock::try_write')
READ = ('RwLock::read', 'Mutex::lock', 'RwLock::try_read', 'RwLock::write')


def false_fact(E, st, t): return E.fact_bool(st, t) is False


class Setter(Rule):
    """state: (guard, unset, stored, flag, notified)
       guard: None or the write-lock call holding the slot;  unset: completion was seen absent under that guard
       stored: the value was put in the slot;  flag: 0/1;  notified"""

    def __init__(s, c, a, entry, payload, p02):
        s.c, s.a, s.entry, s.payload, s.p02 = c, a, entry, payload, p02
        s.label = last(entry)

    def init(s): return (None, None, 0, 0, 0)

    def chk(s, cond, kind, ev, msg):
        if not s.E.final: return
        s.c.ob(kind, ev.where)
        if not cond: s.c.bad('%s:%s' % (s.label, kind), ev.where, msg)

    def evidence(s, E, st, ev_load):
        return False

    def event(s, kind, ev, st, E):
        s.E = E
        g, tests, stored, flag, notified = st.auto
        a = s.a
        if flag == 2 and tests is not None:
            # an exchange raises the flag only where it found it down
            if E.fact_bool(st, tests) is True or E.fact_var(st, tests) == frozenset(['Err']): flag = 0
            elif E.fact_bool(st, tests) is False or E.fact_var(st, tests) == frozenset(['Ok']): flag = 1
        if kind == 'ret' and ev.name in WRITE and on_field(E, st, ev.args[0], a.slot):
            return (ev.val, None, stored, flag, notified)
        if kind == 'ret' and ev.name == 'Atomic::load' and on_field(E, st, ev.args[0], a.flag):
            return (g, ev.val if g is not None else tests, stored, flag, notified)
        if kind == 'ret' and ev.name in ('Atomic::swap', 'Atomic::compare_exchange', 'Atomic::fetch_or', 'Atomic::compare_exchange_weak') and on_field(E, st, ev.args[0], a.flag):
            return (g, ev.val, stored, 2 if flag == 0 else flag, notified)
        if kind == 'call' and ev.name == 'Atomic::store' and on_field(E, st, ev.args[0], a.flag):
            if ev.args[1] is TRUE or (ev.args[1].op == 'const' and ev.args[1].a[0] is True):
                if not s.p02:
                    s.chk(g is not None or stored, 'completed flag is raised under the lock or after the value is in place', ev,
                          'the completed flag is raised while the slot is neither locked nor filled: a consumer can observe completion without a value')
                return (g, tests, stored, 1, notified)
            if not s.p02: s.chk(False, 'completed flag is never lowered', ev, 'the completed flag is lowered')
            return (g, tests, stored, 0, notified)
        if kind == 'store' and ev.loc[0][0] == 'p':
            lk = lock_term(ev.loc[0][1], WRITE) if ev.loc[0][1].op != 'arg' else None
            if lk is not None:
                if not s.p02:
                    s.chk(g is lk, 'the slot is written while its lock is held', ev, 'the value slot is written after its lock was released')
                    s.chk(s.unset(E, st, ev, g, tests), 'the slot is written only after completion was seen absent under the same lock', ev,
                          'the value slot is overwritten without having established, under the same lock, that nothing completed the source before: two concurrent completers can both succeed')
                    s.chk(stored == 0, 'the slot is written once', ev, 'the value slot is written twice on one path')
                    v = ev.val
                    want = some(agg('Result', s.payload, (('0', mk('arg', 2)),)))
                    s.chk(v is want, 'the stored outcome is the caller\'s', ev, 'the stored outcome is %s instead of %s(<argument>)' % (show(v), s.payload))
                return (g, tests, 1, flag, notified)
        if kind == 'drop' and g is not None and 'Guard' in ev.ty and contains(ev.val, g):
            if not s.p02 and (stored or flag):
                s.chk(bool(stored) or not flag, 'value and flag change together under the lock', ev, 'the lock is released with the completed flag raised and no value in the slot')
            return (None, None, stored, flag, notified)
        if kind == 'call' and ev.name.startswith('Event::notify') and on_field(E, st, ev.args[0], a.event):
            if s.p02:
                n = ev.args[1]
                s.chk(ev.name in ('Event::notify', 'Event::notify_additional'), 'notification is a full (fencing) notify', ev, '%s does not order the completion before the wake-up' % ev.name)
                s.chk(n.op == 'const' and n.a[0] == MAXUSIZE, 'every waiter is notified', ev, 'only %s waiter(s) are notified on completion, but any number may be waiting' % show(n))
                s.chk(bool(flag) and bool(stored), 'waiters are notified after the completion is visible', ev, 'waiters are notified before the value and the completed flag are set: a woken waiter finds no result')
            return (g, tests, stored, flag, 1 if flag and stored else notified)
        if kind == 'return':
            v = ev.val
            for x in E.leaves(v):
                if is_agg(x, 'Ok'):
                    if s.p02: s.chk(bool(notified), 'success implies waiters were notified', ev, 'reports success without notifying the waiters')
                    else: s.chk(bool(stored) and (bool(flag) or not a.flag), 'success implies value stored and completion published', ev, 'reports success although the value was not stored or completion was not published on this path')
                elif is_agg(x, 'Err'):
                    if not s.p02: s.chk(not stored and not flag, 'failure leaves the source unchanged', ev, 'reports failure after having changed the source')
                elif not s.p02: s.chk(False, 'outcome is a known Ok/Err', ev, 'the reported outcome %s cannot be resolved' % show(x))
        return None

    def unset(s, E, st, ev, g, tests):
        if g is None: return False
        # the flag was loaded (under the guard) and is false here
        if tests is not None:
            if E.fact_bool(st, tests) is False: return True
            if E.fact_var(st, tests) == frozenset(['Ok']): return True     # compare_exchange succeeded
        # or the slot itself was seen empty
        slot = None
        for k, f in st.facts.items():
            if k.op == 'var' and f == ('in', frozenset(['None'])) and contains(k.a[0], g): return True
        return False


def scan_writers(P, a, c):
    """who may touch the shared state: every write-lock / atomic update of the fields, anywhere in the crate"""
    for f in P.fns.values():
        if not f['id'].startswith(a.mod): continue
        for b in f['blocks']:
            t = b['t']
            if t['k'] == 'call' and 'c' in t['fn'] and 'fn' in t['fn']['c']:
                n = short(t['fn']['c']['fn'])
                if n in ('RwLock::write', 'RwLock::try_write', 'Atomic::store', 'Atomic::swap', 'Atomic::compare_exchange', 'Atomic::get_mut', 'RwLock::get_mut', 'Event::notify'):
                    yield f, n, t


class Ctor(Rule):
    def __init__(s, c, a, entry, ready, completers): s.c, s.a, s.entry, s.ready, s.completers = c, a, entry, ready, completers

    def pure_names(s): pass
    pure = ()

    def model(s, name):
        if name in ('Atomic::new', 'RwLock::new', 'Mutex::new', 'Event::new'):
            return lambda E, st, c: [E.finish(st, c, app(name, *c.args))]

    def init(s): return None
    def stop(s, fid): return fid in s.completers

    def event(s, kind, ev, st, E):
        if kind == 'call' and getattr(ev, 'id', None) in s.completers:
            src, v = E.val(st, ev.args[0]), ev.args[1]
            # completing the fresh source through the checked completion path
            if s.ready and st.auto is None and (v is mk('arg', 1) and last(ev.id) == 'set_value' or v is ok(mk('arg', 1))): return src
            return 'other'
        if kind == 'return' and E.final:
            fl, sl = [], []
            def walk(t):
                for x in subterms(t):
                    if x.op == 'app' and x.a[0] == 'Atomic::new': fl.append(x.a[1])
                    if x.op == 'app' and x.a[0] in ('RwLock::new', 'Mutex::new'): sl.append(x.a[1])
            walk(ev.val)
            s.c.ob('constructor state', ev.where)
            good = len(sl) == 1 and len(fl) == (1 if s.a.flag else 0)
            if good and s.ready and st.auto is None: good = all(x is TRUE for x in fl) and sl[0] is some(ok(mk('arg', 1)))
            elif good: good = all(x is FALSE for x in fl) and sl[0] is NONE and st.auto in (None, ev.val)
            if not good: s.c.bad('ctor:' + last(s.entry), ev.where, 'a new source starts with flag %s and slot %s' % ([show(x) for x in fl], [show(x) for x in sl]))


class Reader(Rule):
    """FutureCompletionSource::state"""
    def __init__(s, c, a): s.c, s.a = c, a
    def init(s): return (None,)

    def event(s, kind, ev, st, E):
        if kind == 'ret' and ev.name == 'Atomic::load' and on_field(E, st, ev.args[0], s.a.flag): return (ev.val,)
        if kind == 'return' and E.final:
            for x in E.leaves(ev.val):
                s.c.ob('outcome read', ev.where)
                if is_agg(x, 'Ready'):
                    src = lock_term(x, READ)
                    want = src is not None and src.a[1] in READ
                    if not want: s.c.bad('state:ready', ev.where, 'a completed source reports %s, which is not the stored outcome' % show(x))
                    else:
                        for y in E.leaves(project(x, ('f', '0'))):
                            if is_agg(y):
                                inner = y.a[2][0][1]
                                if not (inner.op == 'fld' and inner.a[0].op == 'as' and inner.a[0].a[1] == y.a[1]):
                                    s.c.bad('state:outcome', ev.where, 'the stored outcome is reported as %s' % show(y))
                elif is_agg(x, 'Pending'):
                    l = st.auto[0]
                    seen = l is not None and E.fact_bool(st, l) is False
                    if not seen: seen = any(k.op == 'var' and f == ('in', frozenset(['None'])) and lock_term(k, READ) is not None for k, f in st.facts.items())
                    if not seen: s.c.bad('state:pending', ev.where, 'Pending is reported on a path where completion was not seen absent')


class Shared(Rule):
    def __init__(s, c): s.c = c
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            s.c.ob('clone shares the state', ev.where)
            v = ev.val
            if v.op == 'agg':
                for n, x in v.a[2]:
                    if x is not mk('fld', mk('arg', 1), n): s.c.bad('clone', ev.where, 'a clone does not share the state of its original: %s = %s' % (n, show(x)))
            elif v is not mk('arg', 1): s.c.bad('clone', ev.where, 'a clone is %s' % show(v))


def clone_fn(P, a):
    for i in P.impls:
        if i.get('trait') == 'core::clone::Clone' and last(_strip(i['self_ty'])) == 'FutureCompletionSource':
            for it in i['items']:
                if it['n'] == 'clone': return it['id']


def single_assignment(c):
    c.rule('guarded-check', 'in set_value/set_err every write of the slot happens with the slot lock held, after completion was seen absent under that lock, once, with the caller\'s outcome; Ok <=> written and published, Err <=> unchanged')
    c.rule('who-may-write', 'only the constructors and the completion path lock the slot for writing or change the flag')
    P = c.program(UNITS)
    a = Anchors(P, c)
    if not a.ok: return
    inl = set()
    for n, pl in (('set_value', 'Ok'), ('set_err', 'Err')):
        E = c.run_engine(P, Setter(c, a, a.fn[n], pl, False), a.fn[n])
        inl |= E.inlined | {a.fn[n]}
    for n, r in (('new', False), ('new_with_value', True)): c.run_engine(P, Ctor(c, a, a.fn[n], r, {f for f in inl if f in a.fn.values()}), a.fn[n])
    c.run_engine(P, Reader(c, a), a.fn['state'])
    cl = clone_fn(P, a)
    if cl: c.run_engine(P, Shared(c), cl)
    for f, n, t in scan_writers(P, a, c):
        if '::async_extensions' in f['id'] or '::tests' in f['id']: continue
        c.ob('writer of the shared state', loc_str(t['s']))
        if f['id'] not in inl: c.bad('writer:' + f['id'], loc_str(t['s']), '%s is called in %s, which is not part of the completion path' % (n, f['name']))
    c.floor('the slot is written only after completion was seen absent under the same lock', 2)
    c.floor('success implies value stored and completion published', 2)
    c.floor('failure leaves the source unchanged', 2)


def stored(E, x):
    if lock_term(x, READ) is not None: return True
    if x.op == 'agg' and x.a[2]: return all(stored(E, y) for _, f in x.a[2] for y in E.leaves(f))
    return False


class Waiter(Rule):
    """FutureCompletionSource::future: (listener, last check, made since the listener was registered?, awaited)"""
    def __init__(s, c, a): s.c, s.a = c, a
    def init(s): return (None, None, False, False)
    def partition(s, st, E): return (E.tags(st), st.auto, s.pending(st, E, st.auto[1]))

    def pending(s, st, E, chk):
        """did the last check find the source not yet completed?"""
        if chk is None: return False
        if E.fact_bool(st, chk) is False: return True
        return any(k.op == 'var' and f == ('in', frozenset(['None'])) and contains(k, chk) for k, f in st.facts.items())

    def event(s, kind, ev, st, E):
        l, chk, since, aw = st.auto
        if kind == 'ret' and ev.name == 'Event::listen' and on_field(E, st, ev.args[0], s.a.event): return (ev.val, chk, False, aw)
        if kind == 'ret' and (ev.name == 'Atomic::load' and on_field(E, st, ev.args[0], s.a.flag) or ev.name in READ and on_field(E, st, ev.args[0], s.a.slot)):
            return (l, ev.val, l is not None, aw)
        if kind == 'await':
            if l is not None and contains(ev.fut, l):
                if E.final:
                    s.c.ob('await on a completion listener', ev.where)
                    if not since or chk is None: s.c.bad('future:recheck', ev.where, 'the listener is awaited without re-checking the state after it was registered: a completion between the first check and the registration is never observed')
                    elif not s.pending(st, E, chk): s.c.bad('future:asleep', ev.where, 'the listener is awaited although the source may be known to be completed: the notification has been given already')
                return (None, None, False, True)
            if E.final and 'Event::listen' in show(ev.fut):
                s.c.bad('future:reuse', ev.where, 'a listener that was already awaited is awaited again')
        if kind == 'return' and E.final:
            for x in E.leaves(ev.val):
                s.c.ob('delivered outcome', ev.where)
                if not stored(E, x): s.c.bad('future:value', ev.where, 'the future resolves with %s, which is not the stored outcome' % show(x))
        if kind == 'panic' and E.final and not ev.name.startswith(('Result::', 'Option::')):
            s.c.ob('panic path', ev.where)
            invariant = any(k.op == 'var' and f == ('in', frozenset(['None'])) and lock_term(k, READ) is not None for k, f in st.facts.items())
            if not invariant and not (aw and s.pending(st, E, chk)): s.c.bad('future:panic', ev.where, 'the future can panic although the source is completed or it has not waited yet')
        return None


def no_lost_wakeup(c):
    c.rule('register-then-recheck', 'in future() every await of a listener is preceded, after the registration of that listener, by a check of the completion state')
    c.rule('publish-then-notify', 'in set_value/set_err every success path notifies all waiters after the value and the flag are set')
    P = c.program(UNITS)
    a = Anchors(P, c)
    if not a.ok: return
    body = a.fn['future'] + '::{closure#0}'
    if body not in P.fns: body = a.fn['future']
    c.run_engine(P, Waiter(c, a), body)
    for n, pl in (('set_value', 'Ok'), ('set_err', 'Err')): c.run_engine(P, Setter(c, a, a.fn[n], pl, True), a.fn[n])
    c.floor('await on a completion listener', 1)
    c.floor('delivered outcome', 2)
    c.floor('every waiter is notified', 2)
    c.floor('success implies waiters were notified', 2)
