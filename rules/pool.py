"""AsyncPool: a task is polled only by one poller at a time, kept while pending, re-queued by every wake-up."""
from engine import *
from engine import _strip_generics
from fcs import on_field
from jsonrpc import method

UNITS = ['analyzer_abstractions']
LOCKS = ('Mutex::lock', 'RwLock::write')
RECV = ('Receiver::recv', 'StreamExt::next', 'Stream::next', 'Receiver::recv_blocking', 'Receiver::try_recv')
WAKERS = ('waker_ref::waker_ref', 'waker::waker', 'ArcWake::into_waker', 'arc_wake::waker', 'Waker::from', 'task::waker', 'task::waker_ref')


def static_of(t):
    for s in subterms(t):
        if s.op == 'static': return s.a[0]
    return None


def canceled(E, st, canc):
    """what the last look at the token established: True, False or None (nothing)"""
    if canc is None: return None
    if canc.op == 'call' and canc.a[1] == 'CancellationToken::result':
        v = E.fact_var(st, canc)
        return {frozenset(['Err']): True, frozenset(['Ok']): False}.get(v)
    return E.fact_bool(st, canc)


class Start(Rule):
    """state: (dequeued task result, guard result, poll result, cancellation test, tested since the last dequeue, receive call)"""
    def __init__(s, c, life): s.c, s.life = c, life; s.static = None
    def init(s): return (None, None, None, None, False, False)

    def partition(s, st, E):
        a = st.auto
        return (E.tags(st), E.fact_var(st, a[2]) if a[2] is not None else None, E.fact_var(st, E.init_value(('p', pay(a[1], 'Ok')))) if a[1] is not None else None)

    def event(s, kind, ev, st, E):
        res, g, polled, canc, fresh, handled = st.auto
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'ret' and name in ('CancellationToken::is_canceled', 'CancellationToken::result'):
            return (res, g, polled, ev.val, True, handled)
        if kind == 'call' and name in RECV:
            if F:
                if s.life:
                    c.ob('dequeue', ev.where)
                    if not (fresh and canceled(E, st, canc) is False):
                        c.bad('start:token', ev.where, 'a task is dequeued without having found the cancellation token unset since the previous one')
                    if res is not None and E.fact_var(st, res) not in (frozenset(['Ok']), frozenset(['Some'])):
                        c.bad('start:closed', ev.where, 'the loop goes on after the queue was found closed: it never ends')
                else: s.settled(ev, st, E)
                s.static = static_of(E.val(st, ev.args[0], 4))
            return (None, None, None, canc, False, False)
        if kind == 'ret' and name == 'await' and any(x.op == 'call' and x.a[1] in RECV for x in subterms(ev.val)):
            return (ev.val, None, None, canc, False, False)
        if kind == 'ret' and name in ('Receiver::try_recv', 'Receiver::recv_blocking'): return (ev.val, None, None, canc, False, False)
        if kind == 'ret' and name in LOCKS and res is not None and (contains(ev.args[0], res) or contains(E.val(st, ev.args[0]), res)):
            return (res, ev.val, None, canc, fresh, handled)
        if s.life:
            if kind == 'return' and F: s.ret(ev, st, E, canc)
            return None
        if kind == 'call' and name == 'Future::poll':
            if F:
                c.ob('poll of a task', ev.where)
                f = E.val(st, ev.args[0], 4)
                while True:
                    f2 = strip(E.val(st, f, 4))
                    if f2 is f: break
                    f = f2
                if g is None: c.bad('poll:unlocked', ev.where, 'a task is polled without holding the lock of its slot: two wake-ups can poll it at the same time')
                elif not any(contains(x, g) for x in E.leaves(f)): c.bad('poll:foreign', ev.where, 'the polled future %s is not the one of the locked slot' % show(f, 4))
                if polled is not None and E.fact_var(st, polled) != frozenset(['Pending']): c.bad('poll:again', ev.where, 'a future that may have completed is polled again')
                w = E.val(st, ev.args[1], 5)
                ok_ = False
                for x in subterms(w):
                    if x.op == 'call' and x.a[1] in WAKERS and res is not None and contains(E.val(st, x.a[2], 4), res): ok_ = True
                if not ok_: c.bad('poll:waker', ev.where, 'the task is polled with a waker that does not re-queue it: %s' % show(w, 4))
            return None
        if kind == 'ret' and name == 'Future::poll':
            return (res, g, ev.val, canc, fresh, handled)
        if kind == 'drop' and g is not None and 'Guard<' in ev.ty and any(contains(x, g) for x in E.leaves(ev.val)):
            if F: s.release(ev, st, E, g, polled)
            return (res, None, None, canc, fresh, True)
        if kind == 'return' and F: s.settled(ev, st, E)
        if kind == 'panic' and F and not (name in ('Result::unwrap', 'Result::expect') and g is not None and ev.args[0] is g):
            c.bad('start:panic', ev.where, 'the executor can panic at %s' % name)
        return None

    def settled(s, ev, st, E):
        """every dequeued task was looked at under its lock"""
        res, g, polled, canc, fresh, handled = st.auto
        s.c.ob('dequeued task settled', ev.where)
        if res is not None and not handled:
            v = E.fact_var(st, res)
            if not (v and not (v & {'Ok', 'Some'})): s.c.bad('task:dropped', ev.where, 'a dequeued task is dropped without being polled: its wake-up is lost')

    def release(s, ev, st, E, g, polled):
        c = s.c
        c.ob('slot released', ev.where)
        for gv in E.leaves(ev.val):
            loc = (('p', gv), ())
            init = E.init_value(loc[0])
            now = E.read(st, loc)
            if polled is None:
                if E.fact_var(st, init) != frozenset(['None']): c.bad('slot:unpolled', ev.where, 'the slot is released without polling the task it may hold: the wake-up is lost')
                continue
            v = E.fact_var(st, polled)
            if v == frozenset(['Pending']):
                good = all(x is init or (is_agg(x, 'Some') and all(contains(y, gv) for y in E.leaves(x.a[2][0][1]))) or (x.op != 'agg' and contains(x, gv)) for x in E.leaves(now))
                if not good: c.bad('slot:lost', ev.where, 'a pending task is not put back in its slot (%s): it is never polled again' % show(now, 4))
            elif v == frozenset(['Ready']):
                if not all(is_agg(x, 'None') for x in E.leaves(now)): c.bad('slot:kept', ev.where, 'a completed task is kept in its slot (%s): it can be polled after completion' % show(now, 4))
            else: c.bad('slot:unknown', ev.where, 'the slot is released without distinguishing a pending from a completed task')

    def ret(s, ev, st, E, canc):
        c = s.c
        for x in E.leaves(ev.val):
            c.ob('pool outcome', ev.where)
            k = canceled(E, st, canc)
            if x.op == 'call' and x.a[1] == 'CancellationToken::result': continue      # the token's own verdict
            if is_agg(x, 'Err'):
                if k is not True: c.bad('start:err', ev.where, 'cancellation is reported although the token was not found set')
            elif is_agg(x, 'Ok'):
                if k is not False: c.bad('start:ok', ev.where, 'a normal end is reported on a path where the token was not found unset')
            else: c.bad('start:ret', ev.where, 'the outcome %s cannot be resolved' % show(x, 4))


class Wake(Rule):
    """state: (closed test, number of sends)"""
    def __init__(s, c): s.c = c
    def init(s): return (None, 0)

    def event(s, kind, ev, st, E):
        cl, n = st.auto
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'ret' and name in ('Sender::is_closed', 'Receiver::is_closed'): return (ev.val, n)
        if kind == 'call' and name in ('Sender::send_blocking', 'Sender::try_send', 'Sender::send', 'Sender::force_send'):
            if F:
                c.ob('wake-up enqueues the task', ev.where)
                if name == 'Sender::send': c.bad('wake:async', ev.where, 'the send is never awaited: nothing is enqueued')
                if not on_field(E, st, ev.args[0], s.sender) or not contains(E.val(st, ev.args[0]) if ev.args[0].op == 'ref' and ev.args[0].a[0][0][0] != 'p' else ev.args[0].a[0][0][1] if ev.args[0].op == 'ref' else ev.args[0], mk('arg', 1)):
                    c.bad('wake:queue', ev.where, 'the wake-up does not use the queue of the task itself')
                if E.val(st, ev.args[1]) is not mk('arg', 1): c.bad('wake:task', ev.where, 'the wake-up enqueues %s, not the task that was woken' % show(ev.args[1], 4))
            return (cl, min(n + 1, 3))
        if kind == 'return' and F:
            c.ob('wake-up outcome', ev.where)
            if n == 0 and not (cl is not None and E.fact_bool(st, cl) is True): c.bad('wake:lost', ev.where, 'a wake-up is dropped although the queue was not found closed')
            if n > 1: c.bad('wake:twice', ev.where, 'one wake-up enqueues the task more than once')
        if kind == 'panic' and F: c.bad('wake:panic', ev.where, 'waking a task can panic (%s): the queue can be closed at any moment' % name)
        return None


class Spawn(Rule):
    def __init__(s, c): s.c = c; s.static = None
    def init(s): return 0

    def model(s, name):
        if name in ('Mutex::new', 'RwLock::new'): return lambda E, st, c: [E.finish(st, c, app('lock', c.args[0]))]

    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in ('Sender::send_blocking', 'Sender::try_send', 'Sender::send', 'Sender::force_send'):
            if F:
                c.ob('spawn enqueues the task', ev.where)
                q = E.val(st, ev.args[0], 4)
                s.static = static_of(q)
                if s.static is None: c.bad('spawn:queue', ev.where, 'the task is not enqueued on the queue of the pool')
                if name == 'Sender::send': c.bad('spawn:async', ev.where, 'the send is never awaited: nothing is enqueued')
                w = strip(E.val(st, ev.args[1], 4))
                fs = dict(w.a[2]) if w.op == 'agg' else {}
                lk = [v for v in fs.values() if v.op == 'app' and v.a[0] == 'lock']
                if len(lk) != 1 or not is_agg(lk[0].a[1], 'Some') or _unbox(lk[0].a[1].a[2][0][1]) is not mk('arg', 1):
                    c.bad('spawn:future', ev.where, 'the enqueued task does not hold the given future: %s' % show(w, 5))
                if not any(v is q or static_of(v) == s.static and project_same(v, q) for v in fs.values()): c.bad('spawn:sender', ev.where, 'the task does not keep the queue it was put on: its wake-ups go elsewhere')
            return min(st.auto + 1, 3)
        if kind == 'return' and F:
            c.ob('spawn outcome', ev.where)
            if st.auto != 1: c.bad('spawn:count', ev.where, 'a spawned task is enqueued %d times' % st.auto)
        return None


def _unbox(t):
    while t.op == 'box': t = t.a[1]
    return t


def project_same(a, b): return a is b or show(a) == show(b)


class Stop(Rule):
    def __init__(s, c): s.c = c; s.static = None
    def init(s): return False
    def event(s, kind, ev, st, E):
        if kind == 'call' and ev.name in ('Sender::close', 'Receiver::close'):
            s.static = static_of(E.val(st, ev.args[0], 4))
            return True
        if kind == 'return' and E.final:
            s.c.ob('stop closes the queue', ev.where)
            if not st.auto: s.c.bad('stop:open', ev.where, 'stop returns without closing the queue: the executor never ends')
        return None


def anchors(c, P):
    st = method(P, 'AsyncPool', 'start'); sp = method(P, 'AsyncPool', 'spawn_work'); so = method(P, 'AsyncPool', 'stop')
    wk = method(P, 'AsyncWork', 'wake_by_ref', 'ArcWake')
    if wk is None:
        for i in P.impls:
            if i.get('trait') and last(i['trait']) == 'ArcWake':
                for it in i['items']:
                    if it['n'] == 'wake_by_ref': wk = it['id']
    for n, v in (('AsyncPool::start', st), ('AsyncPool::spawn_work', sp), ('AsyncPool::stop', so), ('the ArcWake implementation of the pool', wk)):
        if v is None: c.missing(n); return None
    body = st + '::{closure#0}'
    if body not in P.fns: c.missing('the async body of AsyncPool::start'); return None
    return body, sp, so, wk


def sender_fields(P):
    out = set()
    for a in P.adts.values():
        if 'async_extensions' in a['name']:
            for v in a['variants']:
                for f in v['fields']:
                    if 'Sender<' in f['t']: out.add(f['n'])
    return out


def queue_unbounded(c, P, static):
    """the queue is created unbounded: a wake-up from inside a poll must not block"""
    base = static.split('::{constant')[0]
    n = 0
    for fid, f in P.fns.items():
        if not fid.startswith(base): continue
        for b in f['blocks']:
            t = b['t']
            if t['k'] == 'call' and 'fn' in t['fn'].get('c', {}):
                fr = t['fn']['c']['fn']
                nm = short(fr)
                if nm.endswith('::bounded') or nm.endswith('::unbounded'):
                    n += 1
                    c.ob('queue creation', loc_str(t['s']))
                    if nm.endswith('::bounded'): c.bad('queue:bounded', loc_str(t['s']), 'the work queue is bounded: a wake-up or spawn from the executor\'s own thread blocks it forever once the queue is full')
    if n == 0: c.missing('the creation of the work queue')


def tasks(c):
    c.rule('slot typestate', 'in AsyncPool::start a future is polled only under the lock of the slot it was taken from, with a waker of the same task; when the lock is released the slot holds the future iff the poll returned Pending')
    c.rule('wake-ups', 'wake_by_ref puts exactly this task on its own queue once, unless the queue was found closed, and cannot panic; spawn_work enqueues the given future once; the queue is unbounded')
    P = c.program(UNITS)
    a = anchors(c, P)
    if not a: return
    body, sp, so, wk = a
    r = Start(c, False)
    c.run_engine(P, r, body)
    w = Wake(c); w.sender = sender_fields(P)
    c.run_engine(P, w, wk)
    q = Spawn(c)
    c.run_engine(P, q, sp)
    if r.static is None: c.missing('the queue AsyncPool::start receives from')
    elif q.static is not None and q.static != r.static: c.bad('queue:two', sp, 'spawn_work and start use different queues')
    if r.static: queue_unbounded(c, P, r.static)
    for k in ('poll of a task', 'slot released', 'dequeued task settled', 'wake-up enqueues the task', 'spawn enqueues the task', 'queue creation'): c.floor(k, 1)


def lifecycle(c):
    c.rule('cancellation', 'in AsyncPool::start no task is dequeued unless the token was found unset since the previous one; Err(OperationCanceled) is returned iff the token was found set last')
    c.rule('closing', 'stop closes the queue start receives from, and start leaves its loop once the queue is closed')
    P = c.program(UNITS)
    a = anchors(c, P)
    if not a: return
    body, sp, so, wk = a
    r = Start(c, True)
    c.run_engine(P, r, body)
    t = Stop(c)
    c.run_engine(P, t, so)
    if t.static is not None and r.static is not None and t.static != r.static: c.bad('queue:stop', so, 'stop closes another queue than the one start receives from')
    for k in ('dequeue', 'pool outcome', 'stop closes the queue'): c.floor(k, 1)
