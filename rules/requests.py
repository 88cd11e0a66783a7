"""RequestManager: requests of the server to its client."""
from engine import *
from engine import _strip_generics
from jsonrpc import method

UNITS = ['analyzer_host']
SENDS = ('Sender::send', 'Sender::send_blocking', 'Sender::try_send')
CLOSED = ('Receiver::is_closed', 'Sender::is_closed')
RECV = ('Receiver::recv', 'StreamExt::next', 'Stream::next', 'Receiver::recv_blocking', 'Receiver::try_recv')
FCS = 'FutureCompletionSource'
SETS = ('FutureCompletionSource::set_value', 'FutureCompletionSource::set_err')


def map_insert(E, st, c):
    """HashMap::insert as a store at its key"""
    m, k, v = c.args[0], E.val(st, c.args[1]), c.args[2]
    loc = m.a[0] if m.op == 'ref' else (('p', m), ())
    E.emit('call', st, c.ctx, c.span, name=c.name, args=[E.val(st, m), k, v], fr=c.fr, id=None, call=c, map=loc)
    old = mk('call', c.site, c.name, E.val(st, m), k)
    E.refresh(st, old)
    E.write(st, (loc[0], loc[1] + (('i', k),)), v)
    return [E.finish(st, c, old)]


def same_clone(E, st, c):
    """the clone of an identifier or message is that identifier or message"""
    f = E.P.fns.get(c.fr.get('rid') or '')
    if f is not None and not any('derive' in str(m) or m == 'Clone' for m in (f['span'].get('m') or [])): return None
    return [E.finish(st, c, E.val(st, c.args[0]))]


def msg_payload(t, kind):
    """the payload of a Message of the given kind, or None"""
    t = strip(t)
    if t.op == 'agg' and t.a[0] == 'Message': return t.a[2][0][1] if t.a[1] == kind else None
    return None


def recv_item(t):
    """a message taken from a channel"""
    return any(x.op == 'call' and x.a[1] in RECV for x in subterms(t))


class Base(Rule):
    def __init__(s, c, P): s.c, s.P = c, P
    def stop(s, fid): return 'futures_extensions' in fid
    def model(s, name):
        if name == 'HashMap::insert': return map_insert
        if name == 'Clone::clone': return same_clone

    def map_of(s, E, st, t):
        """the map behind an argument, as the path from self"""
        return t

    def field(s, t): return next((x.a[1] for x in subterms(t) if x.op == 'fld' and x.a[0] is mk('arg', 1)), None)


def self_fields(t):
    out = set()
    for x in subterms(t):
        if x.op == 'fld' and x.a[0] is mk('arg', 1): out.add(x.a[1])
        if x.op == 'ref' and x.a[0][0] == ('p', mk('arg', 1)) and x.a[0][1]: out.add(x.a[0][1][0][1])
    return out


class Send(Base):
    """state: (id of the registered request, its source, awaited send, awaited response, removed, test of the channel of responses after registration)"""
    def __init__(s, c, P, typed, decodes):
        Base.__init__(s, c, P); s.typed, s.decodes = typed, decodes
        s.counters, s.maps = set(), set()
    def init(s): return (None, None, None, None, False, None)

    def partition(s, st, E):
        a = st.auto
        return (E.tags(st), E.fact_var(st, a[2]) if a[2] is not None else None, E.fact_var(st, a[3]) if a[3] is not None else None, E.fact_bool(st, a[5]) if a[5] is not None else None, s.why(st, E))

    def why(s, st, E):
        """reasons on this path for not handing out a result"""
        resp = st.auto[3]
        if resp is None: return ()
        msg = pay(resp, 'Ok')
        return (any(E.fact_var(st, t) == frozenset(['Some']) for t in facts_on(st, 'error', msg)),
                any(E.fact_var(st, t) == frozenset(['None']) for t in facts_on(st, 'result', msg)),
                any(k.op == 'var' and f == ('in', frozenset(['Err'])) and k.a[0].op == 'call' and 'from_' in k.a[0].a[1] for k, f in st.facts.items()),
                any(k.op == 'var' and f[0] == 'in' and 'Response' not in f[1] and contains(k, msg) and f[1] & {'Request', 'Notification'} for k, f in st.facts.items()))

    def event(s, kind, ev, st, E):
        rid, src, sent, resp, gone, chk = st.auto
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'HashMap::insert' and strip_src(ev.args[2]) is not None:
            if F:
                c.ob('request registered', ev.where)
                s.maps |= self_fields(ev.args[0])
                if rid is not None: c.bad('register:twice', ev.where, 'a request is registered twice')
                if sent is not None: c.bad('register:late', ev.where, 'the request is registered after it was sent: its response may arrive first and is dropped')
            return (E.val(st, ev.args[1]), strip_src(ev.args[2]), sent, resp, gone, None)
        if kind == 'call' and name.startswith('HashMap::remove') and rid is not None:
            if E.val(st, ev.args[1]) is rid:
                if F: s.maps |= self_fields(E.val(st, ev.args[0]))
                return (rid, src, sent, resp, True, chk)
            return None
        if kind == 'call' and name in SENDS:
            m = strip(E.val(st, ev.args[1]))
            p = msg_payload(m, 'Request')
            if p is None:
                if F: c.bad('send:other', ev.where, 'a request manager asked to send a request sends %s' % show(m, 3))
                return None
            if F: s.sent(ev, st, E, p, rid, src)
            if name == 'Sender::send': return None
        if kind == 'ret' and (name == 'await' and any(x.op == 'call' and x.a[1] in SENDS for x in subterms(ev.args[0])) and ev.args[0].op == 'call' and ev.args[0].a[1] in SENDS or name in SENDS and name != 'Sender::send'):
            return (rid, src, ev.val, resp, gone, chk)
        if kind == 'call' and name == FCS + '::future':
            if F:
                c.ob('response awaited', ev.where)
                f = strip_src(E.val(st, ev.args[0], 4))
                if src is None or f is not src: c.bad('await:source', ev.where, 'the response is awaited from %s, not from the source registered for this request' % show(f or ev.args[0], 3))
                if sent is None: c.bad('await:unsent', ev.where, 'the response is awaited before the request is sent')
                elif E.fact_var(st, sent) != frozenset(['Ok']): c.bad('await:failed', ev.where, 'a response is awaited although sending the request may have failed: the caller waits for ever')
                if chk is None or E.fact_bool(st, chk) is not False: c.bad('await:ended', ev.where, 'a response is awaited although no further response may be received: when the manager has ended, the caller waits for ever')
                if gone: c.bad('await:gone', ev.where, 'the request is no longer registered when its response is awaited')
            return None
        if kind == 'ret' and name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] == FCS + '::future':
            return (rid, src, sent, ev.val, gone, chk)
        if kind == 'ret' and name in CLOSED and rid is not None and s.field(E.val(st, ev.args[0])) is not None: return (rid, src, sent, resp, gone, ev.val)
        if kind == 'return' and F: s.ret(ev, st, E)
        if kind == 'panic' and F and not benign_panic(ev, st, E): c.bad('send:panic', ev.where, 'sending a request can panic at %s' % name)
        return None

    def sent(s, ev, st, E, p, rid, src):
        c = s.c
        c.ob('request sent', ev.where)
        fs = dict(p.a[2]) if p.op == 'agg' else {}
        i = fs.get('id', p)
        if rid is None: c.bad('send:unregistered', ev.where, 'the request is sent before it is registered as awaiting: its response may arrive first and is dropped')
        elif i is not rid: c.bad('send:id', ev.where, 'the request is sent with the identifier %s but registered under %s' % (show(i, 4), show(rid, 4)))
        src_ = [x for x in subterms(i) if x.op == 'call' and x.a[1].startswith('Atomic') and x.a[1].endswith(('::fetch_add', '::fetch_sub'))]
        if len(src_) != 1 or src_[0].a[3] in (ZERO,) or src_[0].a[3].op != 'const': c.bad('id:source', ev.where, 'the identifier %s does not come from one atomic counter step' % show(i, 4))
        else: s.counters.add(src_[0].a[2])
        if contains_op(i, 'cast'): c.bad('id:narrow', ev.where, 'the identifier is narrowed after it was drawn: it repeats')
        meth, par = fs.get('method'), fs.get('params')
        if meth is None or not (meth.op == 'static' and meth.a[0].endswith('Request::METHOD') or meth is mk('arg', 2)): c.bad('send:method', ev.where, 'the request does not carry the method of its type but %s' % show(meth or p, 3))
        if par is None or not contains(par, mk('arg', 2)): c.bad('send:params', ev.where, 'the request does not carry the given parameters')

    def ret(s, ev, st, E):
        c = s.c
        rid, src, sent, resp, gone, chk = st.auto
        for v in E.leaves(ev.val):
            c.ob('outcome of a request', ev.where)
            if sent is not None and E.fact_var(st, sent) == frozenset(['Err']):
                if not is_agg(v, 'Err'): c.bad('unsent:ok', ev.where, 'a request that could not be sent is not reported as an error')
                if not gone: c.bad('unsent:registered', ev.where, 'a request that could not be sent stays registered for ever')
                continue
            if is_agg(v, 'Err'): continue
            if not is_agg(v, 'Ok'):
                if resp is None or not contains(v, resp): c.bad('outcome:unknown', ev.where, 'the outcome %s of the request cannot be resolved' % show(v, 4))
                continue
            if resp is None: c.bad('outcome:early', ev.where, 'success is reported before a response was received'); continue
            if E.fact_var(st, resp) != frozenset(['Ok']): c.bad('outcome:failed', ev.where, 'success is reported although waiting for the response may have failed')
            if not s.typed: continue
            msg = pay(resp, 'Ok')
            er = [t for t in facts_on(st, 'error', msg)]
            if not er or not all(E.fact_var(st, t) == frozenset(['None']) for t in er): c.bad('outcome:error', ev.where, 'success is reported although the response may carry an error')
            if s.decodes:
                d = [x for x in subterms(v.a[2][0][1]) if x.op == 'call' and 'from_' in x.a[1]]
                if not d or not any(contains(x, msg) and any(y.op == 'fld' and y.a[1] == 'result' for y in subterms(x)) for x in d): c.bad('outcome:result', ev.where, 'the value handed to the caller is not decoded from the result of the response: %s' % show(v, 5))
                elif not all(E.fact_var(st, x) == frozenset(['Ok']) for x in d): c.bad('outcome:undecoded', ev.where, 'success is reported although the result may not have been decoded')
        if resp is not None and all(is_agg(v, 'Err') for v in E.leaves(ev.val)) and E.fact_var(st, resp) == frozenset(['Ok']) and not any(s.why(st, E)):
            c.bad('outcome:refused', ev.where, 'a usable response is reported as an error')


def facts_on(st, fld, base):
    """option-valued terms named `fld` inside `base` that the path has tested"""
    return [k.a[0] for k in st.facts if k.op == 'var' and k.a[0].op == 'fld' and k.a[0].a[1] == fld and contains(k, base)]


def contains_op(t, op): return any(x.op == op for x in subterms(t))


def strip_src(t):
    """the completion source behind boxes: the call that made it"""
    t = strip(t)
    if t.op == 'call' and t.a[1].startswith(FCS + '::new'): return t
    return None


def benign_panic(ev, st, E):
    """serialising the parameters of the server's own requests cannot fail; the lookup of the key just inserted succeeds"""
    t = strip(ev.args[0]) if ev.args else None
    if t is None: return False
    if t.op == 'call' and t.a[1].endswith(('to_value', 'to_json')): return True
    if t.op == 'optref':
        return E.read(st, t.a[1]).op == 'box'
    return False


class Pump(Base):
    """RequestManager::start.  state: (received, removed entry, completed, ending)
    ending: None, 'closed' (no further response), 'pull'/'pulled'/'item' (failing what is registered), 'failed' (all of it)"""
    def __init__(s, c, P): Base.__init__(s, c, P); s.maps = set()
    def init(s): return (None, None, False, None)
    def partition(s, st, E):
        a = st.auto
        return (E.tags(st), E.fact_var(st, a[0]) if a[0] is not None else None, E.fact_var(st, a[1]) if a[1] is not None else None,
                frozenset(k.a[1] for k in ()) )

    def event(s, kind, ev, st, E):
        msg, ent, done, end = st.auto
        over = end is not None or msg is not None and E.fact_var(st, msg) == frozenset(['Err'])
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in RECV:
            if F: s.settled(ev, st, E); s.loop(ev, st, E)
            return (None, None, False, None)
        if kind == 'ret' and (name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in RECV or name in ('Receiver::recv_blocking', 'Receiver::try_recv')):
            return (ev.val, None, False, None)
        if kind == 'call' and name.startswith('HashMap::remove'):
            if F:
                c.ob('response matched by its identifier', ev.where)
                s.maps |= self_fields(E.val(st, ev.args[0]))
                k = E.val(st, ev.args[1], 5)
                if msg is None or not is_resp_id(k, msg): c.bad('match:id', ev.where, 'the awaiting request is looked up under %s, not under the identifier of the response' % show(k, 5))
                if ent is not None: c.bad('match:twice', ev.where, 'one response is matched against awaiting requests more than once')
            return None
        if kind == 'ret' and name.startswith('HashMap::remove'): return (msg, ev.val, done, end)
        if kind == 'call' and name == 'Receiver::close' and end is None: return (msg, ent, done, 'closed')
        if kind in ('next', 'exhausted') and s.field(E.val(st, ev.it, 8)) is not None:
            if F:
                c.ob('outstanding requests failed', ev.where)
                if not over: c.bad('fail:early', ev.where, 'the outstanding requests are failed while the channel of responses may still be open: a request registered after it waits for ever')
                if kind == 'next' and end == 'pulled': c.bad('fail:skipped', ev.where, 'an outstanding request may be left without an outcome when the manager ends')
                s.maps |= self_fields(E.val(st, ev.it, 8))
            return (msg, ent, done, 'pulled' if kind == 'next' else 'failed')
        if kind == 'call' and name in SETS and end in ('pulled', 'item') and any(x.op == 'elem' for x in subterms(E.val(st, ev.args[0], 5))):
            if F and not name.endswith('set_err'): c.bad('fail:value', ev.where, 'an outstanding request is given a value when the manager ends')
            return (msg, ent, done, 'item')
        if kind == 'call' and name in SETS:
            if F:
                c.ob('awaiting request resolved', ev.where)
                a = strip(E.val(st, ev.args[0], 4))
                if ent is None or not contains(a, ent): c.bad('resolve:source', ev.where, 'the completed source %s is not the one registered under the identifier of the response' % show(a, 4))
                if done: c.bad('resolve:twice', ev.where, 'one response completes a source twice')
                v = E.val(st, ev.args[1])
                while v.op == 'box': v = E.val(st, v.a[1])
                if name.endswith('set_err'): c.bad('resolve:err', ev.where, 'a response that was received is delivered as a failure of the source')
                elif msg is None or not any(x is pay(msg, 'Ok') for x in E.leaves(v)): c.bad('resolve:value', ev.where, 'the awaiting request is given %s, not the response that was received' % show(v, 4))
            return (msg, ent, True, end)
        if kind == 'return' and F:
            s.settled(ev, st, E)
            if end != 'failed': c.bad('fail:never', ev.where, 'requests that are still awaiting a response when the manager ends wait for ever')
        if kind == 'panic' and F:
            # a source registered once is completed once; only responses are routed here
            t = ev.args[0] if ev.args else None
            if any(f[0] == 'in' and k.op == 'var' and 'Response' not in f[1] and f[1] & {'Request', 'Notification'} for k, f in st.facts.items()): return None
            if any(f[0] == 'in' and k.op == 'var' and k.a[0].op == 'call' and k.a[0].a[1] in SETS and f[1] == frozenset(['Err']) for k, f in st.facts.items()): return None
            c.bad('pump:panic', ev.where, 'receiving a response can panic at %s' % name)
        return None

    def loop(s, ev, st, E):
        if st.auto[0] is not None and E.fact_var(st, st.auto[0]) == frozenset(['Err']):
            s.c.bad('pump:closed', ev.where, 'the loop receives again after the channel was found closed: it never ends')

    def settled(s, ev, st, E):
        msg, ent, done, end = st.auto
        s.c.ob('response settled', ev.where)
        if msg is None or done: return
        v = E.fact_var(st, msg)
        if v == frozenset(['Err']): return
        if ent is not None and E.fact_var(st, ent) == frozenset(['None']): return
        # cancelled, or not a response
        for k, f in st.facts.items():
            if k.op == 'call' and k.a[1] == 'CancellationToken::is_canceled' and f == ('in', frozenset([True])): return
            if k.op == 'var' and f[0] == 'in' and 'Response' not in f[1] and f[1] & {'Request', 'Notification'}: return
        s.c.bad('response:dropped', ev.where, 'a response is dropped although a request may be awaiting it')


class Notify(Base):
    """RequestManager::send_notification.  state: (sends, awaited send)"""
    def init(s): return (0, None)
    def partition(s, st, E): return (E.tags(st), E.fact_var(st, st.auto[1]) if st.auto[1] is not None else None)

    def event(s, kind, ev, st, E):
        n, out = st.auto
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in SENDS:
            m = strip(E.val(st, ev.args[1]))
            p = msg_payload(m, 'Notification')
            if F:
                c.ob('notification sent', ev.where)
                if n: c.bad('notify:twice', ev.where, 'a notification is sent more than once')
                if p is None: c.bad('notify:other', ev.where, 'asked to send a notification the manager sends %s' % show(m, 3))
                elif p.op == 'agg':
                    fs = dict(p.a[2])
                    meth, par = fs.get('method'), fs.get('params')
                    if meth is None or not (meth.op == 'static' and meth.a[0].endswith('Notification::METHOD')): c.bad('notify:method', ev.where, 'the notification does not carry the method of its type but %s' % show(meth or p, 3))
                    if par is None or not contains(par, mk('arg', 2)): c.bad('notify:params', ev.where, 'the notification does not carry the given parameters')
            return (min(n + 1, 2), out)
        if kind == 'ret' and (name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in SENDS or name in SENDS and name != 'Sender::send'): return (n, ev.val)
        if kind == 'return' and F:
            for v in E.leaves(ev.val):
                c.ob('outcome of a notification', ev.where)
                ok = out is not None and E.fact_var(st, out) == frozenset(['Ok'])
                if is_agg(v, 'Ok') and not ok: c.bad('notify:unsent', ev.where, 'a notification that may not have been sent is reported as sent')
                if is_agg(v, 'Err') and ok: c.bad('notify:refused', ev.where, 'a notification that was sent is reported as an error')
        return None


def is_resp_id(k, msg):
    m = pay(msg, 'Ok')
    return k is project(pay(m, 'Response'), ('f', 'id'))


class Clone_(Rule):
    def __init__(s, c, shared): s.c, s.shared = c, shared
    def init(s): return 0
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                s.c.ob('clone of the request manager', ev.where)
                for f in s.shared:
                    x = E.val(st, project(v, ('f', f)), 4)
                    while x.op in ('box',): x = x.a[1]
                    if x is not mk('fld', mk('arg', 1), f):
                        s.c.bad('clone:' + f, ev.where, 'a clone does not share "%s" with its original (%s): two requests can carry the same identifier or a response can miss its request' % (f, show(x, 4)))
        return None


def client_requests(c):
    c.rule('identifiers', 'the identifier of every request is one fetch_add of one atomic counter that all clones of the manager share')
    c.rule('registration', 'a request is registered under its identifier before it is sent, unregistered when it cannot be sent, and awaits the very source it registered')
    c.rule('end', 'when the manager ends every registered request is completed with an error, after the channel of responses was closed, and no response is awaited without testing that channel after the registration')
    c.rule('delivery', 'a received response completes the source removed under its identifier with that response, once; Ok is reported only for a response without error and, where a value is returned, from its decoded result')
    c.rule('notifications', 'a notification is sent once with the method of its type and the given parameters; Ok is reported exactly when it was sent')
    c.rule('manager', 'the request manager receives until its channel is closed or the token is cancelled, whatever the responses are')
    P = c.program(UNITS)
    m = {n: method(P, 'RequestManager', n) for n in ('send', 'send_and_receive', 'start')}
    for n, f in m.items():
        if f is None or f + '::{closure#0}' not in P.fns: c.missing('the async method RequestManager::%s' % n); return
    counters, maps = set(), set()
    for n in ('send', 'send_and_receive'):
        r = Send(c, P, True, n == 'send_and_receive')
        c.run_engine(P, r, m[n] + '::{closure#0}')
        counters |= r.counters; maps |= r.maps
    p = Pump(c, P)
    c.run_engine(P, p, m['start'] + '::{closure#0}')
    from host import Manager
    c.run_engine(P, Manager(c, P), m['start'] + '::{closure#0}')
    nf = method(P, 'RequestManager', 'send_notification')
    if nf is None or nf + '::{closure#0}' not in P.fns: c.missing('the async method RequestManager::send_notification')
    else: c.run_engine(P, Notify(c, P), nf + '::{closure#0}')
    adt = next((a for k, a in P.adts.items() if last(a['name']) == 'RequestManager'), None)
    if adt is None: c.missing('the type RequestManager'); return
    ftypes = {f['n']: f['t'] for v in adt['variants'] for f in v['fields']}
    if not (maps & p.maps) and not any(x.op == 'static' for x in counters): c.bad('map:two', m['start'], 'responses are looked up in %s, requests are registered in %s' % (sorted(p.maps), sorted(maps)))
    shared = set(maps)
    cl = method(P, 'RequestManager', 'clone', 'Clone')
    for t in counters:
        c.ob('identifier counter')
        fs = self_fields(t)
        if any(x.op == 'static' for x in subterms(t)): continue
        if len(fs) != 1: c.bad('id:counter', m['send'], 'the counter %s is not a field of the manager' % show(t, 4)); continue
        f = fs.pop()
        shared.add(f)
    if len(counters) > 1: c.bad('id:counters', m['send'], 'identifiers are drawn from several counters: %s' % ', '.join(show(t, 4) for t in counters))
    if cl is not None:
        for f in sorted(shared):
            if cl is not None and tyhead(ftypes.get(f, '')) not in ('Arc', 'Rc') and not ftypes.get(f, '').startswith('&'):
                c.bad('clone:' + f, m['send'], 'the manager can be cloned but its field "%s" (%s) is not shared between clones: two requests can carry the same identifier or a response can miss its request' % (f, ftypes.get(f)))
        if cl in P.fns: c.run_engine(P, Clone_(c, sorted(shared)), cl)
    for k in ('request registered', 'request sent', 'response awaited', 'outcome of a request', 'response matched by its identifier', 'awaiting request resolved', 'identifier counter', 'outstanding requests failed', 'notification sent', 'outcome of a notification', 'end of the request manager'): c.floor(k, 1)
