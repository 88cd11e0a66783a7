"""AnalyzerHost: routing of received messages; the end of the host and of all its parts."""
from engine import *
from requests import SENDS, RECV
from jsonrpc import method
from dispatch import Rec, SELF, UNITS, adt, ftypes, receives, reaches, contains_self, LOCKS


CANCEL = 'CancellationToken::is_canceled'
CLOSE = ('Sender::close', 'Receiver::close')


def awaited(ev): return ev.args[0].op == 'call' and ev.args[0].a[1] in RECV


class Part(Rec):
    """a loop over received messages.  state: (message, last test of the token, closed things, sends of this message, awaited send, stopped the pool, token seen cancelled)"""
    what = 'loop'
    def __init__(s, c, P, opaque=()):
        Rec.__init__(s, c, P); s.opaque, s.recvs = opaque, set()
    def stop(s, fid): return Rec.stop(s, fid) or fid in s.opaque
    def init(s): return (None, None, frozenset(), (), None, False, False)

    def partition(s, st, E):
        m, tok, closed, sends, out, pool, seen = st.auto
        return (E.tags(st), E.fact_var(st, m) if m is not None else None, E.fact_var(st, pay(m, 'Ok')) if m is not None else None,
                E.fact_bool(st, tok) if tok is not None else None, E.fact_var(st, out) if out is not None else None, seen)

    def event(s, kind, ev, st, E):
        m, tok, closed, sends, out, pool, seen = st.auto
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'ret' and name == CANCEL: return (m, ev.val, closed, sends, out, pool, seen or tok is not None and E.fact_bool(st, tok) is True)
        if kind == 'call' and name in RECV:
            if F:
                c.ob('receive', ev.where)
                ch = E.val(st, ev.args[0])
                s.recvs.add(ch)
                if m is not None and E.fact_var(st, m) == frozenset(['Err']): c.bad(s.what + ':closed', ev.where, 'the %s receives again after its channel was found closed: it never ends' % s.what)
                if tok is None or E.fact_bool(st, tok) is not False: c.bad(s.what + ':cancel', ev.where, 'the %s waits for a message without having tested the token since the last one: it does not end when cancelled' % s.what)
                if closed: c.bad(s.what + ':reopened', ev.where, 'the %s receives after it closed its channels' % s.what)
                s.ready(ev, st, E)
                s.settled(ev, st, E, False)
            return None
        if kind == 'ret' and (name == 'await' and awaited(ev) or name in RECV and 'recv' in name and name != 'Receiver::recv'): return (ev.val, None, closed, (), None, pool, seen)
        if kind == 'call' and name in SENDS:
            ch, v = E.val(st, ev.args[0]), E.val(st, ev.args[1], 5)
            if F: s.sent(ev, st, E, ch, v)
            return (m, tok, closed, sends + ((ch, v),) if len(sends) < 3 else sends, out, pool, seen)
        if kind == 'ret' and (name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in SENDS or name in SENDS and name != 'Sender::send'): return (m, tok, closed, sends, ev.val, pool, seen)
        if kind == 'call' and name in CLOSE: return (m, tok, closed | {E.val(st, ev.args[0])}, sends, out, pool, seen)
        if kind == 'call' and name == 'AsyncPool::stop': return (m, tok, closed, sends, out, True, seen)
        if kind == 'return' and F:
            s.settled(ev, st, E, True)
            s.ended(ev, st, E)
            for v in E.leaves(ev.val):
                v = E.val(st, v, 5)
                b = E.fact_bool(st, tok) if tok is not None else None
                c.ob('end of the ' + s.what, ev.where)
                if is_agg(v, 'Err') and b is not True: c.bad(s.what + ':result', ev.where, 'the %s reports cancellation although the token may not be cancelled' % s.what)
                if is_agg(v, 'Ok') and b is not False: c.bad(s.what + ':result', ev.where, 'the %s reports a normal end although the token may be cancelled' % s.what)
                if v.op != 'agg': c.bad(s.what + ':result', ev.where, 'what the %s reports is %s' % (s.what, show(v, 4)))
        if kind == 'panic' and F: s.paniced(ev, st, E)
        return None

    def ready(s, ev, st, E): pass
    def sent(s, ev, st, E, ch, v): pass
    def settled(s, ev, st, E, final): pass
    def ended(s, ev, st, E): pass

    def paniced(s, ev, st, E):
        t = strip(ev.args[0]) if ev.args else None
        if t is not None and t.op == 'call' and t.a[1] in LOCKS: return
        if t is not None and s.benign(t, st, E): return
        s.c.bad(s.what + ':panic', ev.where, 'the %s can panic at %s: the server dies with it' % (s.what, ev.name))
    def benign(s, t, st, E): return False


class Router(Part):
    """hands every received message on"""
    what = 'receiving loop'
    def __init__(s, c, P): Part.__init__(s, c, P); s.to = {}

    def sent(s, ev, st, E, ch, v):
        c = s.c
        m = st.auto[0]
        c.ob('message handed on', ev.where)
        if m is None or v is not pay(m, 'Ok') and not (v.op == 'agg' and last(v.a[0]) == 'Message' and v.a[2][0][1] is pay(pay(m, 'Ok'), v.a[1])): c.bad('route:message', ev.where, 'what is handed on is %s, not the message received' % show(v, 4)); return
        if st.auto[3]: c.bad('route:twice', ev.where, 'a received message is handed on more than once')
        for k in E.fact_var(st, pay(m, 'Ok')) or ('Request', 'Response', 'Notification'): s.to.setdefault(k, {}).setdefault(ch, ev.where)

    def settled(s, ev, st, E, final):
        m, tok, closed, sends, out, pool, seen = st.auto
        if m is None or E.fact_var(st, m) == frozenset(['Err']): return
        s.c.ob('message settled', ev.where)
        if not sends: s.c.bad('route:dropped', ev.where, 'a received message is not handed on'); return
        if out is None: s.c.bad('route:notawaited', ev.where, 'handing a message on is not awaited: it is not sent, or out of order')

    def ended(s, ev, st, E):
        m, tok, closed, sends, out, pool, seen = st.auto
        s.ends = getattr(s, 'ends', []) + [(ev.where, closed)]
        if m is not None and E.fact_var(st, m) == frozenset(['Err']): return
        if out is not None and E.fact_var(st, out) == frozenset(['Err']): return
        if seen or tok is not None and E.fact_bool(st, tok) is True: return
        s.c.bad('route:early', ev.where, 'the receiving loop ends although neither its channel is closed nor the token cancelled')

    def judge(s):
        c = s.c
        for k in ('Request', 'Response', 'Notification'):
            if len(s.to.get(k, {})) != 1: c.bad('route:' + k, '-', 'a received %s is handed to %s' % (k, ' or '.join(show(x, 3) for x in s.to.get(k, {})) or 'nobody'))
        for where, closed in getattr(s, 'ends', []):
            for ch in {x for d in s.to.values() for x in d}:
                if ch not in closed: c.bad('route:close', where, 'the receiving loop ends without closing %s: the reader of that channel waits for ever' % show(ch, 3))


class Pump(Part):
    """runs the state machine on the received messages"""
    what = 'message loop'
    def __init__(s, c, P, opaque, pm, ia, guarded): Part.__init__(s, c, P, opaque); s.pm, s.ia, s.guarded, s.closes = pm, ia, guarded, []
    def init(s): return Part.init(s) + (None,)
    # adds: the last test of the activity of the machine

    def partition(s, st, E): return (Part.partition(s, st_(st), E), E.fact_bool(st, st.auto[7]) if st.auto[7] is not None else None)

    def event(s, kind, ev, st, E):
        act = st.auto[7]
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        m, tok = st.auto[:2]
        if kind == 'ret' and name.endswith('::is_active'): return st.auto[:7] + (ev.val,)
        if kind == 'call' and name.endswith('LspProtocolMachine::process_message') and F:
            c.ob('message processed', ev.where)
            if tok is None or E.fact_bool(st, tok) is not False: c.bad('process:cancelled', ev.where, 'a message is processed although the token may have been cancelled since it was awaited')
        r = Part.event(s, kind, ev, st_(st), E)
        if kind == 'ret' and name == 'await' and awaited(ev): act = None
        return r + (act,) if r is not None else None

    def ready(s, ev, st, E):
        act = st.full[7]
        if act is None or E.fact_bool(st, act) is not True: s.c.bad('loop:exit', ev.where, 'the message loop waits for a message without having tested whether the server has exited since the last one')

    def ended(s, ev, st, E):
        m, tok, closed, sends, out, pool, seen = st.auto
        act = st.full[7]
        s.closes.append((ev.where, closed))
        if not pool: s.c.bad('end:pool', ev.where, 'the message loop ends without stopping the pool: the host never ends')
        if m is not None and E.fact_var(st, m) == frozenset(['Err']): return
        if act is not None and E.fact_bool(st, act) is False: return
        if seen or tok is not None and E.fact_bool(st, tok) is True: return
        s.c.bad('loop:early', ev.where, 'the message loop ends although the server has not exited, its channel is open and the token not cancelled')

    def benign(s, t, st, E):
        return any(x.op == 'fld' and x.a[0] is SELF and x.a[1] in s.guarded for x in subterms(t)) and all(x.a[1] in ('await', 'RwLock::read', 'RwLock::write') for x in subterms(t) if x.op == 'call')


class Manager(Part):
    """receives the responses of the client as long as there can be any"""
    what = 'request manager'

    def ended(s, ev, st, E):
        m, tok, closed, sends, out, pool, seen = st.auto
        if m is not None and E.fact_var(st, m) == frozenset(['Err']): return
        if seen or tok is not None and E.fact_bool(st, tok) is True: return
        s.c.bad('manager:early', ev.where, 'the request manager ends although its channel may be open and the token not cancelled: later responses reach nobody')

    def paniced(s, ev, st, E): pass        # decided by C14


class st_:
    """a state seen with the part of the automaton a base class knows"""
    def __init__(s, st): s._st, s.full, s.auto = st, st.auto, st.auto[:7]
    def __getattr__(s, n): return getattr(s._st, n)


class Start(Rec):
    """AnalyzerHost::start: what it starts, with which channels and which file system"""
    def __init__(s, c, P, opaque): Rec.__init__(s, c, P); s.opaque = opaque; s.parts, s.machine, s.guard, s.fs = [], [], set(), None
    def stop(s, fid): return Rec.stop(s, fid) or fid in s.opaque or '::fs::' in fid
    def init(s): return (None, None)       # joined, awaited
    def partition(s, st, E):
        aw = st.auto[1]
        fs = [(k.id, f) for k, f in st.facts.items() if k.op == 'var' and (aw is not None and contains(k, aw) or k.a[0].op == 'fld' and k.a[0].a[0] is SELF)]
        return (E.tags(st), frozenset(fs))

    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'LspProtocolMachine::new' and F:
            fsf = mk('fld', SELF, s.fs) if s.fs else None
            s.machine.append((ev.where, [[E.val(st, x, 6) for x in E.leaves(a)] for a in ev.args], E.fact_var(st, fsf) if fsf is not None else None, fsf))
        if kind == 'store' and F:
            v = E.val(st, ev.val, 3)
            if is_agg(v, 'Some') and any(x.op == 'call' and x.a[1] == 'LspProtocolMachine::new' for x in subterms(v)):
                s.guard |= {x.a[1] for x in subterms(ev.loc[0][1]) if x.op == 'fld' and x.a[0] is SELF} if isinstance(ev.loc[0][1], T) else set()
        if kind == 'ret' and 'join' in name and not getattr(ev, 'inlined', False):
            ps = []
            for a in ev.args:
                a = E.val(st, a, 6)
                ps += [E.val(st, x[1], 6) for x in a.a[2]] if a.op == 'agg' and a.a[0] in ('tuple', 'array') else [a]
            if F: s.parts.append((ev.where, ps, st, E))
            return (ev.val, None)
        if kind == 'ret' and name == 'await' and st.auto[0] is not None and ev.args[0] is st.auto[0]: return (st.auto[0], ev.val)
        if kind == 'return' and F: s.result(ev, st, E)
        if kind == 'panic' and F:
            t = strip(ev.args[0]) if ev.args else None
            if not (t is not None and t.op == 'call' and t.a[1] in LOCKS): c.bad('start:panic', ev.where, 'starting the host can panic at %s' % ev.name)
        return None

    def result(s, ev, st, E):
        c = s.c
        aw = st.auto[1]
        c.ob('result of the host', ev.where)
        if aw is None: c.bad('start:unjoined', ev.where, 'the host ends without having awaited its parts'); return
        n = len(s.parts[-1][1]) if s.parts else 4
        fs = [E.fact_var(st, project(aw, ('f', str(i)))) for i in range(n)]
        if E.fact_var(st, aw) is not None: fs = [E.fact_var(st, aw)]
        for v in E.leaves(ev.val):
            v = E.val(st, v, 4)
            if is_agg(v, 'Ok') and not all(f == frozenset(['Ok']) for f in fs): c.bad('start:ok', ev.where, 'the host reports a normal end although one of its parts was cancelled')
            if is_agg(v, 'Err') and not any(f == frozenset(['Err']) for f in fs): c.bad('start:err', ev.where, 'the host reports cancellation although none of its parts did')


def coroutine(t): return t.a[1] if t.op == 'agg' and t.a[0] == 'coroutine' else None


def chan(t):
    """(the pair a channel end belongs to, which end)"""
    t = strip(t)
    if t.op == 'fld' and t.a[0].op == 'call' and 'channel' in t.a[0].a[1]: return (t.a[0], t.a[1])
    return None


def caps(t): return {int(k): v for k, v in t.a[2]}


def host(c):
    c.rule('routing', 'every message received from the client is handed on once, awaited: responses on the channel the request manager reads, requests and notifications on the channel the state machine reads')
    c.rule('end', 'no loop receives from a channel it found closed; each tests the token (and the activity of the machine) before it waits; an ending loop closes the channels others read and the machine loop stops the pool')
    c.rule('result', 'a loop reports cancellation exactly when its last test of the token said so, the host exactly when one of its parts did')
    c.rule('no panic', 'no path of the loops or of start panics (poisoned locks aside)')
    c.rule('file system', 'the machine is built with the file system of the host process, or the one of the client when there is none')
    P = c.program(UNITS)
    start = method(P, 'AnalyzerHost', 'start')
    pm, ia, new, rs = (method(P, t, n) for t, n in (('LspProtocolMachine', 'process_message'), ('LspProtocolMachine', 'is_active'), ('LspProtocolMachine', 'new'), ('RequestManager', 'start')))
    a = adt(P, 'AnalyzerHost')
    for n, f in (('AnalyzerHost::start', start), ('LspProtocolMachine::process_message', pm), ('LspProtocolMachine::is_active', ia), ('LspProtocolMachine::new', new), ('RequestManager::start', rs), ('the type AnalyzerHost', a)):
        if f is None: c.missing(n); return
    rsc = rs + '::{closure#0}'
    s = Start(c, P, {new, rsc})
    ft = ftypes(a)
    s.fs = next((n for n, t in ft.items() if 'FileSystem' in t), None)
    snd = next((n for n, t in ft.items() if tyhead(t) == 'Sender'), None)
    rcv = next((n for n, t in ft.items() if tyhead(t) == 'Receiver'), None)
    if s.fs is None or snd is None or rcv is None: c.missing('the channel ends and the file system of the host'); return
    c.run_engine(P, s, start + '::{closure#0}')
    if not s.parts: c.missing('the point at which the parts of the host are joined'); return
    loop = router = None
    for where, ps, st, E in s.parts[-1:]:
        c.ob('parts joined', where, len(ps))
        kinds = {}
        for p in ps:
            f = coroutine(p)
            if f is None: kinds[p.a[1] if p.op == 'call' else '?'] = p
            elif f == rsc: kinds['manager'] = p
            elif f in P.fns and reaches(P, f, pm): loop, kinds['machine'] = f, p
            elif f in P.fns and receives(P, f): router, kinds['router'] = f, p
        for k, n in (('machine', 'the loop that runs the state machine'), ('router', 'the loop that receives from the client'), ('manager', 'the request manager'), ('AsyncPool::start', 'the pool')):
            if k not in kinds: c.bad('start:part:' + k, where, '%s is not among the parts of the host that are run' % n)
        if loop is None or router is None or 'manager' not in kinds: return
        r = Router(c, P); c.run_engine(P, r, router); r.judge()
        l = Pump(c, P, {pm, pm + '::{closure#0}', ia}, pm, ia, s.guard); c.run_engine(P, l, loop)
        c.run_engine(P, Manager(c, P), rsc)
        rc, lc = caps(kinds['router']), caps(kinds['machine'])
        def cap(cs, t):
            """the channel end a term of a part stands for in start"""
            t = strip(t)
            if t.op == 'arg' and t.a[0] - 1 in cs: return E.val(st, cs[t.a[0] - 1], 6)
            if t.op == 'fld' and t.a[0] is SELF: return t
            return None
        mgr = E.val(st, caps(kinds['manager']).get(0), 8)
        mft = ftypes(adt(P, 'RequestManager'))
        mrx = next((n for n, t in mft.items() if tyhead(t) == 'Receiver'), None)
        mtx = next((n for n, t in mft.items() if tyhead(t) == 'Sender'), None)
        mgr = E.leaves(mgr)[0] if mgr.op == 'phi' else mgr
        if mgr.op == 'ref': mgr = E.val(st, mgr, 8)
        want = chan(project(mgr, ('f', mrx)))
        if project(mgr, ('f', mtx)) is not mk('fld', SELF, snd): c.bad('start:manager', where, 'the request manager sends to %s, not to the client' % show(project(mgr, ('f', mtx)), 3))
        for x in r.recvs:
            if strip(x) is not mk('fld', SELF, rcv): c.bad('route:source', router, 'the receiving loop receives from %s, not from the client' % show(x, 3))
        if want is None: c.bad('start:manager', where, 'the request manager reads from %s' % show(mgr, 4))
        for x in r.to.get('Response', {}):
            got = chan(cap(rc, x) or x)
            c.ob('channel matched', where)
            if got is None or want is None or got[0] is not want[0] or got[1] == want[1]: c.bad('route:responses', where, 'responses of the client are handed to %s, which the request manager does not read' % show(cap(rc, x) or x, 4))
        lr = [chan(cap(lc, x) or x) for x in l.recvs]
        for k in ('Request', 'Notification'):
            for x in r.to.get(k, {}):
                got = chan(cap(rc, x) or x)
                c.ob('channel matched', where)
                if got is None or any(w is None or got[0] is not w[0] or got[1] == w[1] for w in lr): c.bad('route:requests', where, 'a %s of the client is handed to %s, which the state machine does not read' % (k, show(cap(rc, x) or x, 4)))
        for w2, closed in l.closes:
            c.ob('channels closed at the end', w2)
            for n in (snd, rcv):
                if mk('fld', SELF, n) not in closed: c.bad('end:' + n, w2, 'the message loop ends without closing the "%s" of the host: its other parts never end' % n)
            for x in l.recvs:
                if x not in closed: c.bad('end:requests', w2, 'the message loop ends without closing the channel it reads: messages handed on are lost silently')
        # the token reaches every part
        for k, p in kinds.items():
            if not any(x is mk('arg', 2) for x in subterms(p)): c.bad('start:token', where, 'a part of the host (%s) is not given the token of the host' % k)
    if not s.guard: c.bad('start:machine', start, 'the state machine is not created before the parts of the host run')
    for where, args, f, fsf in s.machine:
        c.ob('file system of the machine', where)
        mine = pay(fsf, 'Some')
        vs = [x for x in args if any(y is mine or 'FileSystem' in str(y) for z in x for y in subterms(z))]
        if not vs: c.bad('fs:none', where, 'the state machine is not given a file system'); continue
        for z in vs[0]:
            if f == frozenset(['Some']) and not contains(z, mine): c.bad('fs:ignored', where, 'the file system of the host process is not the one the state machine is given: %s' % show(z, 4))
            if f == frozenset(['None']) and contains(z, fsf): c.bad('fs:default', where, 'without a file system of the host process the state machine is given %s' % show(z, 4))
            if f is None or len(f) != 1: c.bad('fs:untested', where, 'the file system is chosen without regard to whether the host process supplied one: %s' % show(z, 4))
    for k, n in (('receive', 2), ('message handed on', 1), ('message settled', 1), ('end of the receiving loop', 1), ('end of the message loop', 1), ('end of the request manager', 1), ('message processed', 1), ('channel matched', 3), ('file system of the machine', 1), ('result of the host', 2), ('channels closed at the end', 1)): c.floor(k, n)
