"""Dispatching of client messages: one response per request; the lifecycle of the server."""
from engine import *
from engine import _strip_generics
from requests import Base, SENDS, RECV, msg_payload
from jsonrpc import method

UNITS = ['analyzer_host']
KINDS = frozenset(['Request', 'Response', 'Notification'])
SELF, A2, A3, A4 = (mk('arg', i) for i in range(1, 5))
HANDLER, TARGET, DISPATCH = 'AsyncRequestHandlerFn::call', 'DispatchTarget::process_message', 'Dispatch::dispatch'


def impls(P, trait, name):
    """(impl, id of the async body of method `name`) of every implementation of a trait on a type of the workspace"""
    out = []
    for i in P.impls:
        if not i.get('trait') or last(i['trait']) != trait or i['self_ty'].startswith(('dyn', 'alloc::')): continue
        for it in i['items']:
            if it['n'] == name:
                b = it['id'] + '::{closure#0}'
                out.append((i, b if b in P.fns else it['id'] if it['id'] in P.fns else None))
    return out


def kind_facts(E, st, m): return E.fact_var(st, m) or KINDS


def response(t):
    """the response in Some(Message::Response(..))"""
    if not is_agg(t, 'Some'): return None
    return msg_payload(t.a[2][0][1], 'Response')


def fields(t): return dict(t.a[2]) if t.op == 'agg' else {}


def is_get(t): return t.op == 'get' or t.op == 'app' and t.a[0] == 'get' or t.op == 'call' and t.a[1].endswith(('::get', '::get_mut'))


class Rec(Base):
    """remembers calls whose outcome the path depends on, and what every path returned"""
    calls, awaits, keep = (), (), ()
    def __init__(s, c, P): Base.__init__(s, c, P); s.rets, s.panics = [], []
    def init(s): return ((), ())             # (call results, awaited values)

    def partition(s, st, E):
        calls, aw = st.auto
        fs = []
        for k, f in st.facts.items():
            if k.op == 'var' and (any(contains(k.a[0], x) for x in aw) or s.tracked(k.a[0])): fs.append((k.id, f))
            elif k.op != 'var' and s.tracked_bool(k): fs.append((k.id, f))
        return (E.tags(st), frozenset(fs))

    def tracked(s, t):
        b = t
        while b.op in ('fld', 'as'): b = b.a[0]
        return b.op == 'arg' or t.op == 'call' and t.a[1] in s.keep or t.op == 'call' and 'from_' in t.a[1] or is_get(t)
    def tracked_bool(s, k): return k.op == 'bin' and k.a[0] in ('Eq', 'Ne') and any(s.tracked(x) for x in k.a[1:] if isinstance(x, T))

    def event(s, kind, ev, st, E):
        calls, aw = st.auto
        name = getattr(ev, 'name', '')
        if kind == 'ret' and name in s.calls:
            if E.final: s.called(ev, st, E)
            if ev.val in calls and not any(contains(x, ev.val) for x in aw): return None
            return (calls + (ev.val,) if len(calls) < 3 else calls, aw)
        if kind == 'ret' and name == 'await' and any(ev.args[0] is x or contains(ev.args[0], x) for x in calls):
            return (calls, aw + (ev.val,) if len(aw) < 3 else aw)
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val): s.returned(ev, st, E, E.val(st, v, 8))
        if kind == 'panic' and E.final: s.paniced(ev, st, E)
        return s.more(kind, ev, st, E)

    def called(s, ev, st, E): pass
    def more(s, kind, ev, st, E): return None
    def returned(s, ev, st, E, v): pass

    def paniced(s, ev, st, E):
        t = strip(ev.args[0]) if ev.args else None
        if t is not None and t.op == 'call' and (t.a[1].endswith(('to_value', 'to_json')) or t.a[1] in LOCKS): return
        s.c.bad('panic', ev.where, '%s can panic on a message of the client: the message, and every later one, stays unanswered' % ev.name)


LOCKS = ('RwLock::read', 'RwLock::write', 'Mutex::lock')


class Target(Rec):
    """an implementation of DispatchTarget::process_message"""
    calls = (HANDLER,)
    def __init__(s, c, P, tr): Rec.__init__(s, c, P); s.tr, s.kinds, s.recs = tr, set(), []

    def called(s, ev, st, E):
        c = s.c
        c.ob('handler called', ev.where)
        s.kinds |= kind_facts(E, st, A3)
        if st.auto[0]: c.bad('handler:twice', ev.where, 'the handler of a message is called more than once')
        h, cs, p, state = (E.val(st, a, 6) for a in ev.args[:4])
        if not self_only(h): c.bad('handler:which', ev.where, 'the handler called is %s, not the one registered' % show(h, 4))
        if cs is not A2: c.bad('handler:state', ev.where, 'the handler is given %s as the current state' % show(cs, 4))
        if E.val(st, state) is not A4: c.bad('handler:shared', ev.where, 'the handler is given %s as the shared state' % show(state, 4))
        d = decoded(p)
        if d is None or not any(x.op == 'fld' and x.a[1] == 'params' and contains(x, A3) for x in subterms(d)): c.bad('handler:params', ev.where, 'the parameters given to the handler are not decoded from the parameters of the message: %s' % show(p, 5))
        elif E.fact_var(st, d) != frozenset(['Ok']): c.bad('handler:undecoded', ev.where, 'the handler is called although the parameters may not have been decoded')

    def returned(s, ev, st, E, v):
        dec = [f for k, f in st.facts.items() if k.op == 'var' and k.a[0].op == 'call' and 'from_' in k.a[0].a[1] and contains(k, A3)]
        s.recs.append((ev.where, v, kind_facts(E, st, A3), st.auto[0], st.auto[1], [E.fact_var(st, a) for a in st.auto[1]],
                       E.fact_var(st, project(SELF, ('f', s.tr))), any(f == ('in', frozenset(['Err'])) for f in dec)))

    def judge(s):
        c = s.c
        for where, v, kinds, calls, aw, av, tr, undec in s.recs:
            ks = kinds & s.kinds
            if not ks: continue
            c.ob('outcome of a handled message', where)
            req = 'Request' in ks
            if not calls and not undec: c.bad('handler:skipped', where, 'a path on which the parameters were decoded ends without calling the handler'); continue
            if calls and not aw: c.bad('handler:notawaited', where, 'the outcome of the handler is not awaited'); continue
            if is_agg(v, 'Err'):
                if req: c.bad('request:unanswered', where, 'a request ends as %s: no response is sent for it' % show(v, 3))
                elif calls and av != [frozenset(['Ok'])] * 0 and calls: c.bad('handler:err', where, 'a notification whose handler ran ends in a protocol error')
                continue
            f = fields(fields(v).get('0', UNIT)) if is_agg(v, 'Ok') else {}
            if '0' not in f: c.bad('outcome:unknown', where, 'the outcome %s cannot be resolved' % show(v, 4)); continue
            good = bool(calls) and av == [frozenset(['Ok'])]
            bad = not calls or av == [frozenset(['Err'])]
            # next state
            nxt = f['1']
            want_next = project(project(project(SELF, ('f', s.tr)), ('v', 'Next')), ('f', '0'))
            if nxt is want_next:
                if not good: c.bad('next:failed', where, 'the state advances although the message was not handled successfully')
                elif tr != frozenset(['Next']): c.bad('next:variant', where, 'the next state is taken from a target that may not name one')
            elif nxt is A2:
                if good and tr != frozenset(['Current']): c.bad('next:ignored', where, 'the state does not advance although the message was handled and a transition may be registered')
            else: c.bad('next:value', where, 'the next state is %s' % show(nxt, 4))
            if not req:
                if not is_agg(f['0'], 'None'): c.bad('notification:answered', where, 'a notification is answered with %s' % show(f['0'], 3))
                continue
            r = response(f['0'])
            if r is None: c.bad('request:unanswered', where, 'a request is answered with %s: no response is sent for it' % show(f['0'], 3)); continue
            r = fields(r)
            check_id(c, where, r)
            res, er = r.get('result'), r.get('error')
            if good:
                x = project(project(aw[0], ('v', 'Ok')), ('f', '0'))
                if not is_agg(res, 'Some') or not contains(res, x): c.bad('result:value', where, 'the result of the response is %s, not the result of the handler' % show(res, 5))
                if not is_agg(er, 'None'): c.bad('result:error', where, 'a handled request is answered with an error')
            elif bad:
                if not is_agg(er, 'Some'): c.bad('failed:noerror', where, 'a request that failed is answered without an error')
                if not is_agg(res, 'None'): c.bad('failed:result', where, 'a request that failed is answered with a result')
            else: c.bad('outcome:untested', where, 'the response does not depend on the outcome of the handler')


def check_id(c, where, r):
    want = project(project(project(A3 if False else r['_msg'], ('v', 'Request')), ('f', '0')), ('f', 'id')) if '_msg' in r else None
    t = r.get('id')
    if t is None or not (t.op == 'fld' and t.a[1] == 'id' and t.a[0].op in ('fld', 'as') and any(x.op == 'as' and x.a[1] == 'Request' for x in subterms(t)) and any(x.op == 'arg' for x in subterms(t)) and not any(x.op in ('call', 'app', 'phi') for x in subterms(t))):
        c.bad('response:id', where, 'the response carries the identifier %s, not the one of the request' % show(t, 4) if t is not None else 'the response has no identifier')


def self_only(t):
    b = strip(t)
    while b.op in ('fld', 'as', 'box'): b = b.a[0] if b.op != 'box' else b.a[1]
    if b.op == 'ref': return b.a[0][0] == ('p', SELF)
    return b is SELF


def decoded(p):
    """the decoding call whose success is p"""
    p = strip(p)
    if p.op == 'fld' and p.a[0].op == 'as' and p.a[0].a[1] == 'Ok': return p.a[0].a[0]
    return None


class Setter(Rule):
    def __init__(s, c, tr): s.c, s.tr = c, tr
    def init(s): return 0
    def event(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        s.c.ob('transition registered', ev.where)
        v = E.read(st, (('p', SELF), (('f', s.tr),)))
        if any(x is not A2 for x in E.leaves(E.val(st, v))): s.c.bad('transition:set', ev.where, 'the registered transition is not kept: the target holds %s' % show(v, 3))


class Dispatcher(Rec):
    """an implementation of Dispatch::dispatch"""
    calls = (TARGET,)
    def __init__(s, c, P, names): Rec.__init__(s, c, P); s.names, s.maps = names, {}

    # arguments: self, message, state
    def called(s, ev, st, E):
        c = s.c
        c.ob('target called', ev.where)
        if st.auto[0]: c.bad('target:twice', ev.where, 'a message is processed more than once')
        t, cs, m, state = (E.val(st, a, 8) for a in ev.args[:4])
        ks = kind_facts(E, st, A2)
        if len(ks) != 1: c.bad('target:kind', ev.where, 'the handler is looked up without regard to the kind of the message'); return
        k = next(iter(ks))
        ms = {x for x in subterms(t) if x.op == 'fld' and x.a[0] is SELF}
        keys = {x for x in subterms(t) if x.op == 'fld' and x.a[1] == 'method'}
        if len(ms) != 1: c.bad('target:map', ev.where, 'the handler of a %s is taken from %s' % (k, show(t, 5)))
        else: s.maps.setdefault(k, set()).add(next(iter(ms)).a[1])
        want = project(project(project(A2, ('v', k)), ('f', '0')), ('f', 'method'))
        if keys != {want} or any(x.op in ('app', 'call') and contains(x, want) and x.op == 'app' for x in subterms(t)): c.bad('target:key', ev.where, 'the handler of a %s is not looked up by its method: %s' % (k, show(t, 5)))
        if cs is not s.state(): c.bad('target:state', ev.where, 'the handler is given %s as the current state' % show(cs, 4))
        if strip(m) is not A2: c.bad('target:message', ev.where, 'the handler is given %s, not the message' % show(m, 4))
        if E.val(st, state) is not A3: c.bad('target:shared', ev.where, 'the handler is given %s as the shared state' % show(state, 4))

    def state(s): return mk('fld', SELF, s.names['state'])

    def returned(s, ev, st, E, v):
        c, where = s.c, ev.where
        c.ob('outcome of dispatching', where)
        calls, aw = st.auto
        ks = kind_facts(E, st, A2)
        if calls:
            if not aw: c.bad('target:notawaited', where, 'the outcome of the handler is not awaited'); return
            a = aw[-1]
            if v is a: return
            f = E.fact_var(st, a)
            for n in ('Ok', 'Err'):
                if is_agg(v, n) and f == frozenset([n]):
                    x, y = v.a[2][0][1], pay(a, n)
                    if x is y or n == 'Err' and y in subterms(x) or x.op == 'agg' and all(w is project(y, ('f', m)) for m, w in x.a[2]): return
            c.bad('target:outcome', where, 'the outcome of the handler is not passed on: %s' % show(v, 4))
            return
        found = [k.a[0] for k, f in st.facts.items() if k.op == 'var' and f == ('in', frozenset(['None'])) and is_get(k.a[0])]
        if not found and 'Response' not in ks: c.bad('target:ignored', where, 'a message is not given to the handler registered for its method')
        if is_agg(v, 'Err'):
            if 'Request' in ks: c.bad('request:unanswered', where, 'a request without handler ends as %s: no response is sent for it' % show(v, 3))
            return
        f = fields(fields(v).get('0', UNIT)) if is_agg(v, 'Ok') else {}
        if '0' not in f: c.bad('outcome:unknown', where, 'the outcome %s cannot be resolved' % show(v, 4)); return
        if f['1'] is not s.state(): c.bad('next:unhandled', where, 'a message without handler moves the server to %s' % show(f['1'], 4))
        if 'Request' not in ks:
            if not is_agg(f['0'], 'None'): c.bad('notification:answered', where, 'a notification is answered with %s' % show(f['0'], 3))
            return
        r = response(f['0'])
        if r is None or ks != frozenset(['Request']): c.bad('request:unanswered', where, 'a request without handler is answered with %s' % show(f['0'], 3)); return
        r = fields(r)
        check_id(c, where, r)
        er = r.get('error')
        if not is_agg(er, 'Some') or not is_agg(r.get('result'), 'None'): c.bad('unhandled:noerror', where, 'a request without handler is not answered with an error'); return
        miss = mk('fld', SELF, s.names['missing'])
        fm = E.fact_var(st, miss)
        code = fields(er.a[2][0][1]).get('code')
        c.ob('refusal', where)
        if fm == frozenset(['Some']):
            if not contains(code, miss): c.bad('unhandled:code', where, 'a request without handler is refused with the code %s, not with the configured one' % show(code, 3))
        elif fm != frozenset(['None']): c.bad('unhandled:untested', where, 'a request without handler is refused without regard to the configured error')


class Loop(Rec):
    """AnalyzerHost::run_protocol_machine.  state: ((result calls), (awaited outcomes), sent)"""
    calls = ('LspProtocolMachine::process_message',)
    def stop(s, fid): return Rec.stop(s, fid) or fid in s.opaque
    def __init__(s, c, P, opaque): Rec.__init__(s, c, P); s.opaque = opaque
    def init(s): return (None, None, None, 0)          # message, call, outcome, sent

    def partition(s, st, E):
        m, call, out, n = st.auto
        fs = [(k.id, f) for k, f in st.facts.items() if k.op == 'var' and (out is not None and contains(k, out) or m is not None and contains(k, m) and out is None)]
        return (E.tags(st), frozenset(fs))

    def event(s, kind, ev, st, E):
        c, F = s.c, E.final
        m, call, out, n = st.auto
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in RECV or kind == 'return':
            if F: s.settled(ev, st, E, kind)
            return (None, None, None, 0)
        if kind == 'ret' and name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in RECV:
            return (ev.val, None, None, 0)
        if kind == 'ret' and name in s.calls:
            if F:
                c.ob('message processed', ev.where)
                if call is not None: c.bad('process:twice', ev.where, 'a received message is processed more than once')
                a = E.val(st, ev.args[1], 5)
                while a.op == 'box': a = E.val(st, a.a[1])
                if m is None or a is not pay(m, 'Ok'): c.bad('process:message', ev.where, 'what is processed is %s, not the message received' % show(a, 4))
            return (m, ev.val, out, n)
        if kind == 'ret' and name == 'await' and call is not None and contains(ev.args[0], call): return (m, call, ev.val, n)
        if kind == 'call' and name in SENDS:
            if F:
                c.ob('response sent', ev.where)
                a = E.val(st, ev.args[1], 5)
                if out is None: c.bad('send:early', ev.where, 'something is sent to the client before the message was processed'); return None
                want = pay(pay(out, 'Ok'), 'Some')
                if a is not want and not (a.op == 'agg' and a.a[1] == 'Response' and a.a[2][0][1] is pay(want, 'Response')): c.bad('send:value', ev.where, 'what is sent is %s, not the response' % show(a, 5))
                if n: c.bad('send:twice', ev.where, 'a response is sent more than once')
                if not self_only(E.val(st, ev.args[0])) and not contains_self(E.val(st, ev.args[0])): c.bad('send:where', ev.where, 'the response is sent to %s, not to the client' % show(ev.args[0], 4))
            return (m, call, out, 1)
        return None

    def settled(s, ev, st, E, kind):
        m, call, out, n = st.auto
        c = s.c
        if m is None or E.fact_var(st, m) == frozenset(['Err']): return
        c.ob('message settled', ev.where)
        if call is None:
            for k, f in st.facts.items():
                if k.op == 'call' and k.a[1] == 'CancellationToken::is_canceled' and f == ('in', frozenset([True])): return
            c.bad('process:dropped', ev.where, 'a received message is dropped without being processed'); return
        if out is None: c.bad('process:notawaited', ev.where, 'the outcome of processing a message is not awaited'); return
        if n: return
        if E.fact_var(st, out) == frozenset(['Err']): return
        o = pay(out, 'Ok')
        if E.fact_var(st, o) == frozenset(['None']): return
        fv = E.fact_var(st, pay(o, 'Some'))
        if fv is not None and 'Response' not in fv: return
        c.bad('send:dropped', ev.where, 'the response to a request is not sent')


def contains_self(t): return any(x is SELF or x.op == 'ref' and x.a[0][0] == ('p', SELF) for x in subterms(t))


class Machine(Rec):
    """LspProtocolMachine::process_message"""
    calls = (DISPATCH,)
    def __init__(s, c, P, cur): Rec.__init__(s, c, P); s.cur = cur; s.stores = []
    def called(s, ev, st, E):
        c = s.c
        c.ob('dispatcher called', ev.where)
        if st.auto[0]: c.bad('dispatch:twice', ev.where, 'a message is dispatched more than once')
        d, m, state = (E.val(st, a, 8) for a in ev.args[:3])
        if strip(m) is not A2: c.bad('dispatch:message', ev.where, 'what is dispatched is %s, not the message' % show(m, 4))
        if not contains(d, mk('fld', SELF, s.cur)) and not any(x.op == 'fld' and x.a[1] == s.cur for x in subterms(d)): c.bad('dispatch:state', ev.where, 'the dispatcher is not the one of the current state: %s' % show(d, 6))

    def returned(s, ev, st, E, v):
        c, where = s.c, ev.where
        calls, aw = st.auto
        c.ob('outcome of a message', where)
        if not aw: c.bad('dispatch:never', where, 'a message may not be dispatched'); return
        a = aw[-1]
        f = E.fact_var(st, a)
        cur = E.read(st, (('p', SELF), (('f', s.cur),)))
        old = mk('fld', SELF, s.cur)
        nxt = project(pay(a, 'Ok'), ('f', '1'))
        for x in E.leaves(E.val(st, cur)):
            if f == frozenset(['Ok']):
                if x is nxt: continue
                if x is old and (E.fact_bool(st, mk('bin', 'Eq', old, nxt)) is True or E.fact_bool(st, mk('bin', 'Ne', old, nxt)) is False): continue
                c.bad('machine:state', where, 'after a dispatched message the state is %s, not the next state it led to' % show(x, 4))
            elif f == frozenset(['Err']):
                if x is not old: c.bad('machine:failed', where, 'a message that failed moves the server to %s' % show(x, 4))
            elif x is not old: c.bad('machine:untested', where, 'the state moves to %s although the message may have failed' % show(x, 4))
        if f == frozenset(['Ok']):
            w = project(pay(a, 'Ok'), ('f', '0'))
            if not (is_agg(v, 'Ok') and v.a[2][0][1] is w): c.bad('machine:response', where, 'the response %s is not passed on' % show(v, 4))
        elif f == frozenset(['Err']):
            if not is_agg(v, 'Err'): c.bad('machine:error', where, 'a protocol error is passed on as %s' % show(v, 4))
        elif v is not a: c.bad('machine:outcome', where, 'the outcome %s does not depend on the dispatcher' % show(v, 4))


def adt(P, name): return next((a for a in P.adts.values() if last(a['name']) == name), None)


def ftypes(a): return {f['n']: f['t'] for v in a['variants'] for f in v['fields']}


def names(c, P):
    """fields of the types of this module, by type"""
    out = {}
    d = adt(P, 'DefaultDispatch')
    if d is None: c.missing('the type DefaultDispatch'); return None
    for n, t in ftypes(d).items():
        if last(t) == 'LspServerState': out['state'] = n
        elif 'ErrorCode' in t: out['missing'] = n
    m = adt(P, 'LspProtocolMachine')
    if m is None: c.missing('the type LspProtocolMachine'); return None
    for n, t in ftypes(m).items():
        if last(t) == 'LspServerState': out['current'] = n
    for k in ('state', 'missing', 'current'):
        if k not in out: c.missing('the field for the %s of a dispatcher' % k); return None
    return out


def transition_field(P, self_ty):
    a = adt(P, last(_strip_generics(self_ty)))
    for n, t in (ftypes(a) if a else {}).items():
        if last(t) == 'LspTransitionTarget': return n


def dispatchers(c, P, nm):
    """(instances of Dispatcher)"""
    out = []
    for i, b in impls(P, 'Dispatch', 'dispatch'):
        if b is None: c.missing('the body of dispatch of ' + i['self_ty']); continue
        r = Dispatcher(c, P, nm)
        c.run_engine(P, r, b)
        out.append(r)
    return out


def responses(c):
    c.rule('one response', 'every path of a request through target, dispatcher, machine and loop ends in one response with the identifier of the request that is sent once; a notification is never answered')
    c.rule('faithful', 'the response carries the result of the handler exactly when the parameters were decoded and the handler succeeded, and an error otherwise; the handler gets the decoded parameters, once')
    c.rule('routing', 'a message is given to the handler looked up in the map of its kind under its method; without one a request is refused with the configured error')
    P = c.program(UNITS)
    nm = names(c, P)
    if nm is None: return
    kinds = set()
    for i, b in impls(P, 'DispatchTarget', 'process_message'):
        tr = transition_field(P, i['self_ty'])
        if b is None or tr is None: c.missing('the body or transition of ' + i['self_ty']); continue
        r = Target(c, P, tr)
        c.run_engine(P, r, b)
        r.judge()
        kinds |= r.kinds
    for k in ('Request', 'Notification'):
        if k not in kinds: c.missing('a target that handles a %s' % k)
    for d in dispatchers(c, P, nm):
        for k in ('Request', 'Notification'):
            if len(d.maps.get(k, ())) != 1: c.bad('target:maps', 'Dispatch::dispatch', 'handlers of a %s are looked up in %s' % (k, sorted(d.maps.get(k, ()))))
        if d.maps.get('Request', set()) & d.maps.get('Notification', set()): c.bad('target:maps', 'Dispatch::dispatch', 'requests and notifications are looked up in the same map')
    for fid, f in sorted(P.fns.items()):
        # a method of the builder that takes a handler: its type is a parameter of the method
        if f['kind'] != 'method' or 'DispatchBuilder<' not in f['locals'][0]['t'] or f['argc'] < 2 or not re.match(r'^[A-Z]\w*$', f['locals'][2]['t']): continue
        if f['locals'][2]['t'] in P.adts: continue
        c.run_engine(P, Registers(c, P, last(f['name'])), fid)
    pm = method(P, 'LspProtocolMachine', 'process_message')
    if pm is None or pm + '::{closure#0}' not in P.fns: c.missing('LspProtocolMachine::process_message'); return
    c.run_engine(P, Machine(c, P, nm['current']), pm + '::{closure#0}')
    ia = method(P, 'LspProtocolMachine', 'is_active')
    users = [f for f in P.fns if P.fns[f]['kind'] == 'coroutine' and f.endswith('::{closure#0}') and P.fns[f]['parent'] in P.fns and calls_machine(P, f, pm)]
    if not users: c.missing('the loop that processes the messages of the client')
    for f in users: c.run_engine(P, Loop(c, P, {pm, pm + '::{closure#0}', ia}), f)
    for k in ('handler called', 'outcome of a handled message', 'target called', 'refusal', 'message processed', 'response sent', 'dispatcher called', 'registration of a handler'): c.floor(k, 1)


def callees(P, f):
    """functions of the workspace that f or the closures in it call"""
    out = set()
    for b in P.fns[f]['blocks']:
        t = b['t']
        fr = ((t.get('fn') or {}).get('c') or {}).get('fn') if t['k'] == 'call' else None
        if fr: out |= {fr.get('rid') or fr['id'], fr['id']}
    return out


def reaches(P, f, goal):
    seen, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g in seen: continue
        seen.add(g)
        if g == goal: return True
        todo += [h for h in callees(P, g) if h in P.fns] + [h for h in children_of(P).get(g, ())]
    return False


def children_of(P):
    if not hasattr(P, '_kids'):
        P._kids = {}
        for g in P.fns: P._kids.setdefault(P.fns[g].get('parent'), []).append(g)
    return P._kids


def receives(P, f):
    fam = [g for g in P.fns if g == f or g.startswith(f + '::')]
    for g in fam:
        for b in P.fns[g]['blocks']:
            fr = ((b['t'].get('fn') or {}).get('c') or {}).get('fn') if b['t']['k'] == 'call' else None
            if fr and short(fr) in RECV: return True
    return False


def calls_machine(P, f, pm): return receives(P, f) and reaches(P, f, pm)


# ---------------------------------------------------------------- lifecycle
STATES = ('ActiveUninitialized', 'Initializing', 'ActiveInitialized', 'ShuttingDown', 'Stopped')
METHODS = {'Initialize': 'initialize', 'Initialized': 'initialized', 'Shutdown': 'shutdown', 'Exit': 'exit'}
# state -> (requests that move on, notifications that move on, refusal of everything else, may there be further requests)
LIFE = {
    'ActiveUninitialized': ({'initialize': 'Initializing'}, {'exit': 'Stopped'}, 'ServerNotInitialized', False),
    'Initializing': ({}, {'initialized': 'ActiveInitialized', 'exit': 'Stopped'}, 'ServerNotInitialized', False),
    'ActiveInitialized': ({'shutdown': 'ShuttingDown'}, {'exit': 'Stopped'}, None, True),
    'ShuttingDown': ({}, {'exit': 'Stopped'}, 'InvalidRequest', False),
    'Stopped': ({}, {}, 'InvalidRequest', False),
}


def variant(t): return t.a[1] if t.op == 'agg' and t.a[1] else None


class Registers(Base):
    """a method that registers a handler puts it, once, under the method of its message"""
    def __init__(s, c, P, name): Base.__init__(s, c, P); s.name = name
    def init(s): return 0

    def event(s, kind, ev, st, E):
        name = getattr(ev, 'name', '')
        if kind == 'call' and name.endswith(('Entry::or_insert', 'Entry::or_insert_with', 'Entry::insert_entry')): return min(st.auto + 1, 2)
        if kind == 'call' and name in ('HashMap::insert', 'BTreeMap::insert') and not getattr(ev, 'inlined', False):
            k, v = E.val(st, ev.args[1]), E.val(st, ev.args[2], 10)
            if E.final and k.op == 'const': s.c.bad('register:' + s.name, ev.where, '%s registers its handler under %s, not under the method of the message' % (s.name, show(k, 3)))
            if E.final and k.op == 'static' and not k.a[0].endswith('::METHOD'): s.c.bad('register:' + s.name, ev.where, '%s registers its handler under %s, not under the method of the message' % (s.name, show(k, 3)))
            return min(st.auto + 1, 2)
        if kind == 'return' and E.final:
            s.c.ob('registration of a handler', ev.where)
            if st.auto != 1: s.c.bad('register:' + s.name, ev.where, '%s registers its handler %s' % (s.name, 'nowhere' if not st.auto else 'more than once'))
        return None


class Build(Base):
    """LspProtocolMachine::new: every handler registered, and with which transition"""
    def __init__(s, c, P): Base.__init__(s, c, P); s.ins, s.mach, s.sure = [], [], True
    def init(s): return 0

    def event(s, kind, ev, st, E):
        if not E.final: return None
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in ('HashMap::insert', 'BTreeMap::insert') and not getattr(ev, 'inlined', False):
            m, k, v = (E.val(st, a, 8) for a in ev.args[:3])
            s.ins.append((registered_at(ev), m, s.key(E, st, ev, k), [E.val(st, x, 8) for x in E.leaves(v)], frozenset(kk for kk, f in st.facts.items() if kk.op != 'var')))
        if kind == 'return':
            for v in E.leaves(ev.val): s.mach.append((ev.where, deep(E, st, v)))
        return None

    def key(s, E, st, ev, k):
        """the method a handler is registered under, as a type of the message or a literal"""
        if k.op == 'const': return k.a[0]
        if k.op == 'static' and k.a[0].endswith('::METHOD'):
            ctx = ev.ctx
            while ctx is not None:
                for t in msg_types(ctx): return t
                ctx = ctx.parent
        if k.op in ('agg',): return variant(k)
        return None


def registered_at(ev):
    """the call that registers the handler, outside of the builder"""
    ctx = ev.ctx
    while ctx.parent is not None and ctx.fn['span']['f'] == ev.ctx.fn['span']['f']:
        t = ctx.parent.fn['blocks'][ctx.bb]['t']
        if ctx.parent.fn['span']['f'] != ev.ctx.fn['span']['f']: return loc_str(t['s'])
        ctx = ctx.parent
    return ev.where


def msg_types(ctx):
    """types of messages among the type arguments of the call that entered ctx"""
    if ctx.parent is None: return
    fr = ((ctx.parent.fn['blocks'][ctx.bb]['t'].get('fn') or {}).get('c') or {}).get('fn') or {}
    for a in fr.get('args') or []:
        if re.match(r'^[\w:]*\b(request|notification)::\w+$', a): yield last(a)


def deep(E, st, t):
    """a value with what its boxes hold at the end of the path"""
    return E.val(st, t, 10)


def target_of(v):
    """(kind of target, transition) of a registered target"""
    v = strip(v)
    while v.op == 'box': v = v.a[-1]
    to = 'Current'
    if v.op == 'upd':
        if 'set_transition_target' in str(v.a[1]):
            n = v.a[-1]
            to = variant(n) if variant(n) != 'Next' else variant(n.a[2][0][1])
        v = v.a[2]
        while v.op == 'box': v = v.a[-1]
    if v.op == 'agg':
        f = dict(v.a[2])
        for x in f.values():
            if x.op == 'agg' and last(x.a[0]) == 'LspTransitionTarget' and not (to != 'Current'):
                to = 'Current' if x.a[1] == 'Current' else variant(x.a[2][0][1])
        return last(v.a[0]), to
    return None, to


class Active(Rule):
    """is_active: false exactly in the state Stopped"""
    def __init__(s, c, cur): s.c, s.cur = c, mk('fld', SELF, cur)
    def init(s): return 0
    def partition(s, st, E): return (E.tags(st), E.fact_var(st, s.cur))

    def event(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        c = s.c
        for v in E.leaves(ev.val):
            c.ob('activity test', ev.where)
            f = E.fact_var(st, s.cur)
            if v.op == 'bin' and v.a[0] in ('Eq', 'Ne') and s.cur in v.a[1:]:
                o = v.a[2] if v.a[1] is s.cur else v.a[1]
                if v.a[0] == 'Ne' and state_name(o) == 'Stopped': continue
            elif v is TRUE and f is not None and 'Stopped' not in f: continue
            elif v is FALSE and f == frozenset(['Stopped']): continue
            elif v.op == 'un' and v.a[0] == 'Not' and v.a[1].op == 'bin' and v.a[1].a[0] == 'Eq' and s.cur in v.a[1].a[1:] and any(state_name(x) == 'Stopped' for x in v.a[1].a[1:]): continue
            c.bad('active', ev.where, 'the machine counts as active when %s (state among %s): it must be active in every state but Stopped' % (show(v, 4), sorted(f) if f else 'all'))
        return None


ORDER = list(STATES)


def state_name(t):
    if t.op == 'agg': return t.a[1] or None
    if t.op == 'const' and isinstance(t.a[0], int) and 0 <= t.a[0] < len(ORDER): return ORDER[t.a[0]]
    return None


def lifecycle(c):
    c.rule('transitions', 'the handlers registered for every state, with the transition each of them names, are the ones of the lifecycle of the protocol')
    c.rule('refusals', 'outside the initialised state only the messages of the lifecycle are handled and requests are refused with the code of the state')
    c.rule('advance', 'the state moves exactly after a message was handled successfully, to the registered next state; the machine is active in every state but Stopped')
    P = c.program(UNITS)
    nm = names(c, P)
    if nm is None: return
    a = adt(P, 'LspServerState')
    if a is None: c.missing('the states of the server'); return
    ORDER[:] = [v['name'] for v in a['variants']]
    for i, b in impls(P, 'DispatchTarget', 'process_message'):
        tr = transition_field(P, i['self_ty'])
        if b is None or tr is None: c.missing('the body or transition of ' + i['self_ty']); continue
        r = Target(c, P, tr); c.run_engine(P, r, b); r.judge()
        for it in i['items']:
            if it['n'] == 'set_transition_target': c.run_engine(P, Setter(c, tr), it['id'])
    fld = handler_maps(c, P, nm)
    if fld is None: return
    pm, ia, new = (method(P, 'LspProtocolMachine', n) for n in ('process_message', 'is_active', 'new'))
    if pm is None or ia is None or new is None: c.missing('LspProtocolMachine::new, process_message and is_active'); return
    c.run_engine(P, Machine(c, P, nm['current']), pm + '::{closure#0}')
    c.run_engine(P, Active(c, nm['current']), ia)
    b = Build(c, P)
    c.run_engine(P, b, new)
    if not b.mach: c.missing('the machine LspProtocolMachine::new returns'); return
    for where, m in b.mach:
        f = fields(m)
        c.ob('starting state', where)
        if state_name(f.get(nm['current'], UNIT)) != 'ActiveUninitialized': c.bad('start', where, 'the server starts in the state %s' % show(f.get(nm['current'], UNIT), 3))
    table = state_table(b)
    for s in STATES:
        if s not in table: c.bad('state:missing', new, 'no dispatcher is created for the state %s' % s); continue
        if len(table[s]) > 1: c.bad('state:twice', new, 'several dispatchers are created for the state %s' % s)
        where, d = table[s][-1]
        judge_state(c, s, where, fields(d), nm, fld, b.ins)
    for k in ('starting state', 'handler registered', 'activity test', 'transition registered', 'state of the lifecycle'): c.floor(k, 1)


def handler_maps(c, P, nm):
    """the members that hold the handlers of requests and of notifications"""
    ds = dispatchers(c, P, nm)
    maps = {k: set().union(*[d.maps.get(k, set()) for d in ds]) if ds else set() for k in ('Request', 'Notification')}
    if any(len(v) != 1 for v in maps.values()): c.bad('maps', 'Dispatch::dispatch', 'the maps of handlers cannot be told apart'); return None
    return {k: next(iter(v)) for k, v in maps.items()}


def state_table(b):
    """the dispatchers of every state of the machine that was built"""
    table = {}
    def add(k, d, where):
        n = state_name(k)
        while d.op == 'box': d = d.a[-1]
        if d.op == 'agg' and last(d.a[0]) == 'DefaultDispatch': table.setdefault(n, []).append((where, d))
    for where, m in b.mach:
        for x in subterms(m):
            if x.op != 'agg' or x.a[0] != 'tuple' or len(x.a[2]) != 2: continue
            k, d = x.a[2][0][1], x.a[2][1][1]
            if k.op == 'agg' and last(k.a[0]) == 'LspServerState': add(k, d, where)
    for where, m, k, vs, _ in b.ins:
        if k in STATES:
            for v in vs: add(agg('LspServerState', k, ()), v, where)
    return table


def registered(c, P):
    """the messages handled in every state: state -> message type -> where it is registered"""
    nm = names(c, P)
    fld = nm and handler_maps(c, P, nm)
    new = method(P, 'LspProtocolMachine', 'new')
    if not fld or new is None: c.missing('the handlers of LspProtocolMachine'); return {}
    b = Build(c, P)
    c.run_engine(P, b, new)
    out = {}
    for s, ds in state_table(b).items():
        for where, d in ds:
            for m in (fields(d).get(f) for f in fld.values()):
                for w, mp, k, vs, cond in b.ins:
                    if m is not None and k not in STATES and contains(mp, m): out.setdefault(s, {})[k] = w
    return out


def judge_state(c, s, where, d, nm, fld, ins):
    c.ob('state of the lifecycle', s)
    if state_name(d.get(nm['state'], UNIT)) != s: c.bad('state:' + s, where, 'the dispatcher of the state %s believes to be in %s: unhandled and failed messages move the server there' % (s, show(d.get(nm['state'], UNIT), 3)))
    reqs, nots, refusal, more = LIFE[s]
    e = d.get(nm['missing'])
    got = None
    if e is not None and is_agg(e, 'Some'): got = variant(fields(e.a[2][0][1]).get('0', UNIT)) or show(e, 3)
    elif e is None or not is_agg(e, 'None'): got = show(e, 3) if e is not None else '?'
    if got != refusal: c.bad('refusal:' + s, where, 'requests that have no handler in the state %s are refused with %s, not with %s' % (s, got, refusal or 'the default'))
    for kind, want in (('Request', reqs), ('Notification', nots)):
        m = d.get(fld[kind])
        have = {}
        for w, mp, k, vs, cond in ins:
            if k in STATES or m is None or not contains(mp, m): continue
            c.ob('handler registered', w)
            if cond: c.bad('handler:conditional', w, 'a handler of the state %s is registered only under a condition' % s)
            for v in vs:
                t, to = target_of(v)
                if t is None or not t.startswith(kind): c.bad('handler:kind', w, 'a %s of the state %s is handled by %s' % (kind.lower(), s, t))
                if k is None: c.bad('handler:method', w, 'the method of a handler of the state %s cannot be determined' % s)
                have[METHODS.get(k, k)] = (w, to)
        for k, to in want.items():
            if k not in have: c.bad('handler:missing', where, 'the %s "%s" is not handled in the state %s' % (kind.lower(), k, s))
            elif have[k][1] != to: c.bad('transition:' + s + ':' + k, have[k][0], 'the %s "%s" moves the server from %s to %s, not to %s' % (kind.lower(), k, s, have[k][1], to))
        for k, (w, to) in have.items():
            if k in want: continue
            if not more or k in METHODS.values(): c.bad('handler:unexpected', w, 'the %s "%s" is handled in the state %s' % (kind.lower(), k, s))
            elif to not in ('Current', s): c.bad('transition:' + s + ':' + str(k), w, 'the %s "%s" moves the server from %s to %s' % (kind.lower(), k, s, to))
