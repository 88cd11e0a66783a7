"""The incremental packrat parser: grammar validation, matching semantics, memo discipline, invalidation by edits."""
from engine import *
from engine import _strip_generics
from jsonrpc import method

UNITS = ['analyzer_core']
REORDER = {'rev', 'skip', 'take', 'step_by', 'skip_while', 'take_while', 'filter', 'filter_map', 'map_while', 'chain', 'zip', 'flat_map', 'flatten'}
G = lambda n: (('g', n), ())


# ---------------------------------------------------------------- arithmetic
def lin(t, n=0):
    """linear form: ({atom: coefficient}, constant)"""
    while t.op == 'cast': t = t.a[0]
    if t.op == 'const' and isinstance(t.a[0], int): return {}, int(t.a[0])
    if t.op == 'lit' and re.match(r'^-?\d+(_?[iu](size|\d+))?$', str(t.a[0])): return {}, int(re.match(r'^-?\d+', str(t.a[0])).group())
    if n < 20 and t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        (a, x), (b, y) = lin(t.a[1], n + 1), lin(t.a[2], n + 1)
        k = 1 if t.a[0] == 'Add' else -1
        d = dict(a)
        for m, v in b.items(): d[m] = d.get(m, 0) + k * v
        return {m: v for m, v in d.items() if v}, x + k * y
    if t.op == 'app' and t.a[0] in ('saturating_sub', 'checked_sub') and len(t.a) == 3: pass
    return {t: 1}, 0


def lsub(a, b):
    d = dict(a[0])
    for m, v in b[0].items(): d[m] = d.get(m, 0) - v
    return {m: v for m, v in d.items() if v}, a[1] - b[1]


def factlins(st):
    """known facts as linear forms that are >= 0"""
    for k, f in st.facts.items():
        if k.op != 'bin' or f[0] != 'in' or len(f[1]) != 1: continue
        if k.a[0] == 'Lt':
            a, b = lin(k.a[1]), lin(k.a[2])
            if True in f[1]: d = lsub(b, a); yield d[0], d[1] - 1
            else: yield lsub(a, b)
        elif k.a[0] == 'Eq' and True in f[1]:
            d = lsub(lin(k.a[1]), lin(k.a[2])); yield d
            yield {m: -v for m, v in d[0].items()}, -d[1]


def geq(E, st, v, w, n=0):
    """v >= w on this path"""
    while v.op == 'cast': v = v.a[0]
    while w.op == 'cast': w = w.a[0]
    if v is w: return True
    d = lsub(lin(v), lin(w))
    if not d[0]: return d[1] >= 0
    for f in factlins(st):
        e = lsub(d, f)
        if not e[0] and e[1] >= 0: return True
    if n > 6: return False
    for f in factlins(st):
        # v >= y and y >= w
        if f[0].get(v) == 1 and len(f[0]) == 2 and f[1] <= 0:
            y = next(m for m in f[0] if m is not v)
            if f[0][y] == -1 and y is not w and geq(E, st, y, w, n + 3): return True
    if v.op == 'app' and v.a[0] == 'max' and any(geq(E, st, x, w, n + 1) for x in v.a[1:]): return True
    if w.op == 'app' and w.a[0] == 'max' and all(geq(E, st, v, x, n + 1) for x in w.a[1:]): return True
    if w.op == 'app' and w.a[0] == 'min' and any(geq(E, st, v, x, n + 1) for x in w.a[1:]): return True
    if v.op == 'bin' and v.a[0] == 'Add':
        for x, y in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if y.op == 'const' and y.a[0] >= 0 and geq(E, st, x, w, n + 1): return True
    r = E.rule.atleast(st, v) if hasattr(E.rule, 'atleast') else None
    if r is not None and geq(E, st, r, w, n + 1): return True
    if v.op == 'phi' and n < 3:
        ls = list(E.leaves(v))
        if 0 < len(ls) < 6 and all(x is not v and geq(E, st, x, w, n + 3) for x in ls): return True
    # a sum containing a maximum
    if v.op == 'bin' and v.a[0] in ('Add', 'Sub') and v.a[1].op == 'cast': pass
    ms = [m for m in d[0] if m.op == 'app' and m.a[0] == 'max' and d[0][m] == 1]
    for m in ms[:1]:
        for x in m.a[1:]:
            e = lsub((dict(d[0]), d[1]), lsub(({m: 1}, 0), lin(x)))
            if not e[0] and e[1] >= 0: return True
    return False


def strip_(E, st, t):
    while t.op in ('cast', 'ref'): t = t.a[0] if t.op == 'cast' else E.val(st, t)
    return t


def same(E, a, b):
    if a is b: return True
    if lin(a) == lin(b): return True
    return False


class Facts:
    def __init__(s, c, P):
        s.ok = False
        for n in ('from_rules', '_match', 'apply_edit'):
            v = method(P, 'Parser', n)
            if v is None: c.missing('Parser::' + n); return
            setattr(s, n, v)
        for n in ('memoized_eval_rule', 'eval_rule', 'memoize_result', 'use_memoized_result', 'consume'):
            v = method(P, 'Matcher', n)
            if v is None: c.missing('Matcher::' + n); return
            setattr(s, n, v)
        A = {last(n): a for n, a in P.adts.items() if '::parser::' in n}
        if 'Rule' not in A or 'Cst' not in A: c.missing('the types Rule and Cst'); return
        s.variants = {v['name']: [f['t'] for f in v['fields']] for v in A['Rule']['variants']}
        s.cst = {v['name']: [f['t'] for f in v['fields']] for v in A['Cst']['variants']}
        for n in s.variants:
            if n not in ('Terminal', 'Choice', 'Sequence', 'Repetition', 'Not'):
                c.bad('variant:' + n, 'Rule', 'the grammar has a kind of rule, %s, this rule has no semantics for' % n)
        s.ok = True


SELF = mk('arg', 1)
def fl(loc, *names): return (loc[0], loc[1] + tuple(('f', n) for n in names))
def elem_of(t, payload):
    """t denotes some element of the payload"""
    if t.op == 'elem' and t.a[1] == 'ref' or t.op == 'elem' and t.a[1] == 'val': return t.a[2] is payload
    if t.op == 'idx' and t.a[0] is payload: return True
    return False


def base_of(it): return it.a[1]


def full_iter(E, it, payload):
    """it walks over every element of the payload, in order"""
    if it.op != 'it': return False
    if any(s[0] in REORDER for s in it.a[2]): return False
    b = it.a[1]
    if b is payload: return it.a[0] in ('ref', 'val', 'mut')
    if b.op == 'agg' and b.a[0] == 'Range':
        f = dict(b.a[2])
        return f['start'] is ZERO and f['end'] is app('len', payload)
    return False


def of_payload(it, payload):
    return it.op == 'it' and (contains(it.a[1], payload) or it.a[1] is payload)


# ---------------------------------------------------------------- matching
class PRule(Rule):
    see_bin = True

    def model(s, name):
        if name == 'Clone::clone':       # derived clones of the parser's own types are structural
            def m(E, st, c):
                v = E.val(st, c.args[0], 4)
                E.emit('call', st, c.ctx, c.span, name=c.name, args=[v], fr=c.fr, id=None, call=c)
                return [E.finish(st, c, v)]
            return m


def mentions(t, field):
    return any(x.op == 'fld' and x.a[1] == field or x.op == 'ref' and ('f', field) in x.a[0][1] for x in subterms(t))


class Eval(PRule):
    """state: (calls made 0/1/2, last result recorded in the match list, list of elements exhausted)"""
    see_bin = True

    def __init__(s, c, F): s.c, s.F = c, F; s.seen = set(); s.subs = set()
    def init(s): return (0, False, False)

    def R(s, E):
        t = mk('fld', SELF, 'rules')
        return mk('idx', t, mk('arg', 2))

    def variant(s, E, st):
        v = E.fact_var(st, s.R(E))
        return next(iter(v)) if v and len(v) == 1 else None

    def partition(s, st, E):
        l = st.env.get(G('last'))
        k = None
        if l is not None: k = E.fact_bool(st, l) if l.op == 'call' and l.a[1] == 'consume' else E.fact_var(st, l)
        e = None
        p = st.env.get(G('before')); q = st.env.get(G('after'))
        if p is not None and q is not None: e = E.fact_bool(st, mk('bin', 'Eq', p, q))
        return (E.tags(st), s.variant(E, st), k, e)

    def poskey(s): return fl((('p', SELF), ()), 'pos')

    def summary(s, E, st, c, fid):
        if c.stage is not None: return None
        F = s.F
        if fid not in (F.memoized_eval_rule, F.consume, F.eval_rule): return None
        loc = fl(E.pointee(c.args[0]), 'pos')
        if loc != s.poskey():
            if E.final: s.c.bad('eval:self', c.where(), 'a sub-rule is evaluated on another matcher than this one')
        a = E.val(st, c.args[1], 5)
        pos = E.read(st, loc)
        kind = 'consume' if fid == F.consume else 'memo'
        s.check_call(E, st, c, kind, a, pos)
        n, pushed, exh = st.auto
        last_ = st.env.get(G('last'))
        r = mk('call', c.site, kind)
        p = mk('call', c.site, 'pos')
        st.env[G('before')] = pos
        E.refresh(st, r); E.refresh(st, p)
        E.write(st, loc, p)
        for f in ('max_examined_pos',): E.write(st, fl(E.pointee(c.args[0]), f), E.refresh(st, mk('call', c.site, 'max')))
        st.env[G('last')] = r
        st.env[G('after')] = p
        st.env[G('rule')] = a
        st.auto = (min(n + 1, 2), False, False)
        return [E.finish(st, c, r)]

    def elem(s, E, a, V):
        pl = pay(s.R(E), V)
        return any(elem_of(x, pl) for x in E.leaves(a)) and all(elem_of(x, pl) for x in E.leaves(a))

    def pos_ok(s, E, st, pos):
        """nothing moved the position since the last evaluation"""
        n = st.auto[0]
        want = st.env.get(G('after')) if n else mk('fld', SELF, 'pos')
        return want is not None and same(E, pos, want)

    def lastres(s, E, st):
        l = st.env.get(G('last'))
        return None if l is None else (E.fact_bool(st, l) if l.op == 'call' and l.a[1] == 'consume' else E.fact_var(st, l))

    def progressed(s, E, st):
        b, a = st.env.get(G('before')), st.env.get(G('after'))
        if b is None or a is None: return None
        k = E.fact_bool(st, mk('bin', 'Eq', b, a))
        if k is not None: return not k
        if E.fact_bool(st, mk('bin', 'Lt', b, a)) is True: return True
        if E.fact_bool(st, mk('bin', 'Lt', b, a)) is False: return False
        return None

    def check_call(s, E, st, c, kind, a, pos):
        if not E.final: return
        C = s.c
        V = s.variant(E, st)
        w = c.where()
        n, pushed, exh = st.auto
        if V is None:
            C.bad('eval:variant', w, 'a sub-rule is evaluated without knowing which kind of rule is being matched'); return
        C.ob('evaluation of a sub-rule or token in %s' % V, w)
        s.seen.add(V)
        lr = s.lastres(E, st)
        if kind == 'consume':
            if V != 'Terminal': C.bad('eval:%s:token' % V, w, 'a %s rule consumes tokens' % V); return
            if not s.elem(E, a, V): C.bad('eval:Terminal:token', w, 'the token consumed is %s, not one of the terminal' % show(a, 4))
            if n and lr is not True: C.bad('eval:Terminal:go-on', w, 'matching goes on after a token that did not match')
            if not s.pos_ok(E, st, pos): C.bad('eval:Terminal:pos', w, 'the position is moved between two tokens of a terminal')
            return
        if V == 'Terminal': C.bad('eval:Terminal:rule', w, 'a terminal evaluates a rule'); return
        pl = pay(s.R(E), V)
        if V in ('Choice', 'Sequence'):
            if not s.elem(E, a, V): C.bad('eval:%s:rule' % V, w, 'the rule evaluated is %s, not one of the %s' % (show(a, 4), 'options' if V == 'Choice' else 'parts'))
        elif not (a is pl): C.bad('eval:%s:rule' % V, w, 'the rule evaluated is %s, not the operand' % show(a, 4))
        if V == 'Choice':
            if not same(E, pos, mk('fld', SELF, 'pos')): C.bad('eval:Choice:pos', w, 'an option is tried at another position than the one the choice started at (%s)' % show(pos, 4))
            if n and lr != frozenset(['None']): C.bad('eval:Choice:go-on', w, 'a further option is tried although an earlier one matched')
        elif V == 'Sequence':
            if not s.pos_ok(E, st, pos): C.bad('eval:Sequence:pos', w, 'a part is evaluated at another position than the end of the part before it (%s)' % show(pos, 4))
            if n and lr != frozenset(['Some']): C.bad('eval:Sequence:go-on', w, 'a further part is evaluated although an earlier one did not match')
            if n and not pushed: C.bad('eval:Sequence:push', w, 'the match of a part is not recorded in the tree')
        elif V == 'Repetition':
            if not s.pos_ok(E, st, pos): C.bad('eval:Repetition:pos', w, 'an iteration starts at another position than the end of the iteration before it (%s)' % show(pos, 4))
            if n and lr != frozenset(['Some']): C.bad('eval:Repetition:go-on', w, 'the repetition goes on although the operand did not match')
            if n and not pushed: C.bad('eval:Repetition:push', w, 'the match of an iteration is not recorded in the tree')
            if n and s.progressed(E, st) is not True: C.bad('eval:Repetition:empty', w, 'the repetition goes on after an iteration that may have consumed nothing: it can go on forever')
        elif V == 'Not':
            if n: C.bad('eval:Not:twice', w, 'the operand of a negation is evaluated twice')
            if not s.pos_ok(E, st, pos): C.bad('eval:Not:pos', w, 'the operand of a negation is evaluated at another position')

    def event(s, kind, ev, st, E):
        C, F = s.c, E.final
        n, pushed, exh = st.auto
        name = getattr(ev, 'name', '')
        if kind == 'exhausted':
            V = s.variant(E, st)
            if V in ('Terminal', 'Choice', 'Sequence') and of_payload(ev.it, pay(s.R(E), V)):
                if full_iter(E, ev.it, pay(s.R(E), V)): return (n, pushed, True)
                if F: C.bad('eval:%s:order' % V, ev.where, 'the elements are not taken all and in order (%s)' % ', '.join(x[0] for x in ev.it.a[2]))
            return None
        if kind in ('collected', 'store') and (kind == 'collected' or name == 'Vec::push'):
            V = s.variant(E, st)
            v = ev.val if kind == 'collected' else (ev.val.a[3] if ev.val.op == 'upd' and len(ev.val.a) > 3 else None)
            if V in ('Sequence', 'Repetition') and v is not None:
                l = st.env.get(G('last'))
                mine = l is not None and all(strip(x) is pay(l, 'Some') for x in E.leaves(v))
                if F:
                    C.ob('match recorded', ev.where)
                    if not mine: C.bad('eval:%s:other' % V, ev.where, 'the tree records %s, not the match just made' % show(v, 4))
                    if pushed and mine: C.bad('eval:%s:again' % V, ev.where, 'the same match is recorded twice')
                return (n, True, exh) if mine else None
            return None
        if kind == 'return' and F: s.ret(ev, st, E)
        if kind in ('panic', 'assertfail') and F:
            if kind == 'assertfail' and 'verflow' in str(ev.msg): return None
            V = s.variant(E, st)
            C.bad('eval:panic', ev.where, 'matching a %s rule can panic' % V)
        return None

    def ret(s, ev, st, E):
        C = s.c
        V = s.variant(E, st)
        w = ev.where
        if V is None: C.bad('eval:ret', w, 'the matcher returns without having distinguished the kind of the rule'); return
        n, pushed, exh = st.auto
        pl = pay(s.R(E), V)
        lr = s.lastres(E, st)
        l = st.env.get(G('last'))
        pos = E.read(st, s.poskey())
        if not exh:
            for k, f in st.facts.items():      # index loop: i < len(payload) was false
                if k.op == 'bin' and k.a[0] == 'Lt' and k.a[2] is app('len', pl) and f == ('in', frozenset([False])): exh = True
                if k is app('len', pl) and f == ('in', frozenset([0])): exh = True
        for x in E.leaves(ev.val):
            C.ob('outcome of %s' % V, w)
            x = strip(x)
            if is_agg(x, 'None'):
                if V == 'Terminal' and lr is not False: C.bad('eval:Terminal:none', w, 'a terminal fails although no token was found different')
                if V == 'Choice' and not (exh and (n == 0 or lr == frozenset(['None']))): C.bad('eval:Choice:none', w, 'a choice fails although not every option failed')
                if V == 'Sequence' and lr != frozenset(['None']): C.bad('eval:Sequence:none', w, 'a sequence fails although no part failed')
                if V == 'Repetition': C.bad('eval:Repetition:none', w, 'a repetition fails')
                if V == 'Not' and lr != frozenset(['Some']): C.bad('eval:Not:none', w, 'a negation fails although its operand did not match')
                continue
            v = strip(pay(x, 'Some')) if is_agg(x, 'Some') else None
            if v is not None and v.op == 'phi':
                vs = [strip(y) for y in E.leaves(v)]
                v = vs[0] if len(vs) == 1 else v
            if v is None or v.op != 'agg' or v.a[0] != 'Cst':
                C.bad('eval:%s:value' % V, w, 'the outcome %s is not a tree node' % show(x, 4)); continue
            if v.a[1] != V: C.bad('eval:%s:node' % V, w, 'a %s rule yields a %s node' % (V, v.a[1])); continue
            fs = [y for _, y in v.a[2]]
            if V == 'Terminal':
                if not exh: C.bad('eval:Terminal:short', w, 'a terminal succeeds before all its tokens were compared')
                if n and lr is not True: C.bad('eval:Terminal:some', w, 'a terminal succeeds although its last token was not found equal')
                if strip(fs[0]) is not pl: C.bad('eval:Terminal:tree', w, 'the node of a terminal holds %s' % show(fs[0], 4))
                if not s.pos_ok(E, st, pos): C.bad('eval:Terminal:end', w, 'the position after a terminal is not the end of its last token')
            elif V == 'Choice':
                if lr != frozenset(['Some']): C.bad('eval:Choice:some', w, 'a choice succeeds although no option matched'); continue
                if not s.elem(E, fs[0], V) or not same(E, E.val(st, fs[0], 4), st.env.get(G('rule'))): C.bad('eval:Choice:name', w, 'the node names %s, not the option that matched' % show(fs[0], 4))
                if strip(fs[1]) is not pay(l, 'Some'): C.bad('eval:Choice:tree', w, 'the node holds %s, not the match of the option' % show(fs[1], 4))
                if not s.pos_ok(E, st, pos): C.bad('eval:Choice:end', w, 'the position after a choice is not the end of the option that matched')
            elif V == 'Sequence':
                if not exh: C.bad('eval:Sequence:short', w, 'a sequence succeeds before all its parts were evaluated')
                if n and lr != frozenset(['Some']): C.bad('eval:Sequence:some', w, 'a sequence succeeds although a part did not match')
                if n and not pushed: C.bad('eval:Sequence:lost', w, 'the match of the last part is not recorded in the tree')
                if not s.pos_ok(E, st, pos): C.bad('eval:Sequence:end', w, 'the position after a sequence is not the end of its last part')
                s.listok(E, fs[0], V, w)
            elif V == 'Repetition':
                if n == 0: C.bad('eval:Repetition:zero', w, 'a repetition ends without having tried its operand')
                b = st.env.get(G('before'))
                if lr == frozenset(['Some']):
                    if s.progressed(E, st) is not False: C.bad('eval:Repetition:early', w, 'a repetition ends although its operand still matched')
                elif lr == frozenset(['None']):
                    if pushed: pass
                else: C.bad('eval:Repetition:unknown', w, 'a repetition ends without having looked at the outcome of its operand')
                if lr == frozenset(['None']) and not (b is not None and (pos is b or (pos.op == 'phi' and b.op == 'phi' and set(E.leaves(pos)) == set(E.leaves(b))))):
                    C.bad('eval:Repetition:end', w, 'the position after a repetition is not the one before the iteration that failed')
                s.listok(E, fs[0], V, w)
            elif V == 'Not':
                if lr != frozenset(['None']): C.bad('eval:Not:some', w, 'a negation succeeds although its operand was not found to fail')
                if not same(E, pos, mk('fld', SELF, 'pos')): C.bad('eval:Not:end', w, 'a negation consumes tokens')
                if fs[0] is not pl and not all(y is pl for y in E.leaves(fs[0])): C.bad('eval:Not:name', w, 'the node names %s, not the operand' % show(fs[0], 4))

    def listok(s, E, v, V, w):
        for x in E.leaves(v):
            for y in subterms(x):
                if y.op == 'upd' and y.a[1] not in ('Vec::push', 'Vec::reserve', 'Vec::reserve_exact', 'Vec::shrink_to_fit', 'Vec::extend'):
                    s.c.bad('eval:%s:list' % V, w, 'the list of matches is changed by %s' % y.a[1])


class Consume(PRule):
    def __init__(s, c): s.c = c
    def init(s): return 0

    def partition(s, st, E):
        k = st.env.get(G('cmp'))
        return (E.tags(st), None if k is None else E.fact_bool(st, k))

    def event(s, kind, ev, st, E):
        C = s.c
        if kind == 'bin' and ev.op in ('Eq', 'Ne'):
            a, b = ev.a, ev.b
            tok, inp = mk('arg', 2), mk('fld', SELF, 'input')
            for x, y in ((a, b), (b, a)):
                if contains(x, tok) and contains(y, inp):
                    if E.final:
                        C.ob('token comparison', ev.where)
                        ix = [z.a[2] if z.op == 'app' else z.a[1] for z in subterms(y) if (z.op == 'app' and z.a[0] == 'get' or z.op == 'idx') and contains(z.a[1] if z.op == 'app' else z.a[0], inp)]
                        if not ix or any(not same(E, i, mk('fld', SELF, 'pos')) for i in ix): C.bad('consume:where', ev.where, 'the token compared is not the one at the current position: %s' % show(y, 5))
                    st.env[G('cmp')] = E.norm(mk('bin', 'Eq', a, b))[0]
            return None
        if kind == 'return' and E.final:
            for x in E.leaves(ev.val):
                C.ob('outcome of consume', ev.where)
                if E.fact_bool(st, x) is not None: s.outcome(ev, st, E, x); continue
                for b in (True, False):
                    s2 = st.copy()
                    if E.assume(s2, x, b):
                        C.ob('outcome of consume', '%s (%s)' % (ev.where, b))
                        s.outcome(ev, s2, E, x)
        if kind in ('panic', 'assertfail') and E.final and not (kind == 'assertfail' and 'verflow' in str(ev.msg)):
            if kind == 'panic' or not any(q.op == 'bin' and q.a[0] == 'Lt' and f == ('in', frozenset([True])) for q, f in st.facts.items()): C.bad('consume:panic', ev.where, 'reading the next token can panic at the end of the input')
        if kind == 'index' and E.final and contains(ev.base, mk('fld', SELF, 'input')):
            if not any(lsub(f, lsub(lin(app('len', ev.base)), lin(mk('bin', 'Add', ev.idx, ONE)))) == ({}, 0) for f in factlins(st)):
                C.bad('consume:index', ev.where, 'the input is indexed without having checked that the position is inside it')
        return None

    def outcome(s, ev, st, E, x):
        """one outcome of consume, on a path where it is known (or assumed) to be true or false"""
        C = s.c
        cmp_ = st.env.get(G('cmp'))
        k = E.fact_bool(st, cmp_) if cmp_ is not None else None
        pos0 = mk('fld', SELF, 'pos')
        pos = E.read(st, fl((('p', SELF), ()), 'pos'))
        b = E.fact_bool(st, x)
        if b is None: C.bad('consume:unknown', ev.where, 'the outcome does not follow from the comparison'); return
        for y in list(subterms(pos)):
            if y.op == 'cast' and E.fact_bool(st, y.a[0]) is not None: pos = subst(pos, y, const(int(E.fact_bool(st, y.a[0]))))
        if b:
            if k is not True: C.bad('consume:true', ev.where, 'a token is accepted although it was not found equal to the expected one')
            if not same(E, pos, mk('bin', 'Add', pos0, ONE)): C.bad('consume:advance', ev.where, 'the position after an accepted token is %s' % show(pos, 4))
            return
        if cmp_ is not None and k is not False: C.bad('consume:false', ev.where, 'a token is refused although it was not found different')
        if cmp_ is None and not any(q.op == 'var' and f == ('in', frozenset(['None'])) or q.op == 'bin' and contains(q, mk('fld', SELF, 'input')) for q, f in st.facts.items()):
            C.bad('consume:blind', ev.where, 'a token is refused without having been compared')
        if not same(E, pos, pos0): C.bad('consume:stay', ev.where, 'the position moves although the token was refused')


class Match(PRule):
    def __init__(s, c, F): s.c, s.F = c, F
    def init(s): return 0

    def partition(s, st, E):
        k = st.env.get(G('last'))
        return (E.tags(st), None if k is None else E.fact_var(st, k))

    def summary(s, E, st, c, fid):
        if c.stage is not None or fid not in (s.F.memoized_eval_rule, s.F.eval_rule): return None
        m = E.pointee(c.args[0])
        get = lambda n: E.read(st, fl(m, n))
        if E.final:
            C, w = s.c, c.where()
            C.ob('evaluation of the start rule', w)
            if st.auto: C.bad('match:twice', w, 'the start rule is evaluated twice')
            a = E.val(st, c.args[1], 4)
            if a is not const('start'): C.bad('match:start', w, 'matching begins with the rule %s' % show(a, 3))
            if get('pos') is not ZERO: C.bad('match:pos', w, 'matching begins at position %s' % show(get('pos'), 3))
            if not mentions(get('input'), 'buffer'): C.bad('match:input', w, 'the input matched is not the buffer of the parser')
            if not contains(get('rules'), mk('fld', SELF, 'rules')): C.bad('match:rules', w, 'the rules matched are not those of the parser')
            mt = get('memo_table')
            if mt.op == 'ref' and mt.a[0] != fl((('p', SELF), ()), 'memo_table') or mt.op != 'ref' and not contains(mt, mk('fld', SELF, 'memo_table')): C.bad('match:memo', w, 'the memo table used is not the one apply_edit maintains')
        r, p = mk('call', c.site, 'memo'), mk('call', c.site, 'pos')
        E.refresh(st, r); E.refresh(st, p)
        E.write(st, fl(m, 'pos'), p)
        st.env[G('last')] = r
        st.env[G('pos')] = p
        st.env[G('len')] = app('len', get('input'))
        st.auto = min(st.auto + 1, 2)
        return [E.finish(st, c, r)]

    def event(s, kind, ev, st, E):
        C = s.c
        if kind == 'return' and E.final:
            l, p, n = (st.env.get(G(x)) for x in ('last', 'pos', 'len'))
            for x in E.leaves(ev.val):
                C.ob('outcome of a match', ev.where)
                if l is None: C.bad('match:none', ev.where, 'a match is reported without evaluating the start rule'); continue
                whole = s.whole(E, st, p, n)
                if is_agg(x, 'Some'):
                    if strip(pay(x, 'Some')) is not pay(l, 'Some'): C.bad('match:tree', ev.where, 'the tree returned is %s, not the match of the start rule' % show(x, 4))
                    if whole is not True: C.bad('match:partial', ev.where, 'a match is reported that does not cover the whole input')
                elif is_agg(x, 'None'):
                    if E.fact_var(st, l) != frozenset(['None']) and whole is not False: C.bad('match:refused', ev.where, 'no match is reported although the start rule may have matched the whole input')
                else: C.bad('match:value', ev.where, 'the outcome %s cannot be resolved' % show(x, 4))
        return None

    def whole(s, E, st, p, n):
        def islen(t):
            return t is n or t.op == 'app' and t.a[0] == 'len' and mentions(t.a[1], 'buffer')
        for k, f in st.facts.items():
            if k.op == 'bin' and f[0] == 'in' and len(f[1]) == 1 and k.a[0] in ('Eq', 'Lt'):
                a, b = k.a[1], k.a[2]
                v = True in f[1]
                if k.a[0] == 'Eq' and (a is p and islen(b) or b is p and islen(a)): return v
                if k.a[0] == 'Lt' and a is p and islen(b): return not v       # the position never exceeds the length
                if k.a[0] == 'Lt' and b is p and islen(a) and v: return False
        return None


def semantics(c):
    c.rule('matching', 'per kind of rule, on every path of eval_rule: which sub-rule or token is tried, at which position, when matching goes on, what is recorded, and when it succeeds or fails')
    c.rule('consume', 'the token at the current position is compared; the position advances by one exactly when it was found equal')
    c.rule('whole input', 'a match is returned iff the start rule matched from 0 to the end of the buffer')
    P = c.program(UNITS)
    F = Facts(c, P)
    if not F.ok: return
    r = Eval(c, F)
    c.run_engine(P, r, F.eval_rule)
    for v in F.variants: c.floor('outcome of ' + v, 1 if v in ('Repetition',) else 2)
    c.run_engine(P, Consume(c), F.consume)
    c.run_engine(P, Match(c, F), F._match)
    for k, n in (('token comparison', 1), ('outcome of consume', 2), ('outcome of a match', 2), ('match recorded', 2)): c.floor(k, n)


# ---------------------------------------------------------------- grammar validation
class Grammar(PRule):
    """state: (rules still to visit: 'before' | 'visiting' | 'done', names of the current rule: 'none' | 'pulled' | 'asked' | 'all')"""
    def __init__(s, c, F): s.c, s.F = c, F; s.covered = set()
    def init(s): return ('before', 'none')

    def partition(s, st, E):
        cur = s.cur(st)
        ck, sk = st.env.get(G('ck')), st.env.get(G('start'))
        return (E.tags(st), None if cur is None else s.variants(E, st, cur), None if ck is None else E.fact_bool(st, ck), None if sk is None else E.fact_bool(st, sk))

    def cur(s, st):
        k = st.env.get(G('cur'))
        return mk('elem', *k.a) if k is not None else None

    def variants(s, E, st, cur):
        for r in (mk('fld', cur, '1'), cur):
            v = E.fact_var(st, r)
            if v: return v
        return None

    def payloads(s, cur, V):
        return [pay(r, V) for r in (mk('fld', cur, '1'), cur)]

    def names(s, E, st, cur, base):
        """the collection holds the names of the current rule"""
        if cur is None: return False
        vs = s.variants(E, st, cur) or frozenset(s.F.variants)
        for x in E.leaves(base):
            x = strip(x)
            good = any(x is p for V in vs for p in s.payloads(cur, V))
            if x.op == 'agg' and x.a[0] == 'array' and x.a[2] and all(any(strip(y) is p for V in vs for p in s.payloads(cur, V)) for _, y in x.a[2]): good = True
            if good: return True
        return False

    def validated(s, E, st, where):
        cur = s.cur(st)
        ck = st.env.get(G('ck'))
        vs = s.variants(E, st, cur) if cur is not None else None
        for V in sorted(vs or s.F.variants):
            tys = s.F.variants.get(V, [])
            if not any("&'static str" in t for t in tys): continue
            s.c.ob('names of a %s checked' % V, where)
            s.covered.add(V)
            if st.auto[1] == 'all': continue
            if st.auto[1] == 'asked' and not any('Vec' in t for t in tys) and ck is not None and E.fact_bool(st, ck) is True: continue
            if st.auto[1] == 'flat' and ck is not None and E.fact_bool(st, ck) is True: continue
            s.c.bad('grammar:' + V, where, 'a rule of kind %s is accepted without looking up %s' % (V, 'every name it refers to' if any('Vec' in t for t in tys) else 'the name it refers to'))

    def event(s, kind, ev, st, E):
        C, F = s.c, E.final
        outer, inner = st.auto
        name = getattr(ev, 'name', '')
        m = st.env.get(G('map'))
        if kind == 'call' and name == 'HashMap::contains_key' or kind == 'call' and name == 'HashMap::get':
            base, key = E.val(st, ev.args[0], 4), E.val(st, ev.args[1], 5)
            r = app('contains_key', base, E.val(st, ev.args[1])) if name.endswith('contains_key') else None
            if key is const('start'):
                st.env[G('map')] = base
                if r is not None: st.env[G('start')] = r
                else: st.env[G('start')] = mk('isvar', app('get', base, E.val(st, ev.args[1])), frozenset(['Some']), ('Some', 'None'))
                return None
            cur = s.cur(st)
            if cur is None: return None
            vs = s.variants(E, st, cur) or frozenset()
            direct = any(key is p for V in vs for p in s.payloads(cur, V))
            flat = key.op == 'elem' and key.a[1] == 'flat' and (s.names(E, st, cur, key.a[2]) or not any("&'static str" in t for V in vs for t in F_types(s.F, V)))
            el = key.op == 'elem' and s.names(E, st, cur, key.a[2]) or key.op == 'idx' and s.names(E, st, cur, key.a[0])
            if direct or flat or el:
                if F and m is not None and base is not m and not contains(base, m): C.bad('grammar:map', ev.where, 'names are looked up in %s, not in the rules of the grammar' % show(base, 3))
                st.env[G('ck')] = r if r is not None else mk('isvar', app('get', base, E.val(st, ev.args[1])), frozenset(['Some']), ('Some', 'None'))
                return (outer, 'flat' if flat else 'asked')
            return None
        if kind == 'next':
            it = ev.it
            cur = s.cur(st)
            if s.outer_it(it, m):
                if F and outer == 'visiting': s.validated(E, st, ev.where)
                if F and any(x[0] in REORDER - {'rev', 'flat_map', 'flatten'} for x in it.a[2]) : C.bad('grammar:skip', ev.where, 'not every rule of the grammar is validated (%s)' % ', '.join(x[0] for x in it.a[2]))
                st.env[G('cur')] = mk('curkey', ev.call.site, it.a[0], it.a[1])      # the element itself is made afterwards
                st.env.pop(G('ck'), None)
                return ('visiting', 'none')
            if s.names(E, st, cur, it.a[1]):
                ck = st.env.get(G('ck'))
                if F and any(x[0] in REORDER - {'rev', 'filter'} for x in it.a[2]): C.bad('grammar:skipname', ev.where, 'not every name a rule refers to is looked up (%s)' % ', '.join(x[0] for x in it.a[2]))
                if F and inner in ('pulled',) or F and inner == 'asked' and not (ck is not None and E.fact_bool(st, ck) is True):
                    C.bad('grammar:name', ev.where, 'a name that a rule refers to is passed over without having been found defined')
                return (outer, 'pulled')
            return None
        if kind == 'exhausted':
            if s.outer_it(ev.it, m): return ('done', inner)
            cur = s.cur(st)
            if s.names(E, st, cur, ev.it.a[1]) or cur is not None and outer == 'visiting' and self_empty(ev.it): return (outer, 'all')
            return None
        if kind == 'return' and F:
            for x in E.leaves(ev.val):
                if not is_agg(x, 'Ok'): continue
                C.ob('grammar accepted', ev.where)
                sk = st.env.get(G('start'))
                if sk is None or E.fact_bool(st, sk) is not True: C.bad('grammar:start', ev.where, 'a grammar is accepted without having found the rule "start"')
                if outer != 'done': C.bad('grammar:unchecked', ev.where, 'a grammar is accepted without having visited all its rules')
                if m is not None and not contains(x, m): C.bad('grammar:other', ev.where, 'the parser is built from other rules than those validated')
        return None

    def outer_it(s, it, m):
        if it.op != 'it': return False
        b = it.a[1]
        return it.a[0] in ('ref', 'values', 'val') and (m is not None and b is m or b is mk('arg', 1) or b.op == 'fld' and b.a[0] is mk('arg', 1))


def F_types(F, V): return F.variants.get(V, [])
def self_empty(it): return it.op == 'it' and it.a[1].op == 'agg' and it.a[1].a[0] == 'array' and not it.a[1].a[2]


def grammar(c):
    c.rule('grammar', 'from_rules returns Ok only on paths on which "start" was found and, for each kind of rule, every name it refers to was found defined')
    P = c.program(UNITS)
    F = Facts(c, P)
    if not F.ok: return
    r = Grammar(c, F)
    c.run_engine(P, r, F.from_rules)
    c.floor('grammar accepted', 1)
    for V, tys in F.variants.items():
        if any("&'static str" in t for t in tys): c.floor('names of a %s checked' % V, 1)


# ---------------------------------------------------------------- memo discipline
MT = mk('fld', SELF, 'memo_table')
POS0, MAX0 = mk('fld', SELF, 'pos'), mk('fld', SELF, 'max_examined_pos')
SELFLOC = (('p', SELF), ())


def final_of(E, st, n): return E.read(st, fl(SELFLOC, n))


class Use(PRule):
    """a memoised result is reused only from the entry of this position and rule, with its length and its examined span"""
    def __init__(s, c): s.c = c

    def event(s, kind, ev, st, E):
        C = s.c
        if kind != 'return' or not E.final: return None
        pos, mx = final_of(E, st, 'pos'), final_of(E, st, 'max_examined_pos')
        for x in E.leaves(ev.val):
            C.ob('lookup of a memoised result', ev.where)
            if is_agg(x, 'None') or E.fact_var(st, x) == frozenset(['None']):
                if not same(E, pos, POS0): C.bad('use:none:pos', ev.where, 'the position moves although no memoised match is used')
                continue
            v = strip(pay(x, 'Some'))
            m = v.a[0] if v.op == 'fld' and v.a[1] == 'cst' else None
            em = m.a[0].a[0] if m is not None and m.op == 'fld' and m.a[0].op == 'as' else None
            en = em.a[0] if em is not None and em.op == 'fld' and em.a[1] == 'existing_match' else None
            good = en is not None and en.op == 'idx' and en.a[1] is mk('arg', 2) and en.a[0].op == 'fld' and en.a[0].a[1] == 'memo' and en.a[0].a[0].op == 'idx'
            if not good: C.bad('use:value', ev.where, 'the result reused is %s, not the tree memoised for this rule' % show(v, 6)); continue
            col = en.a[0].a[0]
            if not same(E, col.a[1], POS0): C.bad('use:column', ev.where, 'the result reused was memoised at position %s' % show(col.a[1], 4))
            if not contains(col.a[0], MT): C.bad('use:table', ev.where, 'the result reused does not come from the memo table')
            if not same(E, pos, mk('bin', 'Add', POS0, mk('fld', m, 'match_length'))): C.bad('use:length', ev.where, 'the position after a reused match is %s' % show(pos, 5))
            if not geq(E, st, mx, mk('bin', 'Sub', mk('bin', 'Add', POS0, mk('fld', en, 'examined_length')), ONE)):
                C.bad('use:examined', ev.where, 'the tokens a reused result depends on are not counted as examined (%s): results built on it outlive an edit of them' % show(mx, 6))
            if not geq(E, st, mx, MAX0): C.bad('use:forget', ev.where, 'reusing a result forgets tokens examined before')
        return None


class ConsumeMax(PRule):
    def __init__(s, c): s.c = c

    def partition(s, st, E):
        mx = final_of(E, st, 'max_examined_pos')
        return (E.tags(st), None if mx.op == 'phi' else mx, geq(E, st, mx, POS0), geq(E, st, mx, MAX0))
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            s.c.ob('examined tokens after consume', ev.where)
            mx = final_of(E, st, 'max_examined_pos')
            if not geq(E, st, mx, POS0): s.c.bad('consume:examined', ev.where, 'a token is read without being counted as examined (%s): results that depend on it outlive an edit of it' % show(mx, 5))
            if not geq(E, st, mx, MAX0): s.c.bad('consume:forget', ev.where, 'reading a token forgets tokens examined before')
        return None


class EvalMax(Eval):
    """eval_rule decides on the input only through consume and the memoised evaluation, and forgets nothing they examined"""
    def check_call(s, E, st, c, kind, a, pos):
        if E.final:
            s.c.ob('examined tokens between two evaluations', c.where())
            s.kept(E, st, c.where())
    def kept(s, E, st, w):
        mx, want = E.read(st, fl(SELFLOC, 'max_examined_pos')), st.env.get(G('mxe'), MAX0)
        if not geq(E, st, mx, want): s.c.bad('eval:forget', w, 'tokens examined by a part of a rule are forgotten (%s): results that depend on them outlive an edit of them' % show(mx, 4))
    def summary(s, E, st, c, fid):
        r = Eval.summary(s, E, st, c, fid)
        if r is not None: st.env[G('mxe')] = E.read(st, fl(SELFLOC, 'max_examined_pos'))
        return r
    def event(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        s.c.ob('examined tokens after evaluation', ev.where)
        s.kept(E, st, ev.where)
        inp = mk('fld', SELF, 'input')
        mx = E.read(st, fl(SELFLOC, 'max_examined_pos'))
        for k, f in st.facts.items():
            if not contains(k, inp): continue
            need = [x.a[2] if x.op == 'app' else x.a[1] for x in subterms(k) if (x.op == 'app' and x.a[0] == 'get' or x.op == 'idx') and contains(x.a[1] if x.op == 'app' else x.a[0], inp)]
            if not need and k.op == 'bin' and k.a[0] in ('Lt', 'Eq'): need = [x for x in k.a[1:3] if not contains(x, inp)]
            if not need or not all(geq(E, st, mx, x) for x in need):
                s.c.bad('eval:look', ev.where, 'the outcome of a rule depends on the input (%s) without the tokens looked at being counted as examined: results that depend on it outlive an edit there' % show(k, 5)); break
        return None


class Memoise(PRule):
    """what memoize_result stores, and where"""
    def __init__(s, c): s.c = c
    def init(s): return 0
    def partition(s, st, E): return (E.tags(st), E.fact_var(st, mk('arg', 4)))

    def event(s, kind, ev, st, E):
        C = s.c
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'HashMap::insert':
            loc = E.pointee(ev.args[0])
            if loc[1] and loc[1][-1] == ('f', 'memo') or mentions(ev.args[0], 'memo'):
                if E.final: s.stored(E, st, ev, loc)
                st.env[G('ex')] = s.field(E, st, E.val(st, ev.args[2]), 'examined_length')
                st.env[G('col')] = ref((loc[0], loc[1][:-1])) if loc[1] else UNIT
                return min(st.auto + 1, 2)
        if kind == 'return' and E.final:
            C.ob('result memoised', ev.where)
            if st.auto != 1: C.bad('memo:times', ev.where, 'an evaluated rule is memoised %d times' % st.auto); return None
            ex, col = st.env.get(G('ex')), st.env.get(G('col'))
            if ex is None or col.op != 'ref': return None
            now = E.read(st, fl(col.a[0], 'max_examined_length'))
            old = project(path_of(E.init_value(col.a[0][0]), col.a[0][1]), ('f', 'max_examined_length')) if col.a[0][0][0] == 'p' else None
            if not geq(E, st, now, ex): C.bad('memo:colmax', ev.where, 'the maximum of the column (%s) can be smaller than the examined length of the entry (%s): an edit will skip the column' % (show(now, 5), show(ex, 5)))
            if not s.keeps(E, st, now): C.bad('memo:colold', ev.where, 'the maximum of the column forgets its older entries (%s)' % show(now, 5))
        return None

    def keeps(s, E, st, now):
        if now.op == 'fld' and now.a[1] == 'max_examined_length': return True
        if now.op == 'app' and now.a[0] == 'max' and any(s.keeps(E, st, x) for x in now.a[1:]): return True
        for k, f in st.facts.items():
            if k.op == 'bin' and k.a[0] == 'Lt':
                for x in (k.a[1], k.a[2]):
                    y = x
                    while y.op == 'cast': y = y.a[0]
                    if y.op == 'fld' and y.a[1] == 'max_examined_length' and geq(E, st, now, x): return True
        if now.op == 'phi': return all(s.keeps(E, st, x) for x in E.leaves(now))
        return False

    def field(s, E, st, v, n):
        for x in E.leaves(v):
            return project(strip(x), ('f', n))

    def stored(s, E, st, ev, loc):
        C, w = s.c, ev.where
        C.ob('memo entry', w)
        pos, rule, cst = mk('arg', 2), mk('arg', 3), mk('arg', 4)
        key = E.val(st, ev.args[1], 4)
        if key is not rule: C.bad('memo:rule', w, 'the result is memoised under %s, not under the rule evaluated' % show(key, 4))
        ix = [x[1] for x in loc[1] if x[0] == 'i']
        for t in ([loc[0][1]] if loc[0][0] == 'p' else []): ix += [x.a[1] for x in subterms(t) if x.op == 'idx']
        if not ix or not any(same(E, i, pos) for i in ix): C.bad('memo:column', w, 'the result is memoised in another column than the position the rule was evaluated at')
        v = E.val(st, ev.args[2])
        for x in E.leaves(v):
            x = strip(x)
            if not (x.op == 'agg' and 'existing_match' in dict(x.a[2])): C.bad('memo:entry', w, 'the entry %s cannot be resolved' % show(x, 4)); continue
            f = dict(x.a[2])
            need = mk('bin', 'Add', mk('bin', 'Sub', MAX0, pos), ONE)
            if not geq(E, st, f['examined_length'], need):
                C.bad('memo:examined', w, 'the examined length of the entry is %s, which can be less than the tokens examined' % show(f['examined_length'], 6))
            for e in E.leaves(f['existing_match']):
                if is_agg(e, 'None'):
                    if E.fact_var(st, cst) != frozenset(['None']): C.bad('memo:drop', w, 'a match may be memoised as a failure')
                    continue
                p = strip(pay(e, 'Some')) if is_agg(e, 'Some') else None
                if p is None or p.op != 'agg': C.bad('memo:match', w, 'the memoised match %s cannot be resolved' % show(e, 4)); continue
                g = dict(p.a[2])
                if E.fact_var(st, cst) != frozenset(['Some']): C.bad('memo:invent', w, 'a failure may be memoised as a match')
                if strip(g['cst']) is not pay(cst, 'Some'): C.bad('memo:cst', w, 'the tree memoised is %s, not the one of this evaluation' % show(g['cst'], 4))
                if not same(E, g['match_length'], mk('bin', 'Sub', POS0, pos)): C.bad('memo:length', w, 'the match length memoised is %s, not the distance from the start of the rule' % show(g['match_length'], 5))


class Memoized(PRule):
    """state: (looked up, evaluated, memoised)"""
    def __init__(s, c, F): s.c, s.F = c, F
    def init(s): return (0, 0, 0)

    def partition(s, st, E):
        u, x = st.env.get(G('use')), st.env.get(G('mx'))
        mx = E.read(st, fl(SELFLOC, 'max_examined_pos')) if x is not None else None
        how = mx if mx in (MAX0, x) else (geq(E, st, mx, MAX0), geq(E, st, mx, x)) if mx is not None else None
        return (E.tags(st), None if u is None else E.fact_var(st, u), how)

    def atleast(s, st, v):
        while v.op == 'cast': v = v.a[0]
        if v.op == 'call' and v.a[1] == 'max': return st.env.get(G('ge' + v.a[0]))
        return None

    def summary(s, E, st, c, fid):
        F, C = s.F, s.c
        if c.stage is not None or fid not in (F.use_memoized_result, F.eval_rule, F.memoize_result): return None
        m = E.pointee(c.args[0])
        w, fin = c.where(), E.final
        if fin and m != SELFLOC: C.bad('memo:self', w, 'another matcher is used')
        used, evald, memod = st.auto
        get = lambda n: E.read(st, fl(m, n))
        arg2 = mk('arg', 2)
        if fid == F.memoize_result:
            if fin:
                C.ob('memoise after evaluation', w)
                p, r, v = (E.val(st, a, 4) for a in c.args[1:4])
                if not evald: C.bad('memo:before', w, 'a result is memoised before the rule was evaluated')
                if not same(E, p, st.env.get(G('at'), UNIT)): C.bad('memo:at', w, 'the result is memoised at %s, not at the position the evaluation started from' % show(p, 4))
                if r is not arg2: C.bad('memo:as', w, 'the result is memoised for the rule %s' % show(r, 4))
                e = st.env.get(G('eval'))
                if not all(x is e for x in E.leaves(v)): C.bad('memo:what', w, 'what is memoised is %s, not the outcome of the evaluation' % show(v, 4))
                if e is not None and not same(E, get('pos'), st.env.get(G('after'))): C.bad('memo:moved', w, 'the position was moved between the evaluation and memoising it')
                if e is not None and not geq(E, st, get('max_examined_pos'), st.env.get(G('mx'))): C.bad('memo:span', w, 'tokens examined by the evaluation are forgotten before it is memoised')
            st.auto = (used, evald, min(memod + 1, 2))
            return [E.finish(st, c, UNIT)]
        kind = 'use' if fid == F.use_memoized_result else 'eval'
        if fin:
            C.ob('%s of a rule' % ('lookup' if kind == 'use' else 'evaluation'), w)
            a = E.val(st, c.args[1], 4)
            if a is not arg2: C.bad('memo:%s:rule' % kind, w, 'the rule %s is used instead of the one asked for' % show(a, 4))
            if not same(E, get('pos'), POS0): C.bad('memo:%s:pos' % kind, w, 'it happens at another position than the one asked for (%s)' % show(get('pos'), 4))
            if kind == 'eval':
                if evald: C.bad('memo:eval:twice', w, 'a rule is evaluated twice')
        if kind == 'eval' and fin and used:
            u = st.env.get(G('use'))
            if u is not None and E.fact_var(st, u) != frozenset(['None']): C.bad('memo:eval:again', w, 'the rule is evaluated although a memoised match may have been used')
        r, p, x = mk('call', c.site, kind), mk('call', c.site, 'pos'), mk('call', c.site, 'max')
        st.env[G('at')] = get('pos')
        om = get('max_examined_pos')
        for t in (r, p, x): E.refresh(st, t)
        st.env[G('ge' + c.site)] = om
        out = []
        if kind == 'use':
            st.env[G('use')] = r
            for v in ('Some', 'None'):
                s2 = st.copy()
                if not E.assume_var(s2, r, frozenset([v]), True, ('Some', 'None')): continue
                if v == 'Some': E.write(s2, fl(m, 'pos'), p)
                E.write(s2, fl(m, 'max_examined_pos'), x)
                s2.env[G('after')] = E.read(s2, fl(m, 'pos'))
                s2.auto = (min(used + 1, 2), evald, memod)
                out.append(E.finish(s2, c, r))
            return out
        E.write(st, fl(m, 'pos'), p); E.write(st, fl(m, 'max_examined_pos'), x)
        st.env[G('eval')], st.env[G('after')], st.env[G('mx')] = r, p, x
        st.auto = (used, min(evald + 1, 2), memod)
        return [E.finish(st, c, r)]

    def event(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        C, w = s.c, ev.where
        used, evald, memod = st.auto
        u, e = st.env.get(G('use')), st.env.get(G('eval'))
        pos, mx = final_of(E, st, 'pos'), final_of(E, st, 'max_examined_pos')
        C.ob('outcome of a memoised evaluation', w)
        if not geq(E, st, mx, MAX0): C.bad('memo:forget', w, 'tokens examined before the rule are forgotten (%s): the enclosing rule is not invalidated by an edit of them' % show(mx, 5))
        if evald:
            if memod != 1: C.bad('memo:lost', w, 'an evaluated rule is memoised %d times' % memod)
            if not all(x is e or is_agg(x, 'None') and E.fact_var(st, e) == frozenset(['None']) or is_agg(x, 'Some') and pay(x, 'Some') is pay(e, 'Some') for x in E.leaves(ev.val)): C.bad('memo:return', w, 'the outcome returned is %s, not that of the evaluation' % show(ev.val, 4))
            if not geq(E, st, mx, st.env.get(G('mx'))): C.bad('memo:inner', w, 'tokens examined by the rule are forgotten (%s): the enclosing rule is not invalidated by an edit of them' % show(mx, 5))
        else:
            if u is None: C.bad('memo:nothing', w, 'the rule is neither looked up nor evaluated'); return None
            if E.fact_var(st, u) != frozenset(['Some']): C.bad('memo:skip', w, 'the rule is not evaluated although no memoised match was found')
            if not all(x is u or is_agg(x, 'Some') and pay(x, 'Some') is pay(u, 'Some') for x in E.leaves(ev.val)): C.bad('memo:hit', w, 'the outcome returned is %s, not the memoised one' % show(ev.val, 4))
        if not same(E, pos, st.env.get(G('after'), POS0)): C.bad('memo:end', w, 'the position after the rule is %s' % show(pos, 4))


class ApplyEdit(PRule):
    """state: (buffer edited, columns replaced, column: none|pulled|clean, entry: none|entry|listed, removal: none|pulled|removed, positions all visited, memo dropped)"""
    def __init__(s, c, F): s.c, s.F = c, F; s.maxvars = set()
    def init(s): return (0, 0, 'none', 'none', 'none', False, False)
    MTLOC = fl(SELFLOC, 'memo_table')

    def partition(s, st, E):
        buf, cols, col, ent, rem, alld, drop = st.auto
        return (E.tags(st), s.kept_any(st, E) if ent in ('entry', 'listed') else None, tuple(s.covered(st, E, v) for v in sorted(s.maxvars, key=repr)) if ent == 'entry' else None, s.skip_ok(st, E) if col == 'pulled' else None)

    def range_(s): return mk('arg', 2)
    def rs(s, n): return mk('fld', s.range_(), n)

    def colpath(s, t):
        """the column a location or value belongs to: index term"""
        for x in subterms(t):
            if x.op == 'ref':
                root, path = x.a[0]
                if root == SELFLOC[0] and len(path) >= 2 and path[0] == ('f', 'memo_table') and path[1][0] == 'i': return path[1][1]
            if x.op == 'idx' and s.is_mt(x.a[0]): return x.a[1]
            if x.op == 'elem' and s.is_mt(x.a[2]): return x
        return None

    def is_mt(s, t, seen=()):
        if t in seen: return False
        if t.op == 'fld' and t.a[1] == 'memo_table': return True
        if t.op == 'upd': return s.is_mt(t.a[2], seen + (t,))
        if t.op in ('with', 'prev'): return s.is_mt(t.a[0], seen + (t,))
        if t.op == 'phi': return any(s.is_mt(x, seen + (t,)) for x in s.E.alts.get(t, ()))
        return False

    def positions(s, st, E):
        out = set()
        for k in st.facts:
            for x in subterms(k):
                if x.op in ('elem', 'nth', 'ix'): out.add(x)
        for v in st.env.values():
            if v.op in ('elem', 'nth', 'ix'): out.add(v)
        return out

    def entries(s, st):
        """the terms that denote the entry at hand"""
        k = st.env.get(G('entry'))
        if k is None: return []
        if k.op == 'entkey':
            el = mk('elem', *k.a)
            return [mk('fld', el, '1'), el, mk('idx', k.a[2], mk('ix', k.a[0], 0))]
        return [k]

    def event(s, kind, ev, st, E):
        s.E = E
        C, F = s.c, E.final
        buf, cols, col, ent, rem, alld, drop = st.auto
        name = getattr(ev, 'name', '')
        w = ev.where
        if kind == 'call' and name == 'Vec::splice':
            tgt = ev.args[0]
            t = E.val(st, tgt)
            rng = E.val(st, ev.args[1])
            it = ev.args[2]
            it = E.val(st, it)
            tl = E.pointee(tgt)
            if tl == s.MTLOC or s.is_mt(t):
                if F:
                    C.ob('columns replaced', w)
                    r2 = s.same_range(E, rng)
                    if not r2: C.bad('edit:cols', w, 'the columns replaced are %s, not those of the edited range' % show(rng, 4))
                    n = s.count(it)
                    if n is None or n is not app('len', mk('arg', 3)): C.bad('edit:count', w, 'the number of new columns is not the number of new tokens: entries after the edit belong to other positions')
                    if not s.default_cols(it): C.bad('edit:stale', w, 'the new columns are not empty')
                    if r2 != 'clipped' and not s.long_enough(E, st, t): C.bad('edit:short', w, 'the memo table may have fewer columns than the edited range: replacing them panics')
                return (buf, min(cols + 1, 2), col, ent, rem, alld, drop)
            if mentions(t, 'buffer') or mentions(tgt, 'buffer'):
                if F:
                    C.ob('buffer edited', w)
                    if s.same_range(E, rng) is not True: C.bad('edit:range', w, 'the tokens replaced are %s, not the given range' % show(rng, 4))
                    if not (it.op == 'it' and it.a[1] is mk('arg', 3) and not it.a[2] or it is mk('arg', 3)): C.bad('edit:tokens', w, 'the new tokens are %s, not the given ones' % show(it, 4))
                return (min(buf + 1, 2), cols, col, ent, rem, alld, drop)
            return None
        if kind == 'call' and name in ('Vec::clear', 'Vec::truncate') and (E.pointee(ev.args[0]) == s.MTLOC):
            n = ZERO if name == 'Vec::clear' else E.val(st, ev.args[1])
            if n is ZERO: return (buf, 1, col, ent, rem, True, True)
            if n is s.rs('start'): return (buf, 1, col, ent, rem, alld, drop)
            return None
        if kind == 'call' and name in ('HashMap::clear',) and s.colpath(ev.args[0]) is not None: return (buf, cols, 'clean', ent, 'cleared', alld, drop)
        if kind == 'store':
            if ev.loc == s.MTLOC and ev.val.op in ('call', 'app') and not s.is_mt(ev.val): return (buf, 1, col, ent, rem, True, True)
            if ev.loc[1] and ev.loc[1][-1] == ('f', 'max_examined_length'): s.newmax(ev, st, E)
            if name == 'Vec::push' and ev.val.op == 'upd' and len(ev.val.a) > 3:
                x = ev.val.a[3]
                if s.is_key(st, E, x): return (buf, cols, col, 'listed', rem, alld, drop)
            return None
        if kind == 'collected' and s.is_key(st, E, ev.val): return (buf, cols, col, 'listed', rem, alld, drop)
        if kind == 'next':
            it = ev.it
            p = s.outer(E, it)
            if p is not None:
                if F and col == 'pulled': s.skipped(ev, st, E)
                if F: s.outer_ok(ev, it, p, st, E)
                st.env[G('colix')] = mk('ixkey', p, ev.call.site, it.a[0], UNIT if p == 'mut' else it.a[1])
                return (buf, cols, 'pulled', 'none', 'none', alld, drop)
            if s.inner(it):
                if F and not s.retaining(ev): s.entry_done(ev, st, E, ent)
                st.env[G('entry')] = mk('entkey', ev.call.site, it.a[0], it.a[1])
                return (buf, cols, col, 'entry', rem, alld, drop)
            if s.removal(it, st, E):
                if F and rem == 'pulled': C.bad('edit:removal', w, 'an entry found to overlap the edit is not removed')
                st.env[G('key')] = mk('keykey', ev.call.site, it.a[0], it.a[1])
                if F and any(x[0] in REORDER - {'rev'} for x in it.a[2]): C.bad('edit:removal', w, 'not every entry found to overlap the edit is removed')
                return (buf, cols, col, ent, 'pulled', alld, drop)
            return None
        if kind == 'exhausted':
            it = ev.it
            if s.outer(E, it) is not None: return (buf, cols, 'none', 'none', 'none', True, drop)
            if s.retaining(ev): return (buf, cols, 'clean', 'none', 'none', alld, drop)
            if s.inner(it): return (buf, cols, col, 'none', rem if col == 'clean' else 'scanned', alld, drop)
            if s.removal(it, st, E): return (buf, cols, 'clean', 'none', 'none', alld, drop)
            return None
        if kind == 'retain' and s.colpath(ref(ev.loc)) is not None or kind == 'retain' and ev.loc[1] and ev.loc[1][-1] == ('f', 'memo'):
            return (buf, cols, 'clean', 'none', 'retained', alld, drop)
        if kind == 'retained' and s.retaining(ev):
            if F:
                C.ob('memo entry examined by an edit', w)
                if ev.keep:
                    ix = mk('ix', ev.call.site, 0)
                    vals = [mk('idx', v, ix) for v in [E.read(st, ev.loc)]] + [x.a[0] for k in st.facts for x in subterms(k) if x.op == 'fld' and x.a[1] == 'examined_length']
                    if not any(s.beyond(st, E, mk('fld', v, 'examined_length')) for v in vals): C.bad('edit:kept', w, 'an entry is kept although it may have examined tokens of the edited range')
            return None
        if kind == 'call' and name == 'HashMap::remove' and (mentions(ev.args[0], 'memo') or mentions(E.val(st, ev.args[0]), 'memo')):
            k = E.val(st, ev.args[1], 4)
            kk = st.env.get(G('key'))
            if kk is not None and s.pulled_key(E, k, kk): return (buf, cols, col, ent, 'removed' if rem == 'pulled' else rem, alld, drop)
            if s.is_key(st, E, k): return (buf, cols, col, 'listed', rem, alld, drop)
            return None
        if kind == 'return' and F:
            C.ob('outcome of an edit', w)
            if buf != 1: C.bad('edit:buffer', w, 'the tokens are replaced %d times' % buf)
            if cols != 1: C.bad('edit:columns', w, 'the columns of the edited range are replaced %d times' % cols)
            if not alld and not drop and not s.past_end(st, E): C.bad('edit:unvisited', w, 'an edit ends without having looked at every column before the edited range')
        return None

    def past_end(s, st, E):
        c = s.col_ix(st)
        for k, f in st.facts.items():
            if k.op == 'var' and f == ('in', frozenset(['None'])) and k.a[0].op == 'app' and k.a[0].a[0] == 'get' and s.is_mt(k.a[0].a[1]) and k.a[0].a[2] in c: return True
        return False

    def colkeys(s, st):
        k = st.env.get(G('colix'))
        return [] if k is None else [x for x in s.E.leaves(k) if x.op == 'ixkey']

    def col_ix(s, st):
        ks = s.colkeys(st)
        return {s.ixterm(k) for k in ks}

    def ixterm(s, k):
        kind, site, ik, base = k.a
        return mk('elem', site, ik, base) if kind in ('range', 'ref') else mk('ix', site, 0)

    def outer(s, E, it):
        """iteration over the positions before the edit: by index, or over the columns themselves"""
        if it.op != 'it': return None
        b = it.a[1]
        if it.a[0] == 'range' and b.op == 'agg' and b.a[0] in ('Range', 'RangeInclusive', 'RangeFrom'): return 'range'
        if it.a[0] == 'mut' and b.op == 'ref' and s.is_mtref(E, b): return 'mut'
        return None

    def is_mtref(s, E, b):
        root, path = b.a[0]
        return root == SELFLOC[0] and path[:1] == (('f', 'memo_table'),) and not any(x == ('f', 'memo') for x in path)

    def outer_ok(s, ev, it, p, st, E):
        C, w = s.c, ev.where
        C.ob('columns visited by an edit', w)
        b = it.a[1]
        st_ = s.rs('start')
        bad = None
        if p == 'range':
            f = dict(b.a[2])
            if f['start'] is not ZERO: bad = 'it starts at %s' % show(f['start'], 3)
            e = f.get('end')
            if e is None: bad = 'it has no end'
            elif not (same(E, e, st_) or e.op == 'app' and e.a[0] == 'len' or e.op == 'app' and e.a[0] == 'min' and all(x is st_ or x.op == 'app' and x.a[0] == 'len' for x in e.a[1:]) or geq(E, st, e, st_)): bad = 'it ends at %s' % show(e, 3)
        for x in it.a[2]:
            if x[0] in ('enumerate', 'rev'): continue
            if x[0] == 'take' and (x[1] is st_ or E.val(st, x[1]) is st_): continue
            if x[0] in REORDER: bad = 'it goes through %s' % x[0]
        if p == 'mut' and b.a[0][1][1:] and b.a[0][1][1][0] == 'i':
            r = b.a[0][1][1][1]
            f = dict(r.a[2]) if r.op == 'agg' else {}
            if not (r.op == 'agg' and (f.get('end') is st_ or f.get('end') is not None and f['end'].op == 'app' and f['end'].a[0] == 'min') and f.get('start', ZERO) is ZERO): bad = 'only %s is visited' % show(r, 3)
        if bad: C.bad('edit:positions', w, 'not every column before the edited range is looked at: ' + bad)

    def inner(s, it):
        if it.op != 'it': return False
        b = it.a[1]
        if it.a[0] == 'mut' and b.op == 'ref': return b.a[0][1][-1:] == (('f', 'memo'),)
        return b.op == 'fld' and b.a[1] == 'memo' or b.op in ('upd', 'with', 'phi') and mentions(b, 'memo') and not s.is_mt(b) and it.a[0] in ('ref', 'values', 'keys', 'val')

    def removal(s, it, st, E):
        if it.op != 'it' or it.a[0] not in ('val', 'ref', 'drain'): return False
        return any(x.op == 'upd' and x.a[1] == 'Vec::push' or x.op == 'coll' and s.inner(x.a[1]) or x.op == 'call' and x.a[1] in ('Vec::new', 'Vec::with_capacity') for x in E.leaves(it.a[1])) and not s.is_mt(it.a[1])

    def retaining(s, ev): return getattr(getattr(ev, 'call', None), 'name', None) in ('HashMap::retain', 'BTreeMap::retain')

    def pulled_key(s, E, k, kk):
        sites = {x.a[0] for x in E.leaves(kk) if x.op == 'keykey'}
        ls = list(E.leaves(k))
        return bool(ls) and all(x.op == 'elem' and x.a[0] in sites for x in ls)

    def is_key(s, st, E, x):
        k = st.env.get(G('entry'))
        if k is None: return False
        els = [mk('elem', *z.a) for z in E.leaves(k)]
        return all(y is mk('fld', el, '0') or y is el for y in E.leaves(E.val(st, x, 3)) for el in els[:1]) or all(any(y is mk('fld', el, '0') or y is el for el in els) for y in E.leaves(E.val(st, x, 3)))

    def entry_done(s, ev, st, E, ent):
        if ent != 'entry': return
        C, w = s.c, ev.where
        C.ob('memo entry examined by an edit', w)
        if st.auto[2] != 'clean' and not s.kept_any(st, E): C.bad('edit:kept', w, 'an entry is kept although it may have examined tokens of the edited range'); return
        # the new maximum of the column covers every kept entry
        for v in s.maxvars:
            if not s.covered(st, E, v):
                C.bad('edit:newmax', w, 'the new maximum of the column does not cover an entry that is kept: the next edit will skip it')

    def covered(s, st, E, v):
        """how the running maximum at v is known to cover the entry at hand"""
        now = E.read(st, v) if v[0] != 'x' else None
        if now is None or now is UNINIT: return 'unset'
        for x in s.entries(st):
            l = mk('fld', x, 'examined_length')
            if now is l: return 'set'
            if geq(E, st, now, l): return 'above'
        return None

    def kept_any(s, st, E): return any(s.beyond(st, E, mk('fld', x, 'examined_length')) for x in s.entries(st))

    def beyond(s, st, E, length):
        ks = s.colkeys(st)
        cand = {s.ixterm(k) for k in ks} | {x for x in s.positions(st, E) if x.op == 'nth' and any(x.a[0] == k.a[1] for k in ks)}
        for P in cand:
            d = lsub(lin(s.rs('start')), lin(mk('bin', 'Add', P, length)))
            for f in factlins(st):
                e = lsub(d, f)
                if not e[0] and e[1] >= 0: return True
        return False

    def skipped(s, ev, st, E):
        """a column that was not cleaned: nothing in it reaches the edited range, or it does not exist"""
        s.c.ob('column left alone by an edit', ev.where)
        if not s.skip_ok(st, E): s.c.bad('edit:skipped', ev.where, 'a column is left alone although entries in it may have examined tokens of the edited range')

    def skip_ok(s, st, E):
        c = s.col_ix(st)
        for k, f in st.facts.items():
            if k.op == 'var' and f == ('in', frozenset(['None'])) and k.a[0].op == 'app' and k.a[0].a[0] == 'get' and k.a[0].a[2] in c: return 'none'
            if k.op == 'bin' and k.a[0] == 'Lt' and k.a[2].op == 'app' and k.a[2].a[0] == 'len' and k.a[1] in c and f == ('in', frozenset([False])): return 'none'
        for k in st.facts:
            for x in subterms(k):
                if x.op == 'fld' and x.a[1] == 'max_examined_length' and s.beyond(st, E, x): return 'below'
        return None

    def newmax(s, ev, st, E):
        v = ev.val
        while v.op == 'cast': v = v.a[0]
        if v.op == 'phi' and isinstance(v.a[0], tuple) and len(v.a[0]) == 2 and isinstance(v.a[0][1], tuple) and len(v.a[0][1]) == 2: s.maxvars.add(v.a[0][1])
        if not E.final: return
        C, w = s.c, ev.where
        C.ob('new maximum of a column', w)
        if v.op in ('const', 'un', 'lit'):
            if st.auto[4] != 'cleared' and not s.maxvars: C.bad('edit:newmax', w, 'the maximum of the column is set to %s although entries may remain' % show(v, 3))
            return
        for x in E.leaves(v):
            while x.op == 'cast': x = x.a[0]
            g = next((y for y in subterms(x) if y.op == 'app' and y.a[0] == 'get' and y.a[1].op == 'coll' and y.a[1].a[0] == 'x'), None)
            if g is None: continue
            it = g.a[1].a[1]
            if g.a[2].a[0] != 'max': C.bad('edit:newmax', w, 'the new maximum of the column is the %s of its entries' % g.a[2].a[0])
            elif not s.inner(it) and not s.colpath(it.a[1]): C.bad('edit:newmax', w, 'the new maximum of the column is taken over %s' % show(it, 4))
            elif any(z[0] in REORDER - {'rev'} for z in it.a[2]): C.bad('edit:newmax', w, 'the new maximum of the column is not taken over all its entries')
            elif not all(z.op == 'fld' and z.a[1] == 'examined_length' for z in E.leaves(strip_(E, st, g.a[1].a[2]))): C.bad('edit:newmax', w, 'the new maximum of the column is taken over %s, not what the entries examined' % show(g.a[1].a[2], 4))

    def same_range(s, E, rng):
        if rng is s.range_(): return True
        f = dict(rng.a[2]) if rng.op == 'agg' and rng.a[0] == 'Range' else None
        if f is None: return None
        a, b = f['start'], f['end']
        if a is s.rs('start') and b is s.rs('end'): return True
        cl = lambda t, n: t is s.rs(n) or t.op == 'app' and t.a[0] == 'min' and any(x is s.rs(n) for x in t.a[1:]) and all(x is s.rs(n) or x.op == 'app' and x.a[0] == 'len' for x in t.a[1:])
        if cl(a, 'start') and cl(b, 'end'): return 'clipped'
        return None

    def count(s, it):
        if it.op != 'it': return None
        n = None
        if it.a[0] in ('ref', 'val') and it.a[1] is mk('arg', 3): n = app('len', mk('arg', 3))
        for x in it.a[2]:
            if x[0] == 'take': n = x[1]
        if it.a[0] == 'repeat_n': n = it.a[1].a[2][1][1]
        if it.a[0] == 'range':
            f = dict(it.a[1].a[2])
            if f['start'] is ZERO: n = f['end']
        if it.a[0] == 'val' and it.a[1].op == 'app' and it.a[1].a[0] == 'from_elem': n = it.a[1].a[2]
        return n

    def default_cols(s, it):
        return not any(s.is_mt(x) for x in subterms(it))

    def long_enough(s, E, st, t):
        end = s.rs('end')
        if geq(E, st, E.lenof(t), end): return True
        ok_ = False
        for x in E.leaves(t):
            if x.op == 'upd' and x.a[1] in ('Vec::resize', 'Vec::resize_with') and len(x.a) > 3 and geq(E, st, x.a[3], end): ok_ = True; continue
            if any(k.op == 'bin' and k.a[0] == 'Lt' and k.a[1].op == 'app' and k.a[1].a[0] == 'len' and k.a[2] is end and f == ('in', frozenset([False])) for k, f in st.facts.items()): ok_ = True; continue
            if x.op == 'upd' and x.a[1] in ('Vec::push', 'Vec::extend', 'Vec::extend_from_slice'): ok_ = True; continue
            # the alternative that was not grown: on its own it must be long enough
            if any(y.op == 'upd' for y in subterms(x)): continue
            if len(list(E.leaves(t))) > 1: continue
            return False
        return ok_


def memo(c):
    c.rule('reuse', 'use_memoized_result yields the entry of this rule at this position, advances by its length and counts its examined span')
    c.rule('examined', 'consume counts the position it reads before the outcome; memoize_result stores a span at least as long as what was examined, and a column maximum at least that; memoized_eval_rule never lets the maximum shrink below what was examined inside or before')
    c.rule('edits', 'apply_edit replaces tokens and columns by the same range and count, looks at every column before the range, and removes every entry whose examined span reaches into it')
    P = c.program(UNITS)
    F = Facts(c, P)
    if not F.ok: return
    c.run_engine(P, Use(c), F.use_memoized_result)
    c.run_engine(P, ConsumeMax(c), F.consume)
    c.run_engine(P, EvalMax(c, F), F.eval_rule)
    c.run_engine(P, Memoise(c), F.memoize_result)
    c.run_engine(P, Memoized(c, F), F.memoized_eval_rule)
    c.run_engine(P, ApplyEdit(c, F), F.apply_edit)
    for k, n in (('lookup of a memoised result', 2), ('examined tokens after consume', 1), ('examined tokens after evaluation', 1), ('examined tokens between two evaluations', 1), ('memo entry', 1), ('result memoised', 1), ('memoise after evaluation', 1), ('lookup of a rule', 1), ('evaluation of a rule', 1),
                 ('buffer edited', 1), ('outcome of an edit', 1)): c.floor(k, n)
