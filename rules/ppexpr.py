"""Conditions of the preprocessor: what they evaluate to, that evaluation ends, how they are parsed."""
import re, json
from engine import *
from requests import same_clone
from preproc import PP, Anchors, SELF, A2

UNITS = ['analyzer_core']
LEVELS = (('*', 'Times', 1), ('/', 'Divide', 1), ('%', 'Modulo', 1), ('+', 'Plus', 2), ('-', 'Minus', 2), ('<<', 'BitwiseShiftLeft', 3), ('>>', 'BitwiseShiftRight', 3),
          ('<', 'LessThan', 4), ('<=', 'LessOrEqual', 4), ('>', 'GreaterThan', 4), ('>=', 'GreaterOrEqual', 4), ('==', 'Equals', 5), ('!=', 'NotEquals', 5),
          ('&', 'And', 6), ('^', 'Xor', 7), ('|', 'Or', 8), ('&&', 'LogicalAnd', 9), ('||', 'LogicalOr', 10))
SYMBOL = {v: s for s, v, n in LEVELS}
ARITH = {'Plus': 'Add', 'Minus': 'Sub', 'Times': 'Mul', 'Divide': 'Div', 'Modulo': 'Rem', 'BitwiseShiftLeft': 'Shl', 'BitwiseShiftRight': 'Shr', 'Or': 'BitOr', 'Xor': 'BitXor', 'And': 'BitAnd'}
COMPARE = {'Equals': lambda r: r == 0, 'NotEquals': lambda r: r != 0, 'LessThan': lambda r: r < 0, 'LessOrEqual': lambda r: r <= 0, 'GreaterThan': lambda r: r > 0, 'GreaterOrEqual': lambda r: r >= 0}
METHOD = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl', 'shr': 'Shr'}
REL = {'Eq': lambda r: r == 0, 'Ne': lambda r: r != 0, 'Lt': lambda r: r < 0, 'Le': lambda r: r <= 0, 'Gt': lambda r: r > 0, 'Ge': lambda r: r >= 0}
WHY = {-1: 'the left operand is smaller', 0: 'the operands are equal', 1: 'the left operand is greater'}


def uncast(t):
    t = strip(t)
    while t.op == 'cast' or t.op == 'fld' and t.a[1] == '0' and t.a[0].op == 'bin': t = strip(t.a[0])
    return t


def payload(t):
    """t = payload of a call -> the call"""
    t = uncast(t)
    if t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[1] in ('Some', 'Ok'): return t.a[0].a[0]
    return None


def arith(t):
    """(operation, left, right) of an arithmetic term"""
    t = uncast(t)
    c = payload(t) or t
    if c.op == 'call' or c.op == 'app':
        n, args = (c.a[1], c.a[2:]) if c.op == 'call' else (c.a[0], c.a[1:])
        m = re.match(r'(checked|wrapping|saturating)_(\w+?)(_euclid)?$', last(n, 1))
        if m and m.group(2) in METHOD and len(args) == 2 and not m.group(3) and m.group(1) != 'saturating': return METHOD[m.group(2)], args[0], args[1]
    if t.op == 'bin':
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        return o, t.a[1], t.a[2]
    return None


class Eval(PP):
    """one function that computes the value of an expression; its recursive calls are opaque"""
    def __init__(s, c, A, fid, fam):
        PP.__init__(s, c, A); s.fid, s.fam = fid, fam
        tys = [l['t'] for l in s.P.fns[fid]['locals'][:s.P.fns[fid]['argc'] + 1]]
        s.x = mk('arg', next(i for i, t in enumerate(tys) if i and 'PreprocessorExpression' in t))
        s.guards = [mk('arg', i) for i, t in enumerate(tys) if i and i != s.x.a[0] and 'PreprocessorState' not in t]
        s.shared = {mk('arg', i) for i, t in enumerate(tys) if i and mk('arg', i) in s.guards and t.startswith('&mut ')}
    def init(s): return (0, False, 0)
    def partition(s, st, E): return (st.auto, E.tags(st), frozenset((k.id, f) for k, f in st.facts.items()))
    def stop(s, fid): return fid in s.fam and fid != s.fid or 'parser::' in fid
    def model(s, name):
        if name == 'Clone::clone': return same_clone

    def rec(s, t):
        """t: what a call of the family returned"""
        return t is not None and t.op == 'call' and any(last(f, 2).split('::')[-1] == last(t.a[1], 1) for f in s.fam)
    def recs(s, st): return [k.a[0] for k in st.facts if k.op == 'var' and s.rec(k.a[0])]
    def sub(s, t): return path_of(s.x, t)
    def of(s, t, what):
        """the value of the operand `what` of the expression"""
        c = payload(t)
        return c is not None and s.rec(c) and any(strip(a) is what for a in c.a[2:])

    def event(s, kind, ev, st, E):
        n = s.noted(kind, ev, st, E)
        if not E.final: return n
        c = s.c
        if kind == 'return' and s.shared and st.auto[0] > sum(1 for k, f in st.facts.items() if f == ('in', frozenset([False])) and (k.op == 'app' and k.a[0] == 'insert' or k.op == 'call' and last(k.a[1], 1) == 'insert')):
            c.bad('eval:guard:left', ev.where, 'a macro stays noted as being expanded after its expansion: its second use in a condition has no value')
        if kind == 'call' and (getattr(ev, 'id', None) in s.fam): s.recursion(ev, st, E)
        if kind == 'call' and last(ev.name, 1) in ('wrapping_div', 'wrapping_rem', 'overflowing_div', 'overflowing_rem', 'div_euclid', 'rem_euclid', 'wrapping_div_euclid', 'wrapping_rem_euclid', 'saturating_div') and len(ev.args) == 2:
            if s.fits(st, E, None, uncast(E.val(st, ev.args[1])), None, None, False): c.bad('eval:panic', ev.where, 'evaluating a condition can panic: %s with a divisor that may be zero' % last(ev.name, 1))
        if kind in ('panic', 'assertfail', 'diverge'): c.bad('eval:panic', ev.where, 'evaluating a condition can panic: %s' % (getattr(ev, 'msg', '') or getattr(ev, 'name', '')))
        if kind == 'return': s.returned(ev, st, E)
        return n

    def noted(s, kind, ev, st, E):
        n, noted, scan = st.auto
        if kind in ('next', 'exhausted') and ev.it.op == 'it' and any(contains(ev.it, g) for g in s.guards):
            return (n, noted, {0: 1, 1: 5}.get(scan, scan) if kind == 'next' else {0: 2, 1: 2, 5: 3}.get(scan, scan))
        if kind == 'call' and ev.args and (E.val(st, ev.args[0]) in s.guards or ev.args[0].op == 'ref' and ev.args[0].a[0][0][0] == 'p' and ev.args[0].a[0][0][1] in s.guards):
            m = last(ev.name, 1)
            if m in ('push', 'insert', 'push_back', 'push_front'):
                name = s.sub((('v', 'Identifier'), ('f', '0')))
                return (min(n + 1, 3), noted or any(strip(E.val(st, a)) is name for a in ev.args[1:]), scan)
            if m in ('pop', 'remove', 'truncate', 'clear', 'pop_back', 'pop_front', 'take', 'swap_remove', 'shift_remove'): return (max(n - 1, 0), False, scan)
        return None

    def recursion(s, ev, st, E):
        c, w = s.c, ev.where
        args = [E.val(st, a, 6) for a in ev.args]
        xs = [a for a in args if a is s.x or contains(a, s.x)]
        struct = [a for a in xs if a is s.x or s.within(strip(a))]
        guard = [a for a in args if a not in xs and not self_like(a)] + [a for a in args if a in xs and a not in struct and any(contains(a, g) for g in s.guards)]
        if struct and struct[0] is not s.x:
            c.ob('evaluation of an operand', w)
            if s.guards and not any(any(contains(a, g) for g in s.guards) for a in guard): c.bad('eval:guard:lost', w, 'an operand is evaluated without the record of the macros that are being expanded: evaluation may never end')
            return
        if struct: return
        c.ob('expansion of a macro', w)
        name = next((a for a in (k for k in (s.sub((('v', 'Identifier'), ('f', '0'))),))), None)
        def isname(t): return strip(t) is name or contains(t, name)
        n, noted, scan = st.auto
        for g in guard:
            if noted and any(contains(g, x) for x in s.guards):
                if scan == 2: return
                for k, f in st.facts.items():
                    if k.op == 'app' and k.a[0] in ('contains', 'contains_key') and isname(k.a[2]) and f == ('in', frozenset([False])) and any(contains(k.a[1], x) for x in s.guards): return
                    if scan == 3 and k.op == 'bin' and k.a[0] == 'Eq' and name in [strip(x) for x in k.a[1:]] and f == ('in', frozenset([False])): return
                    if k.op == 'call' and last(k.a[1], 1) == 'insert' and f == ('in', frozenset([True])) and isname(k.a[3]): return
            # a depth
            if any(x.op == 'bin' and x.a[0].startswith('Sub') and x.a[1] in s.guards and x.a[2].op == 'const' and x.a[2].a[0] > 0 for x in subterms(g)): return
            p = payload(g)
            if p is not None and p.op in ('app', 'call') and 'checked_sub' in show(p, 2) and any(contains(p, x) for x in s.guards): return
        c.bad('eval:endless', w, 'a macro is expanded without noting that it is being expanded: evaluation of a macro that mentions itself never ends')

    def within(s, t):
        while t.op in ('fld', 'as', 'box'): t = strip(t.a[0] if t.op != 'box' else t.a[1])
        return t is s.x

    def returned(s, ev, st, E):
        c, w = s.c, ev.where
        kinds = E.fact_var(st, s.x)
        vals = E.leaves(ev.val)
        if kinds is None and all(s.rec(v) and any(a is s.x for a in v.a[2:]) for v in vals): return      # hands the expression on
        if kinds is None or len(kinds) != 1:
            c.bad('eval:kind', w, 'the value of a condition does not depend on what kind of expression it is'); return
        k = next(iter(kinds))
        for v in vals: s.value(k, v, ev, st, E)

    def value(s, k, v, ev, st, E):
        c, w = s.c, ev.where
        none = v.op == 'agg' and v.a[1] == 'None'
        x = pay(v, 'Some') if v.op == 'agg' and v.a[1] == 'Some' else None
        if k == 'IntLiteral':
            c.ob('value: literal', w)
            if x is None or uncast(x) is not s.sub((('v', k), ('f', '0'))): c.bad('eval:literal', w, 'the value of a literal is %s' % show(v, 4))
        elif k == 'Identifier':
            c.ob('value: identifier', w)
            name = s.sub((('v', k), ('f', '0')))
            if none:
                if not any((y.op == 'var' or y.op == 'app') for y in st.facts): c.bad('eval:identifier', w, 'an identifier never has a value')
                return
            if s.rec(v) or payload(x) is not None and s.rec(payload(x)): r = v if s.rec(v) else payload(x)
            else: r = None
            if r is None: c.bad('eval:identifier', w, 'the value of an identifier is %s' % show(v, 4)); return
            body = any(contains(a, name) for a in r.a[2:])
            parsed = [y for a in r.a[2:] for y in subterms(a) if y.op == 'call' and 'parser::' in y.a[1] or y.op == 'call' and 'expression' in y.a[1]]
            if not body or not parsed: c.bad('eval:identifier', w, 'the value of an identifier is %s, not that of its definition' % show(v, 4))
        elif k == 'Defined':
            c.ob('value: defined', w)
            name = s.sub((('v', k), ('f', '0')))
            t = uncast(x) if x is not None else UNIT
            keys = [f for f in list(st.facts) + [t] if f.op == 'app' and f.a[0] in ('contains_key',) and strip(f.a[2]) is name] + [f for f in list(st.facts) if f.op == 'var' and f.a[0].op == 'app' and f.a[0].a[0] == 'get' and strip(f.a[0].a[2]) is name]
            ok = False
            for y in keys:
                for b in (True, False):
                    if y.op == 'app' and y in st.facts and E.fact_bool(st, y) not in (None, b): continue
                    if y.op == 'var' and not ({'Some'} if b else {'None'}) & set(st.facts[y][1]): continue
                    r = s.truth(t, {y: b})
                    if r is None or r != b: c.bad('eval:defined', w, '"defined" of a name that is %sdefined is %s' % ('' if b else 'not ', show(v, 4)))
                ok = True
            if not ok: c.bad('eval:defined', w, '"defined" is %s' % show(v, 4))
        elif k == 'Not':
            c.ob('value: negation', w)
            inner = s.sub((('v', k), ('f', '0')))
            rs = [r for r in s.recs(st) if any(strip(a) is inner for a in r.a[2:])]
            if none: c.bad('eval:not', w, 'a negation has no value'); return
            t = uncast(x)
            if not rs:
                # through the truth of the operand
                ok = [y for y in subterms(t) if s.rec(y) and any(strip(a) is inner for a in y.a[2:])] or [y for y in st.facts if s.rec(y) and any(strip(a) is inner for a in y.a[2:])]
                if not ok: c.bad('eval:not', w, 'the value of a negation is %s' % show(v, 4)); return
                for b in (True, False):
                    if E.fact_bool(st, ok[0]) not in (None, b): continue
                    if s.truth(t, {ok[0]: b}) != (not b): c.bad('eval:not', w, 'the negation of a condition that is %s is %s' % (b, show(v, 4)))
                return
            f = E.fact_var(st, rs[0])
            for case in ('None', 0, 1):
                if f is not None and ('None' if case == 'None' else 'Some') not in f: continue
                p = pay(rs[0], 'Some')
                if case != 'None' and not s.fits(st, E, p, None, None, case != 0, None): continue
                r = s.bool(t, st, E, p, None, None, case not in ('None', 0), None)
                if r != (case in ('None', 0)): c.bad('eval:not', w, 'the negation of %s is %s' % ('an expression without a value' if case == 'None' else 'zero' if case == 0 else 'a value other than zero', show(v, 4)))
        elif k == 'BinOp': s.binop(v, none, x, ev, st, E)
        else: c.bad('eval:unknown:' + k, w, 'the kind %s of expression is not known to the rule' % k)

    def truth(s, t, env):
        t = uncast(t)
        if t in env: return env[t]
        if t.op == 'const': return bool(t.a[0])
        if t.op == 'un' and t.a[0] == 'Not':
            r = s.truth(t.a[1], env)
            return None if r is None else not r
        for k, b in env.items():
            if k.op == 'var' and t.op == 'app' and t.a[0] in ('is_some', 'is_none') and t.a[1] is k.a[0]: return b == (t.a[0] == 'is_some')
        return None

    # ---- binary operators: the operands are abstracted to their order (rel) or to being zero or not (lz, rz: True when not zero)
    def bool(s, t, st, E, l, r, rel, ln, rn):
        t = uncast(t)
        if t.op == 'const': return bool(t.a[0])
        if t.op == 'un' and t.a[0] == 'Not':
            x = s.bool(t.a[1], st, E, l, r, rel, ln, rn)
            return None if x is None else not x
        if t.op == 'bin':
            o, a, b = t.a[0], uncast(t.a[1]), uncast(t.a[2])
            if o in ('BitOr', 'BitAnd', 'BitXor'):
                x, y = s.bool(a, st, E, l, r, rel, ln, rn), s.bool(b, st, E, l, r, rel, ln, rn)
                if None in (x, y):
                    if o == 'BitOr' and True in (x, y): return True
                    if o == 'BitAnd' and False in (x, y): return False
                    return None
                return {'BitOr': x or y, 'BitAnd': x and y, 'BitXor': x != y}[o]
            if o in REL:
                if rel is not None and (a, b) == (l, r): return REL[o](rel)
                if rel is not None and (a, b) == (r, l): return REL[o](-rel)
                for p, n in ((l, ln), (r, rn)):
                    if n is None or p is None: continue
                    for u, q in ((a, b), (b, a)):
                        if u is p and q.op == 'const' and q.a[0] == 0 and o in ('Eq', 'Ne'): return n == (o == 'Ne')
        return None

    def fits(s, st, E, l, r, rel, ln, rn):
        """whether the facts of the path allow the class"""
        for k, f in st.facts.items():
            x = s.bool(k, st, E, l, r, rel, ln, rn)
            if x is not None and (x in f[1]) != (f[0] == 'in'): return False
            for p, n in ((l, ln), (r, rn)):
                if p is not None and n is not None and uncast(k) is p:
                    zero = 0 in f[1] if f[0] == 'in' else 0 not in f[1]
                    only = f[0] == 'in' and f[1] == frozenset([0])
                    if n and only or not n and not zero: return False
        return True

    def binop(s, v, none, x, ev, st, E):
        c, w = s.c, ev.where
        ops = E.fact_var(st, s.sub((('v', 'BinOp'), ('f', '0'))))
        lt, rt = (s.sub((('v', 'BinOp'), ('f', n))) for n in '12')
        rs = s.recs(st)
        lv, rv = ([r for r in rs if any(strip(a) is t for a in r.a[2:])] for t in (lt, rt))
        lf, rf = (E.fact_var(st, y[0]) if y else None for y in (lv, rv))
        if none:
            c.ob('no value', w)
            if lf == frozenset(['None']) or rf == frozenset(['None']): return
            for o in ops or ('*',):
                if o in ('Plus', 'Minus', 'Times', 'Divide', 'Modulo', 'BitwiseShiftLeft', 'BitwiseShiftRight'): continue
                c.bad('eval:none:' + o, w, 'an expression with "%s" has no value although both operands have one' % SYMBOL.get(o, o))
            return
        if x is None:
            # an operation that may have no result is returned as it is
            a = arith(v)
            x = pay(v, 'Some')
        if ops is None: c.bad('eval:op', w, 'the value of a binary expression does not depend on its operator'); return
        l, r = (pay(y[0], 'Some') if y else None for y in (lv, rv))
        for o in sorted(ops):
            c.ob('operator ' + SYMBOL.get(o, o), w)
            n = '"%s"' % SYMBOL.get(o, o)
            if o in ARITH:
                a = arith(x)
                if a is None or l is None or r is None: c.bad('eval:op:' + o, w, 'the value of %s is %s' % (n, show(x, 4))); continue
                want = ARITH[o]
                p, q = uncast(a[1]), uncast(a[2])
                if want in ('Shl', 'Shr'):
                    y = payload(q)
                    if y is not None and y.op in ('call', 'app') and last(y.a[1] if y.op == 'call' else y.a[0], 1) in ('try_into', 'try_from'): q = uncast(y.a[-1])
                ok = a[0] == want and ((p, q) == (l, r) or (p, q) == (r, l) and want in ('Add', 'Mul', 'BitOr', 'BitAnd', 'BitXor'))
                if not ok: c.bad('eval:op:' + o, w, 'the value of %s is %s of %s and %s' % (n, a[0], s.side(p, l, r), s.side(q, l, r)))
            elif o in COMPARE:
                if l is None or r is None: c.bad('eval:op:' + o, w, 'the value of %s does not depend on both operands' % n); continue
                for rel in (-1, 0, 1):
                    if not s.fits(st, E, l, r, rel, None, None): continue
                    b = s.bool(x, st, E, l, r, rel, None, None)
                    if b is None or b != COMPARE[o](rel): c.bad('eval:op:' + o, w, 'the value of %s is %s when %s' % (n, show(x, 3) if b is None else int(b), WHY[rel]))
            elif o in ('LogicalOr', 'LogicalAnd'):
                for ln in (True, False):
                    for rn in (True, False):
                        if not s.fits(st, E, l, r, None, ln, rn): continue
                        want = ln or rn if o == 'LogicalOr' else ln and rn
                        b = s.bool(x, st, E, l, r, None, ln, rn)
                        if b is None or b != want: c.bad('eval:op:' + o, w, 'the value of %s is %s when the left operand is %szero and the right one is %szero' % (n, show(x, 3) if b is None else int(b), 'not ' if ln else '', 'not ' if rn else ''))
            else: c.bad('eval:unknown:' + o, w, 'the operator %s is not known to the rule' % o)

    def side(s, t, l, r): return 'the left operand' if t is l else 'the right operand' if t is r else show(t, 3)


def self_like(t):
    t = strip(t)
    while t.op in ('fld', 'as'): t = strip(t.a[0])
    return t is SELF or t.op == 'ref' and t.a[0][0] == ('p', SELF)


class Cond(PP):
    """the truth of a condition"""
    def __init__(s, c, A, fam): PP.__init__(s, c, A); s.fam = fam
    def init(s): return 0
    def stop(s, fid): return fid in s.fam
    def partition(s, st, E): return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items()))
    def event(s, kind, ev, st, E):
        if not E.final: return None
        c, w = s.c, ev.where
        if kind in ('panic', 'assertfail', 'diverge'): c.bad('cond:panic', w, 'deciding a condition can panic')
        if kind == 'return':
            c.ob('truth of a condition', w)
            h = Eval.__new__(Eval)
            rs = {k.a[0] for k in st.facts if k.op == 'var' and k.a[0].op == 'call'} | {y for y in subterms(ev.val) if y.op == 'call' and A2 in y.a}
            rs = [r for r in rs if A2 in [strip(a) for a in r.a[2:] if isinstance(a, T)]]
            if len(rs) != 1: c.bad('cond', w, 'a condition holds depending on %s' % show(ev.val, 4)); return None
            p, f = pay(rs[0], 'Some'), E.fact_var(st, rs[0])
            for v in E.leaves(ev.val):
                for case in ('None', False, True):
                    if f is not None and ('None' if case == 'None' else 'Some') not in f: continue
                    if case != 'None' and not h.fits(st, E, p, None, None, case, None): continue
                    b = h.bool(v, st, E, p, None, None, case is True, None)
                    if b is None and v.op == 'bin' and v.a[0] in ('Eq', 'Ne') and some(const(0)) in v.a[1:]: b = (case is False) == (v.a[0] == 'Eq')
                    if b != (case is True): c.bad('cond', w, 'a condition %s %s' % ({'None': 'without a value', False: 'whose value is zero', True: 'whose value is not zero'}[case], 'holds' if b else 'does not hold' if b is False else 'holds depending on ' + show(v, 4)))
        return None


# ---------------------------------------------------------------- parsing
class Level(Rule):
    """a function that parses one level of precedence"""
    def __init__(s, c, P, table, fns): s.c, s.P, s.table, s.fns, s.found = c, P, table, fns, []
    def init(s): return 0
    def stop(s, fid): return fid in s.fns
    def event(s, kind, ev, st, E):
        if E.final and kind == 'call' and getattr(ev, 'id', None) == s.table:
            args = [E.val(st, a, 8) for a in ev.args]
            tab = next((a for a in args if a.op == 'agg' and a.a[0] == 'array'), None)
            for a in args:
                if tab is None and a.op == 'static':
                    v = const_value(s.P, a.a[0])
                    if v is not None and v.op == 'agg' and v.a[0] == 'array': tab = v
            ops = []
            for n, v in tab.a[2] if tab is not None else ():
                f = dict(v.a[2]) if v.op == 'agg' else {}
                y = f.get('1')
                ops.append((lit_of(f.get('0')), y.a[1] if y is not None and y.op == 'agg' else None))
            ops2 = {x.a[0] for a in args if a.op == 'fn' for x in [a]}
            lhs = {x.a[0] for a in args if a is not tab and a.op != 'fn' for x in subterms(a) if x.op == 'fn' and x.a[0] in s.fns} | {i for a in args if a is not tab for x in subterms(a) if x.op == 'call' for i in s.fns if last(i, 2) == last(x.a[1], 2)}
            lhs -= {s.table}
            s.found.append((ops, ops2, lhs, ev.where))
        return None


def lit_of(t):
    return t.a[0] if t is not None and t.op == 'const' and isinstance(t.a[0], str) else None


class Table(Rule):
    """the combinator for one level: how often and in which order the operators are tried, and what is built"""
    def __init__(s, c): s.c, s.its = c, set()
    def init(s): return 0
    def event(s, kind, ev, st, E):
        if E.final and kind == 'next' and ev.it.op == 'it': s.its.add(tuple(x[0] for x in ev.it.a[2]))
        return None


class Try(Rule):
    """the closure that tries one operator: before or after the ones added earlier"""
    def __init__(s, c): s.c, s.order, s.its = c, set(), set()
    def init(s): return ()
    def event(s, kind, ev, st, E):
        a = st.auto
        if E.final and kind == 'next' and ev.it.op == 'it': s.its.add(tuple(x[0] for x in ev.it.a[2]))
        if kind == 'call' and ev.name == '<closure>':
            own = any(x.op == 'call' and last(x.a[1], 1) == 'tag' for x in subterms(E.val(st, ev.args[0])))
            return a + (('own' if own else 'prev'),) if len(a) < 3 else a
        if kind == 'return' and E.final and a and not s.its: s.order.add(a)
        return None


class Build(Rule):
    """the closure that combines two operands"""
    see_make = True
    def __init__(s, c): s.c = c
    def init(s): return 0
    def event(s, kind, ev, st, E):
        if kind == 'make' and E.final and ev.variant == 'BinOp' and ev.adt == 'PreprocessorExpression':
            c, w = s.c, ev.where
            c.ob('tree of a binary expression', w)
            f = {n: strip(unbox(v)) for n, v in ev.val.a[2]}
            l, p = mk('arg', 2), mk('arg', 3)
            if f.get('0') is not project(p, ('f', '0')): c.bad('build:op', w, 'the operator of a binary expression is %s' % show(f.get('0', UNIT), 3))
            if f.get('1') is not l or f.get('2') is not project(p, ('f', '1')): c.bad('build:operands', w, 'the operands of a binary expression are %s and %s: not what was read so far and the operand after the operator' % (show(f.get('1', UNIT), 3), show(f.get('2', UNIT), 3)))
        return None


def unbox(t):
    t = strip(t)
    while t.op == 'box' or t.op in ('app', 'call') and last(t.a[0 if t.op == 'app' else 1], 1) in ('into', 'from', 'new'): t = strip(t.a[-1])
    return t


def strings(P, f, stop, seen=None):
    """the literals a parser function and what it is built of (without the functions in stop) mention"""
    seen = set() if seen is None else seen
    if f in seen or f in stop: return set()
    seen.add(f)
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if 'str' in x and isinstance(x['str'], str): out.add(x['str'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(P.fns[f]['blocks'])
    for b in P.fns[f]['blocks']:
        for g in mentions(b):
            if g in P.fns: out |= strings(P, g, stop, seen)
    return out


def mentions(x, out=None):
    out = set() if out is None else out
    if isinstance(x, dict):
        fn = x.get('fn')
        if isinstance(fn, dict) and isinstance(fn.get('id'), str): out.add(fn.get('rid') or fn['id']); out.add(fn['id'])
        for v in x.values(): mentions(v, out)
    elif isinstance(x, list):
        for v in x: mentions(v, out)
    return out


class Alts(Rule):
    """a function that tries alternatives: what each of them is made of"""
    def __init__(s, fns): s.alts, s.fns = [], fns
    def init(s): return 0
    def stop(s, fid): return fid in s.fns
    def event(s, kind, ev, st, E):
        if E.final and kind == 'call' and last(ev.name, 1) == 'alt':
            t = E.val(st, ev.args[0], 10)
            if t.op == 'agg': s.alts.append(([v for n, v in t.a[2]], ev.where))
        return None


def kinds_of(P, t):
    """what an alternative builds, which literals it looks for and which functions it refers to"""
    made, lits, fns = set(), set(), set()
    for x in subterms(t):
        if lit_of(x) is not None: lits.add(lit_of(x))
        if x.op == 'fn':
            fns.add(x.a[0])
            m = re.search(r'PreprocessorExpression::(\w+)', x.a[0])
            if m: made.add(m.group(1))
        cl = x.a[1] if x.op == 'agg' and x.a[0] == 'closure' else None
        for g in ([cl] if cl in P.fns else []):
            for h in [g] + [k for k in P.fns if k.startswith(g + '::')]:
                for b in P.fns[h]['blocks']:
                    for st in b['s']:
                        r = st.get('r') or {}
                        if r.get('k') == 'agg' and str(r.get('adt', '')).endswith('PreprocessorExpression'): made.add(r['v'])
                    fns |= mentions(b) & set(P.fns)
                    made |= {m.group(1) for i in mentions(b) for m in [re.search(r'PreprocessorExpression::(\w+)', i)] if m}
    return made, lits, fns


def parsing(c, A):
    P = A.P
    fns = {f['id']: f for f in P.fns.values() if f['unit'] == 'analyzer_core' and f['kind'] in ('fn', 'method')}
    table = [i for i, f in fns.items() if any('PreprocessorBinOp)]' in l['t'] for l in f['locals'][1:f['argc'] + 1])]
    if len(table) != 1: c.missing('the parser of one level of operators'); return
    table = table[0]
    def parses(f): return f['argc'] == 1 and 'IResult' not in f['id'] and 'PreprocessorExpression)' in f['locals'][0]['t'] and f['locals'][1]['t'].lstrip("&'a ").endswith('str')
    lev = {i for i, f in fns.items() if parses(f)}
    calls = {}
    for i in lev:
        r = Level(c, P, table, (lev | {table}) - {i})
        E = Engine(P, r, i).run()
        c.steps += E.steps; c.fns |= {i} | E.inlined
        calls[i] = r.found
    rank = {}
    def depth(i, seen=()):
        if i in rank: return rank[i]
        if i in seen or not calls.get(i): return 0
        d = 1 + max([depth(j, seen + (i,)) for ops, rhs, lhs, w in calls[i] for j in rhs] or [0])
        rank[i] = d
        return d
    where, sym = {}, {}
    for i in sorted(lev):
        for ops, rhs, lhs, w in calls[i]:
            c.ob('level of precedence', w)
            if len(rhs) != 1 or lhs and lhs != rhs: c.bad('level:operands', w, 'the operands of an operator on both sides are parsed by different functions: %s and %s' % (sorted(last(x, 1) for x in lhs), sorted(last(x, 1) for x in rhs)))
            for s, v in ops:
                c.ob('symbol', w)
                want = {a: b for a, b, n in LEVELS}.get(s)
                if s is None or v is None: c.bad('symbol:unknown', w, 'an operator of a level of precedence cannot be read off the source'); continue
                if s in sym: c.bad('symbol:twice:' + s, w, 'the operator %s is parsed in two places' % s)
                sym[s] = (depth(i), i, w, [a for a, b in ops])
                if want is None: c.bad('symbol:' + s, w, 'the operator "%s" is not one of P4 conditions' % s)
                elif want != v: c.bad('symbol:' + s, w, 'the operator "%s" is taken for %s' % (s, v))
    for s, v, n in LEVELS:
        if s not in sym: c.bad('symbol:none:' + s, '-', 'the operator "%s" cannot be parsed' % s)
    for s1, v1, n1 in LEVELS:
        for s2, v2, n2 in LEVELS:
            if s1 in sym and s2 in sym and n1 <= n2 and s1 != s2:
                d1, d2 = sym[s1][0], sym[s2][0]
                if n1 == n2 and d1 != d2 and s1 < s2 or n1 < n2 and d1 >= d2: c.bad('precedence', sym[s2][2], '"%s" does not bind %s "%s"' % (s1, 'like' if n1 == n2 else 'tighter than', s2))
    # which of the operators of a level is tried first
    t, y, cl = Table(c), Try(c), [k for k in P.fns if k.startswith(table + '::') and P.fns[k]['kind'] == 'closure']
    E = Engine(P, t, table).run(); c.steps += E.steps; c.fns |= {table} | E.inlined
    for k in cl:
        if 'PreprocessorBinOp)' in P.fns[k]['locals'][0]['t'] and P.fns[k]['argc'] == 2 and re.fullmatch(r"&('\w+ )?str", P.fns[k]['locals'][2]['t']):
            E = Engine(P, y, k).run(); c.steps += E.steps; c.fns |= {k}
        if 'PreprocessorExpression' in P.fns[k]['locals'][0]['t'] and P.fns[k]['argc'] == 3: c.run_engine(P, Build(c), k)
    first = {o[0] for o in y.order}
    its = t.its
    rev = lambda xs: {i.count('rev') % 2 for i in xs if not set(i) - {'rev', 'enumerate', 'cloned', 'copied', 'map', 'find_map', 'filter_map'}}
    in_order = None                     # whether the first of the table is tried first
    if len(first) == 1 and len(rev(its)) == 1: in_order = (rev(its) == {1}) == (first == {'own'})
    elif not first and len(rev(its | y.its)) == 1: in_order = rev(its | y.its) == {0}        # a loop that ends at the first match
    if in_order is not None:
        for s, (d, i, w, all_) in sorted(sym.items()):
            for o in all_:
                if o and s and o != s and s.startswith(o):
                    c.ob('operators with a common prefix', w)
                    if (all_.index(o) < all_.index(s)) == in_order: c.bad('order:' + s, w, '"%s" is tried before "%s", which is then never recognised' % (o, s))
    # the operands
    top = [i for i in lev if calls[i] and rank.get(i) == max(rank.values() or [0])]
    fac = [i for i in lev if not calls[i] and any(i in rhs for j in lev for o, rhs, l, w in calls[j])]
    if len(fac) != 1 or len(top) != 1: c.missing('the parser of an operand'); return
    al = Alts(lev - {fac[0]}); E = Engine(P, al, fac[0]).run(); c.steps += E.steps; c.fns |= {fac[0]} | E.inlined
    if not al.alts: c.missing('the alternatives of an operand'); return
    built = []
    for alts, w in al.alts:
        for a in alts:
            made, lits, refs = kinds_of(P, a)
            deep = set(lits)
            for f in refs - lev: 
                if f in P.fns: deep |= strings(P, f, lev)
            c.ob('kind of operand', w)
            built.append((made, lits, refs, deep, w))
    w = al.alts[0][1]
    def idx(k): return next((n for n, b in enumerate(built) if k in b[0]), None)
    for k in ('Identifier', 'IntLiteral', 'Defined', 'Not'):
        if idx(k) is None: c.bad('operand:' + k, w, 'no operand is parsed as %s' % k)
    if None not in (idx('Defined'), idx('Identifier')) and idx('Defined') > idx('Identifier'): c.bad('operand:defined', w, '"defined" is taken for an identifier')
    if idx('Defined') is not None and not any(x.startswith('defined') for x in built[idx('Defined')][3] if x): c.bad('operand:defined:word', w, 'the operator "defined" is not recognised by its name')
    if idx('Defined') is not None and 'defined(' in built[idx('Defined')][3]: c.bad('operand:defined:space', w, '"defined" is not recognised when whitespace follows before the parenthesis')
    if idx('Not') is not None and ('!' not in built[idx('Not')][1] or not (built[idx('Not')][2] & {fac[0]} or not built[idx('Not')][2] & lev)): c.bad('operand:not', w, '"!" does not apply to the operand after it')
    par = [b for b in built if '(' in b[1] and ')' in b[1]]
    if not par or not all(b[2] & set(top) or any(t in reach(P, g) for g in b[2] for t in top) for b in par): c.bad('operand:parentheses', w, 'what is between parentheses is not parsed as a whole expression')


    # numbers
    nums = [i for i, f in fns.items() if 'parser::' in i and re.search(r'\(&str, (i64|u64|i128|u128|i32|u32)\)', f['locals'][0]['t']) and f['argc'] == 1]
    hexa = {i for i in nums if {'0x'} & strings(P, i, set(nums) - {i})}
    dec = {i for i in nums if i not in hexa and any('0123456789' in x for x in strings(P, i, set(nums) - {i}))}
    for i in nums:
        a = Alts(set(nums) - {i}); E = Engine(P, a, i).run(); c.steps += E.steps; c.fns.add(i)
        for alts, w in a.alts:
            refs = [{x.a[0] for x in subterms(t) if x.op == 'fn'} for t in alts]
            lits = [{lit_of(x) for x in subterms(t)} for t in alts]
            h = [n for n, r in enumerate(refs) if r & hexa or '0x' in lits[n]]
            d = [n for n, r in enumerate(refs) if n not in h and (r & dec or any('0123456789' in x for x in lits[n] if x))]
            if h or d: c.ob('number', w)
            if h and d and min(d) < min(h): c.bad('number:order', w, 'a hexadecimal number is read as the decimal number 0')
    for i in sorted(hexa | dec):
        if i in hexa and calls_any(P, i, hexa - {i}): continue
        sts = strings(P, i, set(nums) - {i})
        digits = next((x for x in sts if len(set(x) & set('0123456789')) > 3), None)
        if digits is None: continue
        c.ob('digits', P.fns[i]['name'])
        miss = set('0123456789' + ('abcdefABCDEF' if i in hexa else '')) ^ set(digits)
        if miss: c.bad('number:digits', P.fns[i]['name'], 'the digits %s of a %s number are not read as digits, or are not digits' % (sorted(miss), 'hexadecimal' if i in hexa else 'decimal'))
        ra = radix(P, i)
        if ra is not None and ra != (16 if i in hexa else 10): c.bad('number:base', P.fns[i]['name'], 'a %s number is read in base %d' % ('hexadecimal' if i in hexa else 'decimal', ra))


def calls_any(P, i, fs): return any(mentions(b) & fs for b in P.fns[i]['blocks'])


def radix(P, i):
    for k in [i] + [g for g in P.fns if g.startswith(i + '::')]:
        for b in P.fns[k]['blocks']:
            t = b['t']
            if t['k'] == 'call' and 'from_str_radix' in json.dumps(t['fn']):
                o = t['args'][-1]
                if 'c' in o and 'int' in o['c']: return int(o['c']['int'])
            if t['k'] == 'call' and re.search(r'::parse\b|FromStr', json.dumps(t['fn'])): return 10
    return None


def reach(P, f): return set().union(*[mentions(b) for b in P.fns[f]['blocks']]) if f in P.fns else set()


def expressions(c):
    c.rule('expressions', 'each kind of expression and each operator has the value C gives it, for every order and sign of its operands; a macro is expanded only while it is not being expanded; every operator symbol denotes its operator, longer symbols are tried first, and the chain of levels is the one of C')
    P = c.program(UNITS)
    A = Anchors(c, P)
    if not A.ok: return
    fam = {f['id'] for f in P.fns.values() if f['unit'] == 'analyzer_core' and f['kind'] in ('fn', 'method') and 'Option<i64>' in f['locals'][0]['t'] and any('PreprocessorExpression' in l['t'] for l in f['locals'][1:f['argc'] + 1])}
    fam1 = fam | {A.cond}
    for f in sorted(fam): c.run_engine(P, Eval(c, A, f, fam1), f, maxpart=800)
    c.run_engine(P, Cond(c, A, fam1 - {A.cond}), A.cond)
    parsing(c, A)
    for s, v, n in LEVELS: c.floor('operator ' + s, 1)
    for k in ('value: literal', 'value: identifier', 'value: defined', 'value: negation', 'expansion of a macro', 'truth of a condition', 'symbol', 'tree of a binary expression', 'kind of operand'): c.floor(k, 1)
