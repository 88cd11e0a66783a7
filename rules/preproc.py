"""The preprocessor: conditional compilation and includes."""
import re
from engine import *
from dispatch import adt, ftypes
from requests import map_insert, same_clone

UNITS = ['analyzer_core']
SELF, A2 = mk('arg', 1), mk('arg', 2)
DIRECTIVES = ('Include', 'If', 'ElseIf', 'Else', 'EndIf', 'Define', 'Undef', 'Pragma', 'Other')
PUSH = ('VecDeque::push_front',)
DEEP = 3


def top_split(s):
    out, d, cur = [], 0, ''
    for i, ch in enumerate(s):
        if ch in '<([': d += 1
        elif ch in ')]' or ch == '>' and s[i - 1] != '-': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


class Anchors:
    """the parts of PreprocessorState by their types"""
    def __init__(s, c, P):
        s.P = P
        a = adt(P, 'PreprocessorState')
        s.ok = a is not None
        if a is None: c.missing('PreprocessorState'); return
        s.ft = ftypes(a)
        vec = {n: t for n, t in s.ft.items() if tyhead(t) == 'Vec'}
        s.stack, s.bools = None, ()
        for n, t in vec.items():
            el = t[t.index('<') + 1:t.rindex('>')]
            comps = [('%d' % i, x) for i, x in enumerate(top_split(el[1:-1]))] if el.startswith('(') else None
            if comps is None:
                b = adt(P, tyhead(el))
                comps = [(f['n'], f['t']) for v in b['variants'] for f in v['fields']] if b else [('', el)]
            bs = [k for k, x in comps if x == 'bool']
            if len(bs) == 1: s.stack, s.flag = n, bs[0]
        s.errors = [n for n in vec if n != s.stack]
        maps = {n: t for n, t in s.ft.items() if tyhead(t) in ('HashMap', 'BTreeMap')}
        s.defs = [n for n, t in maps.items() if t.count('String') == 2]
        s.state = [n for n, t in s.ft.items() if tyhead(t) in ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet') and 'FileId' in t]
        dyn = {n: t for n, t in s.ft.items() if 'dyn' in t or 'FnMut' in t}
        s.to_id = [n for n, t in dyn.items() if '&str' in t or 'str' in t and 'Token' not in t]
        s.lex = [n for n in dyn if n not in s.to_id]
        s.main = s.skip = s.cond = s.val = None
        for f in P.fns.values():
            if f['kind'] not in ('fn', 'method') or f['unit'] != 'analyzer_core' or '{' in last(f['id']): continue
            tys = [l['t'] for l in f['locals'][:f['argc'] + 1]]
            if any('VecDeque' in t and 'Token' in t for t in tys[1:]) and 'PreprocessorState' in tys[1]:
                if 'Vec<' in tys[0]: s.main = f['id']
                elif tys[0] == '()': s.skip = f['id']
            if len(tys) == 3 and 'PreprocessorExpression' in tys[2]:
                if tys[0] == 'bool': s.cond = f['id']
                elif 'Option<i64>' in tys[0]: s.val = f['id']
        for n, what in (('stack', 'the stack of conditionals'), ('main', 'the loop over the tokens'), ('skip', 'the function that skips a branch'), ('cond', 'the interpretation of a condition')):
            if getattr(s, n) is None: c.missing(what); s.ok = False

    def is_stack(s, loc): return loc is not None and loc[0] == ('p', SELF) and len(loc[1]) >= 1 and loc[1][0] == ('f', s.stack)


def bval(E, st, t, env, n=0):
    """truth of a boolean term under a valuation"""
    t = strip(t)
    if t in env: return env[t]
    if t.op == 'const': return bool(t.a[0])
    if n > 8: return None
    if t.op == 'un' and t.a[0] == 'Not':
        x = bval(E, st, t.a[1], env, n + 1)
        return None if x is None else not x
    if t.op == 'bin' and t.a[0] in ('BitOr', 'BitAnd', 'BitXor', 'Eq', 'Ne'):
        x, y = (bval(E, st, z, env, n + 1) for z in t.a[1:])
        if t.a[0] == 'BitOr': return True if x or y else (False if x is False and y is False else None)
        if t.a[0] == 'BitAnd': return False if x is False or y is False else (True if x and y else None)
        if x is None or y is None: return None
        return (x != y) if t.a[0] in ('BitXor', 'Ne') else (x == y)
    if t.op == 'phi':
        vs = {bval(E, st, x, env, n + 1) for x in E.leaves(t)}
        return vs.pop() if len(vs) == 1 else None
    return E.fact_bool(st, t)


class PP(Rule):
    pure = ('VecDeque::len', 'VecDeque::is_empty')
    def __init__(s, c, A): s.c, s.A, s.P = c, A, A.P
    def model(s, name):
        if name == 'HashMap::insert': return map_insert
        if name == 'Clone::clone': return same_clone


class Rec:
    """what one step (the treatment of one token) did"""
    F = ('tok', 'pops', 'pushes', 'skips', 'errs', 'outs', 'conds', 'fronts', 'defs', 'files', 'incl')


def upd(a, **k):
    d = dict(zip(Rec.F, a)); d.update(k)
    return tuple(d[f] for f in Rec.F)


def cap(x, y): return x + (y,) if len(x) < 4 else x


class Step(PP):
    """PreprocessorState::preprocess, one token at a time; the function that skips a branch and the interpretation of conditions are opaque"""
    def __init__(s, c, A, aspect):
        PP.__init__(s, c, A); s.aspect = aspect
        s.out = set()
        s.root, s.guards = False, []
    def init(s): return (None,) + ((),) * 10 + (False,)
    def stop(s, fid): return fid in (s.A.skip, s.A.cond)

    def get(s, a, f): return a[Rec.F.index(f)]

    def partition(s, st, E):
        a = st.auto
        base = [x for x in (a[0],) + s.get(a, 'pops') + s.get(a, 'conds') + tuple(x.a[0] for x in s.get(a, 'incl') if x.op != 'iter') if x is not None and isinstance(x, T)]
        cur = E.read(st, (('p', SELF), (('f', s.A.stack),)))
        fs = []
        for k, f in st.facts.items():
            if any(contains(k, x) for x in base): fs.append((k.id, f))
            elif any(x.op in ('idx', 'app') and x.a[1 if x.op == 'app' else 0] is cur for x in subterms(k)): fs.append((k.id, f))
        return (E.tags(st), frozenset(fs))


    def event(s, kind, ev, st, E):
        a, A, c, F = st.auto, s.A, s.c, E.final
        rec, root = a[:-1], a[-1]
        name = getattr(ev, 'name', '')
        if kind == 'call' and name == 'VecDeque::pop_front' and s.queue(ev.args[0]):
            if F: s.step(rec, ev, st, E, False, root)
            if rec[0] is None and any(k.op == 'var' and f == ('in', frozenset(['None'])) and contains(k, A2) for k, f in st.facts.items()): root = True      # nothing to read at all
            return (mk('call', ev.call.site, name, A2),) + ((),) * 10 + (root,)
        if kind == 'call' and name == 'HashMap::insert' and s.of(ev.map, A.state): return s.opened(a, ev.args[1])
        if kind == 'store' and ev.how == 'call' and name in ('HashSet::insert', 'BTreeSet::insert', 'BTreeMap::insert') and s.of(ev.loc, A.state): return s.opened(a, E.val(st, ev.call.args[1]))
        if kind == 'store' and s.of(ev.loc, A.state) and len(ev.loc[1]) == 1 and a[0] is not None and F and s.aspect == 'incl' and (ev.how != 'call' or last(name, 1) in ('remove', 'remove_entry', 'clear', 'retain', 'drain', 'take', 'pop')):
            c.bad('include:forgotten', ev.where, 'a file is taken out of the files that were included (%s) though it may still be open: expansion may never end' % (last(name, 1) if ev.how == 'call' else 'assigned'))
        if kind == 'call' and name == 'HashMap::insert' and s.of(ev.map, A.defs): return upd(rec, defs=cap(rec[8], ('insert', ev.args[1], ev.args[2]))) + (root,)
        if kind == 'store' and ev.loc[0] == ('p', SELF):
            if A.is_stack(ev.loc):
                if ev.how == 'call' and name == 'Vec::pop': return upd(rec, pops=cap(rec[1], mk('call', ev.call.site, name, ref(ev.loc)))) + (root,)
                if ev.how == 'call' and name == 'Vec::push': return upd(rec, pushes=cap(rec[2], E.val(st, ev.call.args[1], 6))) + (root,)
                if ev.how == 'call': return upd(rec, pushes=cap(rec[2], ev.val)) + (root,)
                return upd(rec, pushes=cap(rec[2], mk('edit', ev.val, *[str(e) for e in ev.loc[1]]))) + (root,)
            if s.of(ev.loc, A.errors): return upd(rec, errs=cap(rec[4], E.val(st, ev.call.args[1], 6) if ev.how == 'call' and len(ev.call.args) > 1 else ev.val)) + (root,)
            if s.of(ev.loc, A.defs): return upd(rec, defs=cap(rec[8], (last(name, 1),) + tuple(E.val(st, x) for x in ev.call.args[1:]))) + (root,)
        if kind == 'store' and ev.how == 'call' and ev.loc[0][0] == 'l' and tyhead(E.argty(ev.call, 0)) == 'Vec' and 'Token' in E.argty(ev.call, 0):
            if not s.tokvec(E.argty(ev.call, 0)): return None
            s.out.add(ev.loc)
            return upd(rec, outs=cap(rec[5], (last(name, 1),) + tuple(E.val(st, x, 6) for x in ev.call.args[1:]))) + (root,)
        if kind == 'store' and ev.how != 'call' and any(e[0] == 'i' for e in ev.loc[1]) and ev.loc in s.out: return None
        if kind == 'store' and ev.how == 'call' and s.queue(ref(ev.loc)) and name not in ('VecDeque::pop_front', 'VecDeque::reserve') and (ev.call.fr or {}).get('id') != A.skip:
            return upd(rec, fronts=cap(rec[7], (last(name, 1),) + tuple(E.val(st, x, 6) for x in ev.call.args[1:]))) + (root,)
        if kind == 'call' and getattr(ev, 'id', None) == A.skip: return upd(rec, skips=cap(rec[3], len(rec[2]))) + (root,)
        if kind == 'ret' and name and getattr(ev, 'call', None) is not None and ev.call.fr is not None and (ev.call.fr.get('rid') or ev.call.fr['id']) == A.cond:
            return upd(rec, conds=cap(rec[6], ev.val)) + (root,)
        if kind == 'call' and name == '<closure>':
            x = mk('call', ev.call.site, 'closure', strip(E.val(st, ev.args[0])), *ev.args[1:])
            which = 'id' if s.field_of(ev.args[0], A.to_id) else 'lex' if s.field_of(ev.args[0], A.lex) else None
            if which: return upd(rec, incl=cap(rec[10], mk(which, x, E.val(st, ev.args[1], 4)))) + (root,)
        if kind in ('next', 'exhausted') and s.aspect == 'incl':
            lx = [x.a[0] for x in s.get(a, 'incl') if x.op == 'lex']
            if not any(contains(ev.it, pay(x, 'Some')) for x in lx): return None
            on = [x for x in s.get(a, 'incl') if x.op == 'iter']
            if on and kind == 'next' and rec[7] and F: s.element(rec, ev, st, E, on[0].a[0])
            if on and kind == 'next' and not rec[7] and F and on[0].a[1] == 'item': c.bad('include:dropped', ev.where, 'a token of an included file is left out')
            n = tuple(x for x in s.get(a, 'incl') if x.op != 'iter')
            return upd(rec, incl=n + (mk('iter', ev.it, 'end' if kind == 'exhausted' else 'item'),), fronts=()) + (root,)
        if kind == 'return' and F:
            s.step(rec, ev, st, E, True, root)
            s.returned(rec, ev, st, E)
        if kind in ('panic', 'assertfail', 'diverge') and F: s.paniced(rec, ev, st, E)
        return None

    def opened(s, a, key):
        first = a[0] is None and any(x.op in ('app', 'idx', 'call') and contains(x, A2) and ('first' in show(x) or 'front' in show(x)) for x in subterms(key))
        return upd(a[:-1], files=cap(a[9], key)) + (a[-1] or first,)

    def field_of(s, t, names): return any(x.op == 'fld' and x.a[1] in names or x.op == 'ref' and x.a[0][1] and x.a[0][1][-1][0] == 'f' and x.a[0][1][-1][1] in names for x in subterms(t))

    def element(s, rec, ev, st, E, it):
        """one token of an included file was put in front of the input"""
        c, w, fronts = s.c, ev.where, rec[7]
        ids = [x.a[0] for x in rec[10] if x.op == 'id']
        c.ob('token of an included file', w)
        if len(fronts) != 1 or fronts[0][0] != 'push_front': c.bad('include:front', w, 'a token of an included file ends up in the input as %s' % ', '.join(x[0] for x in fronts)); return
        v = fronts[0][1]
        el = next((x for x in subterms(v) if x.op == 'elem' and x.a[2] is it.a[1]), None)
        f = dict(v.a[2]) if v.op == 'agg' else {}
        if el is None or f.get('1') is not project(el, ('f', '0')) or f.get('2') is not project(el, ('f', '1')): c.bad('include:token', w, 'a token of an included file ends up in the input as %s' % show(v, 4))
        elif not ids or f.get('0') is not ids[-1]: c.bad('include:tag', w, 'a token of an included file is marked as being of the file %s' % show(f.get('0', UNIT), 3))
        ops = [x[0] for x in it.a[2]]
        if any(o not in ('rev', 'map', 'inspect', 'enumerate') for o in ops): c.bad('include:some', w, 'not every token of an included file is put into the input (%s)' % ', '.join(ops))
        if ops.count('rev') % 2 == 0: c.bad('include:order', w, 'the tokens of an included file are put in front of the input first to last: they come out reversed')

    def include(s, rec, t, d, ev, st, E, root):
        tok, pops, pushes, skips, errs, outs, conds, fronts, defs, files, incl = rec
        c, A, w = s.c, s.A, ev.where
        c.ob('include', w)
        path = path_of(d, (('v', 'Include'), ('f', '1')))
        ids, lx, it = ([x for x in incl if x.op == o] for o in ('id', 'lex', 'iter'))
        if len(ids) != 1 or ids[0].a[1] is not path: c.bad('include:path', w, 'the included file is %s, not the one named' % ', '.join(show(x.a[1], 4) for x in ids)); return
        fid = ids[0].a[0]
        if any(x.a[1] is not fid for x in lx): c.bad('include:lex', w, 'the tokens are taken from %s, not from the included file' % show(lx[0].a[1], 3)); return
        g = s.guard(E, st, fid)
        own = project(t, ('f', '0'))
        if not root and not any(x is own for x in files): c.bad('include:root', w, 'the file that is preprocessed is not noted as open before its first #include: it can include itself')
        if g is None and (it or fronts): c.bad('include:unguarded', w, 'a file is included without testing whether it is being included already: the expansion may never end'); return
        f = E.fact_var(st, lx[0].a[0]) if lx else None
        if it:
            if g or f != frozenset(['Some']): c.bad('include:again', w, 'a file that is open already, or was not found, is included')
            if it[0].a[1] != 'end': c.bad('include:dropped', w, 'the tokens of an included file are not all put into the input')
            if not any(x is fid for x in files): c.bad('include:open', w, 'an included file is not noted as open')
            if errs: c.bad('include:error', w, 'a file that is included is reported as an error')
        else:
            if f == frozenset(['Some']) and not g: c.bad('include:nothing', w, 'the tokens of an included file are not put into the input')
            elif not errs: c.bad('include:silent', w, 'an #include that includes nothing is not reported')
            elif g and not any(k.op == 'var' and f2 == ('in', frozenset(['Open'])) for k, f2 in st.facts.items()):
                c.bad('include:once', w, 'a file that was included before is reported as recursive also when it is not open any more: only its first #include puts its tokens in place')
            if any(x is fid for x in files) and f == frozenset(['None']): c.bad('include:stuck', w, 'a file that was not found is noted as open')

    def guard(s, E, st, fid):
        """whether the file is known to be open (True/False/None)"""
        def is_map(t):
            while t.op in ('with', 'upd'): t = t.a[0 if t.op == 'with' else 2]
            return t.op == 'fld' and t.a[1] in s.A.state or any(t is E.read(st, (('p', SELF), (('f', n),))) for n in s.A.state)
        for k, f in st.facts.items():
            if k.op == 'var' and k.a[0].op == 'app' and k.a[0].a[0] == 'get' and is_map(k.a[0].a[1]) and k.a[0].a[2] is fid and len(f[1]) == 1: return 'Some' in f[1]
            if k.op == 'app' and k.a[0] in ('contains_key', 'contains') and is_map(k.a[1]) and k.a[2] is fid and len(f[1]) == 1: return True in f[1]
        return None

    def tokvec(s, ty): return bool(re.search(r'Vec<\(.*FileId, .*Token, ', ty))
    def of(s, loc, names): return loc is not None and loc[0] == ('p', SELF) and len(loc[1]) >= 1 and loc[1][0][0] == 'f' and loc[1][0][1] in names
    def queue(s, t): return t.op == 'ref' and t.a[0] == (('p', A2), ()) or t is A2

    # ---- judgement of one token
    def step(s, rec, ev, st, E, end, root):
        tok, pops, pushes, skips, errs, outs, conds, fronts, defs, files, incl = rec
        c, A, w = s.c, s.A, ev.where
        if tok is None:
            if pops or pushes or outs: c.bad('early', w, 'tokens or conditionals are touched before the first token is read')
            return
        f = E.fact_var(st, tok)
        if f == frozenset(['None']): return
        if f != frozenset(['Some']): c.bad('token:untested', w, 'the token is used without testing that there is one'); return
        t = pay(tok, 'Some')
        tk = project(t, ('f', '1'))
        kinds = E.fact_var(st, tk)
        d = project(project(tk, ('v', 'PreprocessorDirective')), ('f', '0'))
        if kinds == frozenset(['PreprocessorDirective']): ks = E.fact_var(st, d) or frozenset(DIRECTIVES)
        else: ks = (kinds or frozenset(['*'])) - {'PreprocessorDirective'}
        if kinds is None or 'PreprocessorDirective' in kinds and len(kinds) > 1:
            # nothing was asked about the token
            ks = ks | frozenset(DIRECTIVES)
        for k in sorted(ks & set(DIRECTIVES)) + (['token'] if ks - set(DIRECTIVES) else []):
            if s.aspect == 'incl':
                if k == 'Include': s.include(rec, t, d, ev, st, E, root)
                elif k != 'token' or not outs: 
                    if [x for x in fronts]: c.bad('front:' + k, w, 'tokens are put into the input for %s' % NAME.get(k, k))
                continue
            s.c.ob('step: ' + k, w)
            if k in ('If', 'ElseIf', 'Else', 'EndIf'): s.conditional(k, rec, t, d, ev, st, E)
            elif pops or pushes: c.bad('stack:' + k, w, '%s changes the conditionals that are open' % NAME.get(k, k))
            elif skips: c.bad('skip:' + k, w, '%s makes the preprocessor skip tokens' % NAME.get(k, k))
            if k != 'Include' and fronts: c.bad('front:' + k, w, '%s puts tokens back into the input' % NAME.get(k, k))
            if k == 'token':
                if errs: c.bad('token:error', w, 'an ordinary token is reported as an error')
                s.token(rec, t, tk, kinds, ev, st, E)
            elif outs: c.bad('out:' + k, w, '%s changes the output of the preprocessor' % NAME[k])
            want = {'Define': ('insert', 2), 'Undef': ('remove', 1)}.get(k)
            if want is None:
                if defs: c.bad('defs:' + k, w, '%s changes the definitions' % NAME.get(k, k))
                continue
            n, m = want
            pl = [project(project(d, ('v', k)), ('f', str(i))) for i in range(m)]
            if not defs: c.bad('defs:' + k + ':none', w, '%s does not change the definitions' % NAME[k])
            for o in defs:
                if not o[0].startswith(n) or len(o) < m + 1 or any(strip(E.val(st, x)) is not y for x, y in zip(o[1:], pl)):
                    c.bad('defs:' + k + ':value', w, '%s changes the definitions by %s(%s)' % (NAME[k], o[0], ', '.join(show(x, 4) for x in o[1:])))

    def token(s, rec, t, tk, kinds, ev, st, E):
        c, w, outs = s.c, ev.where, rec[5]
        ps = [o for o in outs if o[0] == 'push']
        if len(ps) != 1: c.bad('token:count', w, 'an ordinary token ends up %d times in the output' % len(ps)); return
        v = ps[0][1]
        if len(outs) == 1:
            if not rebuilt(E, st, v, t): c.bad('token:value', w, 'an ordinary token ends up in the output as %s' % show(v, 4))
            return
        # merging of whitespace
        if [o[0] for o in outs] != ['pop', 'push'] or kinds != frozenset(['Whitespace']): c.bad('token:lost', w, 'a token already in the output is removed again'); return
        fl_ = dict(v.a[2]) if v.op == 'agg' else {}
        lastv = None
        for k, f in st.facts.items():
            if k.op == 'bin' and k.a[0] == 'Eq' and f == ('in', frozenset([True])):
                for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if x is project(t, ('f', '0')) and y.op == 'fld' and y.a[1] == '0' and is_last(y.a[0]): lastv = y.a[0]
        if lastv is None: c.bad('token:merge:file', w, 'whitespace is merged although it may be of another file'); return
        if E.fact_var(st, project(lastv, ('f', '1'))) != frozenset(['Whitespace']): c.bad('token:merge:kind', w, 'whitespace is merged with a token that may not be whitespace'); return
        sp = dict(fl_['2'].a[2]) if fl_.get('2') is not None and fl_['2'].op == 'agg' else {}
        if fl_.get('0') not in (project(t, ('f', '0')), project(lastv, ('f', '0'))) or not rebuilt(E, st, fl_.get('1', UNIT), tk) and fl_.get('1') is not project(lastv, ('f', '1')) \
                or sp.get('start') is not path_of(lastv, (('f', '2'), ('f', 'start'))) or sp.get('end') is not path_of(t, (('f', '2'), ('f', 'end'))):
            c.bad('token:merge:value', w, 'merged whitespace ends up in the output as %s' % show(v, 4))

    def conditional(s, k, rec, t, d, ev, st, E):
        tok, pops, pushes, skips, errs, outs, conds, fronts, defs, files, incl = rec
        c, A, w = s.c, s.A, ev.where
        if k in ('EndIf',):
            if len(pops) != 1 or pushes: c.bad('endif:stack', w, '#endif does not close exactly the innermost conditional'); return
            if skips: c.bad('endif:skip', w, '#endif makes the preprocessor skip tokens')
            f = E.fact_var(st, pops[0])
            if f == frozenset(['None']) and not errs: c.bad('endif:dangling', w, 'a dangling #endif is not reported')
            if (f is None or len(f) == 2) and True: c.bad('endif:untested', w, 'whether #endif closes a conditional is not tested')
            if f == frozenset(['Some']) and errs: c.bad('endif:error', w, 'a matching #endif is reported as an error')
            return
        already = None
        if k != 'If':
            if len(pops) != 1: c.bad(k + ':stack', w, '%s does not continue exactly the innermost conditional' % NAME[k]); return
            f = E.fact_var(st, pops[0])
            if f == frozenset(['None']):
                if not errs: c.bad(k + ':dangling', w, 'a dangling %s is not reported' % NAME[k])
                if pushes or skips: c.bad(k + ':dangling:effect', w, 'a dangling %s opens a conditional or skips tokens' % NAME[k])
                return
            if f != frozenset(['Some']): c.bad(k + ':untested', w, 'whether %s continues a conditional is not tested' % NAME[k]); return
            e = pay(pops[0], 'Some')
            already = project(e, ('f', A.flag)) if A.flag else e
        elif pops: c.bad('If:stack', w, '#if closes a conditional'); return
        if len(pushes) != 1: c.bad(k + ':push', w, '%s leaves %d conditionals open instead of one' % (NAME[k], len(pushes))); return
        p = pushes[0]
        flag = project(p, ('f', A.flag)) if A.flag else p
        s.entries.append((p, pay(pops[0], 'Some') if pops else None, E, st.copy(), w))
        if len(skips) > 1: c.bad(k + ':skip:twice', w, 'a branch is skipped twice'); return
        if skips and skips[0] < 1: c.bad(k + ':skip:early', w, 'a branch is skipped before its conditional is noted as open')
        body = [project(project(d, ('v', k)), ('f', '0'))]
        own = [x for x in conds if contains(x, body[0])]
        if len(own) != len(conds): c.bad(k + ':cond', w, '%s is decided by the condition %s' % (NAME[k], show(conds[0], 4))); return
        if len(own) > 1: own = own[:1]
        cv = own[0] if own else None
        for a in (True, False) if already is not None else (False,):
            if already is not None and E.fact_bool(st, already) is not None and E.fact_bool(st, already) != a: continue
            for b in (True, False) if k != 'Else' else (True,):
                env = {}
                if already is not None: env[already] = a
                if cv is not None:
                    if E.fact_bool(st, cv) is not None and E.fact_bool(st, cv) != b: continue
                    env[cv] = b
                elif k != 'Else' and not a: c.bad(k + ':undecided', w, '%s is treated without looking at its condition' % NAME[k]); return
                take = b and not a
                x = bval(E, st, flag, env)
                what = '%s whose condition is %s%s' % (NAME[k], b, ' after a branch that was taken' if a else '') if k != 'Else' else '#else after %s' % ('a branch that was taken' if a else 'no branch was taken')
                if x is None: c.bad(k + ':flag:unknown', w, 'whether a branch was taken is recorded as %s' % show(flag, 4)); return
                if x != (take or a) and k != 'Else' or k == 'Else' and x is not True: c.bad(k + ':flag', w, '%s records that %s branch was taken' % (what, 'a' if x else 'no'))
                if take and skips: c.bad(k + ':dropped', w, '%s is skipped' % what)
                if not take and not skips: c.bad(k + ':kept', w, '%s is not skipped' % what)

    entries = None

    def returned(s, rec, ev, st, E):
        tok, pops, pushes, skips, errs = rec[:5]
        if s.aspect != 'cond': return
        s.c.ob('end of the input', ev.where)
        if E.fact_var(st, tok) != frozenset(['None']) if tok is not None else True: s.c.bad('end:early', ev.where, 'the preprocessor stops before the end of its input')
        if not errs and not s.stack_empty(E, st): s.c.bad('end:open', ev.where, 'a conditional still open at the end of the input is not reported')
        if errs and s.stack_empty(E, st): s.c.bad('end:error', ev.where, 'an error is reported at the end although no conditional is open')
        for v in E.leaves(ev.val):
            if not (v.op == 'upd' and v.a[1] in ('Vec::push', 'Vec::pop') or v.op == 'call' and v.a[1] in ('Vec::new', 'Vec::with_capacity')): s.c.bad('end:result', ev.where, 'the preprocessor returns %s' % show(v, 3))

    def stack_empty(s, E, st):
        for k, f in st.facts.items():
            if k.op == 'var' and f == ('in', frozenset(['None'])) and k.a[0].op == 'app' and k.a[0].a[0] == 'get' and s.stackish(E, st, k.a[0].a[1]): return True
            if k.op == 'app' and k.a[0] == 'len' and s.stackish(E, st, k.a[1]) and f == ('in', frozenset([0])): return True
        return False

    def stackish(s, E, st, t): return t is E.read(st, (('p', SELF), (('f', s.A.stack),)))

    def paniced(s, rec, ev, st, E):
        tok = rec[0]
        if s.aspect != 'cond': return
        s.open_panics.append((ev, st.copy(), E))
    open_panics = None

    def judge(s):
        """panics that only a malformed entry of the stack can cause"""
        for ev, st, E in s.open_panics: opener(s.c, ev, st, E, s.A, s.entries)


def opener(c, ev, st, E, A, entries):
    """a panic for an entry of the stack opened by something that no entry is opened by; a sum of the lengths of two containers"""
    if ev.kind == 'assertfail' and ev.msg.startswith('Overflow(Add') and all(x.op == 'app' for x in sums(ev.cond)): c.ob('panic excluded', ev.where); return
    for k, f in st.facts.items():
        if k.op != 'var' or f[0] != 'in' or 'If' in f[1]: continue
        path, t = [], k.a[0]
        while t.op == 'fld': path.insert(0, ('f', t.a[1])); t = t.a[0]
        if t.op != 'idx' or not path: continue
        good = bool(entries)
        for p, old, E2, st2, w in entries:
            x = path_of(p, path)
            if old is not None and x is path_of(old, path): continue
            if E2.fact_var(st2, x) != frozenset(['If']): good = False
        if good: c.ob('panic excluded', ev.where); return
    c.bad('panic', ev.where, '%s: the preprocessor can panic' % (getattr(ev, 'name', '') or getattr(ev, 'msg', '') or ev.kind))


def sums(t):
    """the operands of a sum of lengths"""
    if t.op == 'un' or t.op == 'app' and t.a[0] == 'overflow': return sums(t.a[1])
    if t.op == 'fld': return sums(t.a[0])
    if t.op == 'bin' and t.a[0].startswith('Add'): return sums(t.a[1]) + sums(t.a[2])
    if t.op == 'app' and t.a[0] == 'len': return [t]
    return [mk('bot')]


NAME = {'If': '#if', 'ElseIf': '#elif', 'Else': '#else', 'EndIf': '#endif', 'Define': '#define', 'Undef': '#undef', 'Include': '#include', 'Pragma': '#pragma', 'Other': 'an unknown directive', 'token': 'an ordinary token'}


def is_last(t): return t.op == 'idx' and t.a[1].op == 'end'


def rebuilt(E, st, t, x):
    """t is x, put together again from its parts"""
    t = strip(t)
    if t is x: return True
    if t.op != 'agg': return False
    if t.a[1]:
        if E.fact_var(st, x) != frozenset([t.a[1]]): return False
        x = project(x, ('v', t.a[1]))
    return all(rebuilt(E, st, v, project(x, ('f', n))) for n, v in t.a[2])


class Skip(PP):
    """the function that skips a branch: the stack is abstracted to its height relative to the height at entry"""
    def __init__(s, c, A, base, entries): PP.__init__(s, c, A); s.base, s.entries = base, entries
    # state: height now, height when the token was read, token, tokens put back, errors, other effects
    def init(s): return (0, 0, None, (), 0, ())
    def partition(s, st, E):
        tok = st.auto[2]
        return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items() if tok is not None and contains(k, tok)))

    def model(s, name):
        if name.split('::')[0] in ('Vec', 'slice') and name.split('::')[1] in OPS: return s.op
        return PP.model(s, name)

    def op(s, E, st, c):
        a = c.args[0]
        if a.op != 'ref' or a.a[0] != (('p', SELF), (('f', s.A.stack),)): return None
        n, d, B = c.name.split('::')[1], st.auto[0], s.base
        def put(st, d, v):
            st.auto = (d,) + st.auto[1:]
            return E.finish(st, c, v)
        elem = mk('idx', mk('fld', SELF, s.A.stack), mk('end', 'last'))
        if n == 'len': return [put(st, d, const(B + d))]
        if n == 'is_empty': return [put(st, d, const(B + d == 0))]
        if n == 'push': return [put(st, min(d + 1, DEEP), UNIT)]
        if n in ('last', 'last_mut', 'first'): return [put(st, d, some(elem) if B + d > 0 else NONE)]
        if n == 'pop':
            if B + d <= 0: return [put(st, d, NONE)]
            v = some(mk('call', c.site, c.name, elem))
            return [put(st.copy(), x, v) for x in ((d - 1,) if d < DEEP else (d - 1, d))]
        if n in ('truncate', 'drain', 'split_off', 'clear'):
            k = const(0) if n == 'clear' else E.val(st, c.args[1])
            if k.op == 'agg': k = dict(k.a[2]).get('start', k)
            if k.op != 'const':
                k = s.fold(k)
            if k.op != 'const': return [put(st, min(d, -1), mk('call', c.site, c.name))]
            x = k.a[0] - B
            if n != 'truncate' and x > d: s.c.bad('skip:range', loc_str(c.span), 'the stack of conditionals is cut beyond its height')
            return [put(st, min(d, x), mk('call', c.site, c.name))]

    def fold(s, t):
        if t.op == 'bin' and t.a[1].op == 'const' and t.a[2].op == 'const':
            x, y = t.a[1].a[0], t.a[2].a[0]
            if t.a[0].startswith('Sub'): return const(x - y)
            if t.a[0].startswith('Add'): return const(x + y)
        return t

    def event(s, kind, ev, st, E):
        d, d0, tok, back, errs, other = st.auto
        c, A, F = s.c, s.A, E.final
        name = getattr(ev, 'name', '')
        q = lambda t: t.op == 'ref' and t.a[0] == (('p', A2), ()) or t is A2
        if kind == 'call' and name == 'VecDeque::pop_front' and q(ev.args[0]):
            if F: s.step(st, E, ev, False)
            return (d, d, mk('call', ev.call.site, name, A2), (), 0, ())
        if kind == 'store' and ev.how == 'call' and ev.loc == (('p', A2), ()) and name not in ('VecDeque::pop_front', 'VecDeque::reserve'):
            return (d, d0, tok, cap(back, (name, E.val(st, ev.call.args[1], 6) if len(ev.call.args) > 1 else UNIT)), errs, other)
        if kind == 'store' and ev.loc[0] == ('p', SELF) and ev.loc[1]:
            if ev.loc[1][0][1] in A.errors: return (d, d0, tok, back, min(errs + 1, 2), other)
            return (d, d0, tok, back, errs, cap(other, showloc(ev.loc)))
        if kind == 'call' and name == 'HashMap::insert': return (d, d0, tok, back, errs, cap(other, 'insert'))
        if kind == 'return' and F: s.step(st, E, ev, True)
        if kind in ('panic', 'assertfail', 'diverge') and F: opener(c, ev, st, E, A, s.entries)
        return None

    def step(s, st, E, ev, end):
        d, d0, tok, back, errs, other = st.auto
        c, w = s.c, ev.where
        if tok is None:
            if end: c.bad('skip:nothing', w, 'skipping a branch ends without looking at a token')
            return
        f = E.fact_var(st, tok)
        if f == frozenset(['None']):
            c.ob('skipping: end of the input', w)
            if back: c.bad('skip:end:back', w, 'tokens are put back at the end of the input')
            if not end: c.bad('skip:end', w, 'skipping goes on after the end of the input')
            elif errs and d >= 0: c.bad('skip:end:again', w, 'a conditional that is still open at the end of the input is reported but left open: it is reported again')
            elif not errs and d < 0: c.bad('skip:end:open', w, 'a conditional that is still open at the end of the input is not reported')
            return
        t = pay(tok, 'Some')
        tk = project(t, ('f', '1'))
        kinds = E.fact_var(st, tk)
        dd = project(project(tk, ('v', 'PreprocessorDirective')), ('f', '0'))
        ks = (E.fact_var(st, dd) or frozenset(DIRECTIVES)) if kinds is None or 'PreprocessorDirective' in kinds else frozenset()
        rest = kinds is None or kinds - {'PreprocessorDirective'}
        for k in sorted(ks) + (['token'] if rest else []):
            c.ob('skipping: %s' % k, w)
            n = NAME[k]
            if other: c.bad('skip:effect:' + k, w, '%s in a branch that is not included has an effect: %s' % (n, other[0]))
            if errs: c.bad('skip:error:' + k, w, '%s in a branch that is not included is reported as an error' % n)
            here = d0 == 0
            stops = here and k in ('ElseIf', 'Else', 'EndIf')
            puts = here and k in ('ElseIf', 'Else')
            want = d0 + {'If': 1, 'EndIf': -1}.get(k, 0)
            at = 'of the same conditional' if here else 'of a conditional inside the branch'
            if end != stops: c.bad('skip:%s:%s' % ('goes' if stops else 'stops', k), w, ('%s %s does not end the skipped branch' if stops else '%s %s ends the skipped branch') % (n, at if k in ('ElseIf', 'Else', 'EndIf') else ''))
            elif bool(back) != puts: c.bad('skip:%s:%s' % ('lost' if puts else 'back', k), w, ('%s %s is not left to be treated' if puts else '%s %s is put back into the input') % (n, at))
            elif puts and (len(back) != 1 or back[0][0] != 'VecDeque::push_front' or not rebuilt(E, st, back[0][1], t)): c.bad('skip:back:value:' + k, w, '%s is put back as %s' % (n, ', '.join(x[0] + ' ' + show(x[1], 4) for x in back)))
            if min(want, DEEP) != d and not (d0 == DEEP and k == 'EndIf' and d in (DEEP, DEEP - 1)): c.bad('skip:height:' + k, w, 'after %s %s the number of open conditionals is off by %d' % (n, at, d - want))


OPS = ('len', 'is_empty', 'push', 'pop', 'last', 'last_mut', 'first', 'truncate', 'drain', 'split_off', 'clear')


def steps(c, aspect):
    P = c.program(UNITS)
    A = Anchors(c, P)
    if not A.ok: return None, None, None
    r = Step(c, A, aspect)
    r.entries, r.open_panics = [], []
    c.run_engine(P, r, A.main, maxpart=400)
    r.judge()
    return P, A, r


def conditionals(c):
    c.rule('conditionals', 'for every token the loop treats, the stack of conditionals, the skipping, the output and the definitions change as the kind of the token, its condition and the branches already taken demand; while skipping, the height of the stack relative to the entry decides which #elif, #else and #endif ends the branch')
    P, A, r = steps(c, 'cond')
    if P is None: return
    for base in (1, 1000): c.run_engine(P, Skip(c, A, base, r.entries), A.skip, maxpart=400)
    for k in DIRECTIVES: c.floor('step: ' + k, 1); c.floor('skipping: ' + k, 1)
    for k in ('step: token', 'skipping: token', 'end of the input', 'skipping: end of the input'): c.floor(k, 1)


def includes(c):
    c.rule('includes', 'an #include puts the tokens of the file it names, all of them, in order and marked as being of that file, in front of the rest of the input, exactly if that file is found and is not open; a file is noted as open before its tokens are read')
    P, A, r = steps(c, 'incl')
    if P is None: return
    query(c, A)
    for k in ('include', 'token of an included file', 'name of an included file', 'tokens of an included file', 'token of the file', 'report of an error', 'result'): c.floor(k, 1)


class Query(Rule):
    """the query that preprocesses a file: which file an #include names, where its tokens come from, what is reported.  Ghost: the results of the two closures"""
    def __init__(s, c, A, lexid): s.c, s.A, s.P, s.lexid = c, A, A.P, lexid
    def init(s): return ((), ())        # accumulated dependencies, ids of the closures being followed
    def stop(s, fid): return fid == s.lexid or 'preprocessor::' in fid and '{closure' not in fid

    def model(s, name):
        if name == 'Clone::clone': return same_clone

    def event(s, kind, ev, st, E):
        deps, open_ = st.auto
        c, F, name = s.c, E.final, getattr(ev, 'name', '')
        if kind == 'enter' and any(x.op == 'carg' for x in ev.args): return ((), open_ + ((ev.id, next(x for x in ev.args if x.op == 'carg')),))
        if kind == 'leave' and open_ and open_[-1][0] == ev.id:
            if F: s.closure(open_[-1][1], deps, ev, st, E)
            return ((), open_[:-1])
        if kind == 'ret' and last(name, 2).endswith('accumulate'):
            v = E.val(st, ev.args[0])
            if v.op == 'agg' and 'is_resolved' in dict(v.a[2]): return (cap(deps, v), open_)
            if v.op == 'agg' and 'message' in dict(v.a[2]) and F and not open_:
                f = dict(v.a[2])
                c.ob('report of an error', ev.where)
                if f['file'].op != 'fld' or f['location'].op != 'fld' or f['file'].a[0] is not f['location'].a[0] or not any(x.op == 'fld' and x.a[1] in s.A.errors for x in subterms(f['file'])): c.bad('report:place', ev.where, 'an error is reported in %s at %s' % (show(f['file'], 3), show(f['location'], 3)))
        if kind == 'collected' and F and not open_ or kind == 'store' and ev.how == 'call' and F and not open_ and name in ('VecDeque::push_back', 'Vec::push'):
            v = E.val(st, ev.val if kind == 'collected' else ev.call.args[1], 6)
            if v.op == 'agg' and len(v.a[2]) == 3:
                f = dict(v.a[2])
                c.ob('token of the file', ev.where)
                el = next((x for x in subterms(v) if x.op == 'elem'), None)
                if f['0'] is not mk('arg', 3) or el is None or f['1'] is not project(el, ('f', '0')) or f['2'] is not project(el, ('f', '1')): c.bad('root:token', ev.where, 'the preprocessor is given %s' % show(v, 5))
                elif not s.lexed(el.a[2], mk('arg', 3)): c.bad('root:lexed', ev.where, 'the tokens given to the preprocessor are %s' % show(el, 5))
        if kind == 'return' and F:
            c.ob('result', ev.where)
        return None

    def lexed(s, t, fid):
        """t: the lexemes of the file fid"""
        ls = [x for x in subterms(t) if x.op == 'call' and x.a[1].endswith('lex')]
        return len(ls) == 1 and ls[0].a[3] is fid and any(x.op == 'idx' and x.a[1] is fid for x in subterms(ls[0].a[4])) and not any(x.op == 'arg' and x.a[0] == 3 and x is not fid for x in subterms(t))

    def closure(s, arg, deps, ev, st, E):
        c, w = s.c, ev.where
        vs = list(E.leaves(ev.val))
        opt = all(v.op == 'agg' and last(v.a[0]) == 'Option' for v in vs)
        if not opt and vs and not any('Option' in l for l in [s.P.fns[ev.id]['locals'][0]['t']]):
            c.ob('name of an included file', w)
            for v in vs:
                calls = [x for x in subterms(v) if x.op == 'call' and x.a[1].endswith('resolve_path')]
                if len(calls) != 1: c.bad('resolve:none', w, 'the name of an included file is not resolved: %s' % show(v, 4)); continue
                if strip(calls[0].a[4]) is not arg: c.bad('resolve:name', w, 'the included file is %s, not the one named' % show(calls[0].a[4], 3))
                base = calls[0].a[3]
                if base is mk('arg', 3): c.bad('resolve:base', w, 'the name of an included file is resolved against the file that is preprocessed, also where it occurs in an included file in another folder')
                elif not any(x.op == 'carg' for x in subterms(base)): c.bad('resolve:foreign', w, 'the name of an included file is resolved against %s' % show(base, 3))
            return
        c.ob('tokens of an included file', w)
        for v in vs:
            found = v.op == 'agg' and v.a[1] == 'Some'
            if v.op == 'agg' and v.a[1] == 'Some' and not s.lexed(v, arg): c.bad('lexed', w, 'the tokens of an included file are %s' % show(v, 5))
        if len(deps) != 1: c.bad('dependency', w, 'an included file is noted %d times as a dependency' % len(deps)); return
        f = dict(deps[0].a[2])
        if f['file_id'] is not arg: c.bad('dependency:file', w, 'the dependency noted is %s, not the included file' % show(f['file_id'], 3))
        got = {v.a[1] == 'Some' for v in vs if v.op == 'agg'}
        r = E.fact_bool(st, f['is_resolved']) if f['is_resolved'].op != 'const' else bool(f['is_resolved'].a[0])
        if r is None and len(got) == 1: c.bad('dependency:found', w, 'whether a dependency was found is noted as %s' % show(f['is_resolved'], 3))
        elif len(got) == 1 and got != {r}: c.bad('dependency:found', w, 'a dependency that was %sfound is noted as %sfound' % ('' if True in got else 'not ', '' if r else 'not '))


def query(c, A):
    P = A.P
    ids = [f['id'] for f in P.fns.values() if f['unit'] == 'analyzer_core' and f['kind'] in ('fn', 'method') and f['argc'] == 3]
    tys = lambda i: [l['t'] for l in P.fns[i]['locals'][:4]]
    pre = [i for i in ids if re.search(r'\bFs\b', tys(i)[2]) and 'FileId' in tys(i)[3] and 'Option<' in tys(i)[0]]
    lx = [i for i in ids if 'FileId' in tys(i)[2] and re.search(r'\bBuffer\b', tys(i)[3])]
    for what, x in (('the query that preprocesses a file', pre), ('the query that lexes a file', lx)):
        if not x: c.missing(what)
    for b in [i for i in pre if '{impl' in i] or pre:
        c.run_engine(P, Query(c, A, next((i for i in lx if '{impl' not in i), None)), b)
