"""Models of the standard-library (and runtime) functions the workspace uses.  Every model is a small piece of the CFG:
it returns the successors of the call, running closure arguments inline."""
from engine import *

MODELS = {}


def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d


# ---------------------------------------------------------------- pointers and wrappers
@model('Deref::deref', 'DerefMut::deref_mut', 'LocalKey::get')
def m_deref(E, st, c):
    a = c.args[0]
    sty = c.fr.get('rself') or c.fr.get('self_ty') or (c.fr.get('args') or [''])[0]
    fid = c.fr.get('rid')
    if fid in E.P.fns:      # lazy_static and friends
        return [E.finish(st, c, mk('static', fid))]
    head = tyhead(sty) if sty else ''
    if a.op == 'ref':
        v = E.read(st, a.a[0])
        if head in SMART or v.op in ('ref', 'box'):
            E.emit('deref', st, c.ctx, c.span, val=v, name=c.name, call=c)
            return [E.finish(st, c, v)]
        return [E.finish(st, c, a)]
    if head in SMART: E.emit('deref', st, c.ctx, c.span, val=a, name=c.name, call=c)
    return [E.finish(st, c, a)]


@model('Arc::new', 'Rc::new', 'Box::new', 'Box::pin', 'Arc::pin')
def m_box(E, st, c):
    return [E.finish(st, c, mk('box', c.site, c.args[0]))]


@model('box_assume_init_into_vec_unsafe', 'boxed::box_assume_init_into_vec_unsafe')
def m_vecmac(E, st, c):
    a = c.args[0]
    if a.op == 'ref' and a.a[0][0][0] == 'h':
        v = E.read(st, (a.a[0][0], a.a[0][1] + (('f', 'value'), ('f', 'value'))))
        return [E.finish(st, c, v)]
    return [E.finish(st, c, strip(E.val(st, a)))]


@model('Box::new_uninit')
def m_newuninit(E, st, c):
    for k in [k for k in st.env if k[0] == ('h', c.site)]: st.env.pop(k)
    return [E.finish(st, c, ref((('h', c.site), ())))]


@model('slice::into_vec')
def m_into_vec(E, st, c): return [E.finish(st, c, strip(c.args[0]))]


@model('mem::drop')
def m_drop(E, st, c):
    E.emit('drop', st, c.ctx, c.span, loc=None, val=c.args[0], ty=E.argty(c, 0))
    return [E.finish(st, c, UNIT)]


@model('mem::replace', 'Option::replace', 'Cell::replace')
def m_replace(E, st, c):
    loc = E.pointee(c.args[0])
    old = E.read(st, loc)
    v = some(c.args[1]) if c.name.startswith('Option') else c.args[1]
    E.emit('store', st, c.ctx, c.span, loc=loc, val=v, how='call', name=c.name, call=c)
    E.write(st, loc, v)
    return [E.finish(st, c, old)]


@model('Option::insert')
def m_insert(E, st, c):
    loc = E.pointee(c.args[0])
    v = some(c.args[1])
    E.emit('store', st, c.ctx, c.span, loc=loc, val=v, how='call', name=c.name, call=c)
    E.write(st, loc, v)
    return [E.finish(st, c, ref((loc[0], loc[1] + (('v', 'Some'), ('f', '0')))))]


@model('Option::take', 'mem::take')
def m_take(E, st, c):
    loc = E.pointee(c.args[0])
    old = E.read(st, loc)
    v = NONE if c.name.startswith('Option') else app('default')
    E.emit('store', st, c.ctx, c.span, loc=loc, val=v, how='call', name=c.name, call=c)
    E.write(st, loc, v)
    return [E.finish(st, c, old)]


@model('mem::swap')
def m_swap(E, st, c):
    a, b = E.pointee(c.args[0]), E.pointee(c.args[1])
    x, y = E.read(st, a), E.read(st, b)
    E.emit('store', st, c.ctx, c.span, loc=a, val=y, how='call', name=c.name, call=c)
    E.write(st, a, y)
    E.emit('store', st, c.ctx, c.span, loc=b, val=x, how='call', name=c.name, call=c)
    E.write(st, b, x)
    return [E.finish(st, c, UNIT)]


# ---------------------------------------------------------------- Option / Result
VARS = {'Option': ('Some', 'None'), 'Result': ('Ok', 'Err'), 'Poll': ('Ready', 'Pending')}


def fork(E, st, t, yes, no):
    """-> list of (variant, state) for the feasible variants"""
    out = []
    for v in (yes, no):
        s2 = st.copy()
        if E.assume_var(s2, t, frozenset([v]), True, (yes, no)): out.append((v, s2))
    return out


def kind_of(c):
    return c.name.split('::')[0]


def self_val(E, st, c):
    a = c.args[0]
    return E.val(st, a, 1) if a.op == 'ref' else a


@model('Option::is_some', 'Result::is_ok', 'Option::is_none', 'Result::is_err', 'Poll::is_pending', 'Poll::is_ready')
def m_is(E, st, c):
    t = E.val(st, c.args[0])
    v = {'is_some': 'Some', 'is_none': 'None', 'is_ok': 'Ok', 'is_err': 'Err', 'is_pending': 'Pending', 'is_ready': 'Ready'}[c.name.split('::')[1]]
    base, s = E.variant_key(t, frozenset([v]))
    if base.op == 'agg' and base.a[1]: return [E.finish(st, c, const(base.a[1] in s))]
    return [E.finish(st, c, mk('isvar', t, frozenset([v]), VARS[kind_of(c)]))]


@model('Option::unwrap', 'Result::unwrap', 'Option::expect', 'Result::expect', 'Option::unwrap_unchecked', 'Result::unwrap_err')
def m_unwrap(E, st, c):
    good, bad = VARS[kind_of(c)]
    if c.name.endswith('unwrap_err'): good, bad = bad, good
    t = c.args[0]
    if t.op == 'ref' and not E.argty(c, 0).startswith(('core::option', 'core::result')): t = E.val(st, t)
    out = []
    for v, s2 in fork(E, st, t, good, bad):
        if v == good: out.append(E.finish(s2, c, pay(t, good)))
        else: E.emit('panic', s2, c.ctx, c.span, name=c.name, args=[t], call=c)
    return out


@model('Option::unwrap_or', 'Result::unwrap_or', 'Option::unwrap_or_default', 'Result::unwrap_or_default')
def m_unwrap_or(E, st, c):
    good, bad = VARS[kind_of(c)]
    t = c.args[0]
    ty = str(((c.fr or {}).get('args') or ['?'])[0])
    d = c.args[1] if len(c.args) > 1 else FALSE if ty == 'bool' else mk('const', 0) if re.match(r'[iu](\d+|size)$', ty) else app('default')
    return [E.finish(s2, c, pay(t, good) if v == good else d) for v, s2 in fork(E, st, t, good, bad)]


def closure_model(wrap_good, wrap_bad, run_on, mode):
    pass


def _hof(E, st, c, spec):
    """spec: variant -> ('call', closure arg index, payload?, wrap) | ('val', fn(E,st,c,payload))"""
    good, bad = VARS[kind_of(c)]
    t = c.args[0]
    if t.op == 'ref' and E.argty(c, 0).startswith('&'): t = E.val(st, t)
    if c.stage is None:
        out = []
        for v, s2 in fork(E, st, t, good, bad):
            sp = spec[v]
            p = pay(t, v) if v != 'None' else None
            if sp[0] == 'val': out.append(E.finish(s2, c, sp[1](t, p, c.args)))
            else:
                args = [p] if sp[2] else []
                nx = E.call_closure(s2, c, c.args[sp[1]], args, 'r' + v)
                if nx is None:
                    r = mk('call', c.site + '.' + v, 'closure', *args)
                    E.refresh(s2, r)
                    out += _hof_ret(E, s2, c, spec, v, r)
                else: out.append(nx)
        return out
    return _hof_ret(E, st, c, spec, c.stage[1:], E.ret(st, c))


def _hof_ret(E, st, c, spec, v, r):
    w = spec[v][3]
    p = pay(c.args[0], v) if v != 'None' else None
    x = w(r, p)
    if isinstance(x, list):          # [(bool test, True value, False value)]
        test, yes, no = x[0]
        out = []
        s2 = st.copy()
        if E.assume(s2, test, True): out.append(E.finish(s2, c, yes))
        if E.assume(st, test, False): out.append(E.finish(st, c, no))
        return out
    return [E.finish(st, c, x)]


HOF = {
    'Option::map': {'Some': ('call', 1, 1, lambda r, p: some(r)), 'None': ('val', lambda t, p, a: NONE)},
    'Option::and_then': {'Some': ('call', 1, 1, lambda r, p: r), 'None': ('val', lambda t, p, a: NONE)},
    'Option::map_or': {'Some': ('call', 2, 1, lambda r, p: r), 'None': ('val', lambda t, p, a: a[1])},
    'Option::map_or_else': {'Some': ('call', 2, 1, lambda r, p: r), 'None': ('call', 1, 0, lambda r, p: r)},
    'Option::unwrap_or_else': {'Some': ('val', lambda t, p, a: p), 'None': ('call', 1, 0, lambda r, p: r)},
    'Option::ok_or_else': {'Some': ('val', lambda t, p, a: ok(p)), 'None': ('call', 1, 0, lambda r, p: err(r))},
    'Option::or_else': {'Some': ('val', lambda t, p, a: some(p)), 'None': ('call', 1, 0, lambda r, p: r)},
    'Option::ok_or': {'Some': ('val', lambda t, p, a: ok(p)), 'None': ('val', lambda t, p, a: err(a[1]))},
    'Option::or': {'Some': ('val', lambda t, p, a: some(p)), 'None': ('val', lambda t, p, a: a[1])},
    'Option::and': {'Some': ('val', lambda t, p, a: a[1]), 'None': ('val', lambda t, p, a: NONE)},
    'Option::filter': {'Some': ('call', 1, 1, lambda r, p: [(r, some(p), NONE)]), 'None': ('val', lambda t, p, a: NONE)},
    'Option::is_some_and': {'Some': ('call', 1, 1, lambda r, p: r), 'None': ('val', lambda t, p, a: FALSE)},
    'Option::is_none_or': {'Some': ('call', 1, 1, lambda r, p: r), 'None': ('val', lambda t, p, a: TRUE)},
    'Option::inspect': {'Some': ('call', 1, 1, lambda r, p: some(p)), 'None': ('val', lambda t, p, a: NONE)},
    'Result::map': {'Ok': ('call', 1, 1, lambda r, p: ok(r)), 'Err': ('val', lambda t, p, a: err(p))},
    'Result::map_err': {'Err': ('call', 1, 1, lambda r, p: err(r)), 'Ok': ('val', lambda t, p, a: ok(p))},
    'Result::and_then': {'Ok': ('call', 1, 1, lambda r, p: r), 'Err': ('val', lambda t, p, a: err(p))},
    'Result::or_else': {'Err': ('call', 1, 1, lambda r, p: r), 'Ok': ('val', lambda t, p, a: ok(p))},
    'Result::map_or': {'Ok': ('call', 2, 1, lambda r, p: r), 'Err': ('val', lambda t, p, a: a[1])},
    'Result::map_or_else': {'Ok': ('call', 2, 1, lambda r, p: r), 'Err': ('call', 1, 1, lambda r, p: r)},
    'Result::unwrap_or_else': {'Ok': ('val', lambda t, p, a: p), 'Err': ('call', 1, 1, lambda r, p: r)},
    'Result::is_ok_and': {'Ok': ('call', 1, 1, lambda r, p: r), 'Err': ('val', lambda t, p, a: FALSE)},
    'Result::is_err_and': {'Err': ('call', 1, 1, lambda r, p: r), 'Ok': ('val', lambda t, p, a: FALSE)},
    'Result::ok': {'Ok': ('val', lambda t, p, a: some(p)), 'Err': ('val', lambda t, p, a: NONE)},
    'Result::err': {'Err': ('val', lambda t, p, a: some(p)), 'Ok': ('val', lambda t, p, a: NONE)},
    'Result::or': {'Ok': ('val', lambda t, p, a: ok(p)), 'Err': ('val', lambda t, p, a: a[1])},
    'Result::and': {'Ok': ('val', lambda t, p, a: a[1]), 'Err': ('val', lambda t, p, a: err(p))},
    'Poll::map': {'Ready': ('call', 1, 1, lambda r, p: ready(r)), 'Pending': ('val', lambda t, p, a: agg('Poll', 'Pending', ()))},
}
for _n, _s in HOF.items(): MODELS[_n] = (lambda s: lambda E, st, c: _hof(E, st, c, s))(_s)


@model('Option::transpose')
def m_transpose(E, st, c):
    t, out = c.args[0], []
    for v, s2 in fork(E, st, t, 'Some', 'None'):
        if v == 'None': out.append(E.finish(s2, c, ok(NONE))); continue
        p = pay(t, 'Some')
        for w, s3 in fork(E, s2, p, 'Ok', 'Err'): out.append(E.finish(s3, c, ok(some(pay(p, 'Ok'))) if w == 'Ok' else err(pay(p, 'Err'))))
    return out


@model('Result::transpose')
def m_transpose2(E, st, c):
    t, out = c.args[0], []
    for v, s2 in fork(E, st, t, 'Ok', 'Err'):
        p = pay(t, v)
        if v == 'Err': out.append(E.finish(s2, c, some(err(p)))); continue
        for w, s3 in fork(E, s2, p, 'Some', 'None'): out.append(E.finish(s3, c, some(ok(pay(p, 'Some'))) if w == 'Some' else NONE))
    return out


@model('Option::flatten')
def m_flatten(E, st, c):
    t = c.args[0]
    return [E.finish(s2, c, pay(t, 'Some') if v == 'Some' else NONE) for v, s2 in fork(E, st, t, 'Some', 'None')]


@model('bool::then', 'bool::then_some')
def m_then(E, st, c):
    if c.stage == 'r': return [E.finish(st, c, some(E.ret(st, c)))]
    out = []
    s2 = st.copy()
    if E.assume(s2, c.args[0], False): out.append(E.finish(s2, c, NONE))
    if E.assume(st, c.args[0], True):
        if c.name.endswith('then_some'): out.append(E.finish(st, c, some(c.args[1])))
        else:
            nx = E.call_closure(st, c, c.args[1], [], 'r')
            out.append(nx or E.finish(st, c, some(mk('call', c.site, 'closure'))))
    return out


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def m_get_or_insert(E, st, c):
    loc = E.pointee(c.args[0])
    res = ref((loc[0], loc[1] + (('v', 'Some'), ('f', '0'))))
    if c.stage == 'r':
        v = some(E.ret(st, c))
        E.emit('store', st, c.ctx, c.span, loc=loc, val=v, how='call', name=c.name, call=c)
        E.write(st, loc, v)
        return [E.finish(st, c, res)]
    out = []
    for v, s2 in fork(E, st, E.read(st, loc), 'Some', 'None'):
        if v == 'Some': out.append(E.finish(s2, c, res))
        elif c.name.endswith('insert'):
            E.emit('store', s2, c.ctx, c.span, loc=loc, val=some(c.args[1]), how='call', name=c.name, call=c)
            E.write(s2, loc, some(c.args[1])); out.append(E.finish(s2, c, res))
        else:
            nx = E.call_closure(s2, c, c.args[1], [], 'r')
            out.append(nx or E.finish(s2, c, res))
    return out


@model('Try::branch')
def m_branch(E, st, c):
    t = c.args[0]
    kind = 'Option' if 'Option' in (c.fr.get('rname') or c.fr.get('self_ty') or '') or E.argty(c, 0).startswith('core::option') else 'Result'
    good, bad = VARS[kind]
    if t.op == 'agg' and t.a[1] == good: return [E.finish(st, c, agg('ControlFlow', 'Continue', (('0', pay(t, good)),)))]
    if t.op == 'agg' and t.a[1] == bad: return [E.finish(st, c, agg('ControlFlow', 'Break', (('0', t),)))]
    return [E.finish(st, c, mk('tryb', kind, t))]


@model('FromResidual::from_residual')
def m_resid(E, st, c):
    t = c.args[0]
    if t.op == 'resid' and t.a[0] == 'Result': return [E.finish(st, c, err(app('from', pay(t.a[1], 'Err'))))]
    if t.op == 'resid': return [E.finish(st, c, NONE)]
    if t.op == 'agg' and t.a[1] == 'Err': return [E.finish(st, c, err(app('from', pay(t, 'Err'))))]
    if t.op == 'agg' and t.a[1] == 'None': return [E.finish(st, c, NONE)]
    return None


@model('Try::from_output')
def m_fromout(E, st, c):
    return [E.finish(st, c, ok(c.args[0]) if 'Result' in E.P and False else mk('tryout', c.args[0]))] if False else None


# ---------------------------------------------------------------- comparisons
def _cmp(op):
    def f(E, st, c):
        a, b = E.val(st, c.args[0]), E.val(st, c.args[1])
        fid = c.fr.get('rid')
        if a.op == 'box': a = strip(a)
        if b.op == 'box': b = strip(b)
        if getattr(E.rule, 'see_bin', False): E.emit('bin', st, c.ctx, c.span, op=op, a=a, b=b)
        r = E.binop(op, a, b)
        E.emit('call', st, c.ctx, c.span, name=c.name, args=[a, b], fr=c.fr, id=fid, call=c)
        # comparing against an Option/Result constructor: a variant test when the payload decides nothing
        return [E.finish(st, c, r)]
    return f


for _m, _o in (('PartialEq::eq', 'Eq'), ('PartialEq::ne', 'Ne'), ('PartialOrd::lt', 'Lt'), ('PartialOrd::le', 'Le'), ('PartialOrd::gt', 'Gt'), ('PartialOrd::ge', 'Ge')):
    MODELS[_m] = _cmp(_o)


def _arith(op):
    def f(E, st, c):
        tys = E.argty(c, 0)
        if not re.match(r"^&?('\w+ )?(usize|isize|[iu]\d+)$", tys): return None
        return [E.finish(st, c, E.binop(op, E.val(st, c.args[0]), E.val(st, c.args[1])))]
    return f


for _m in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr'):
    MODELS['%s::%s' % (_m, _m.lower())] = _arith(_m)


def _arith_assign(op):
    def f(E, st, c):
        tys = E.argty(c, 0)
        if not re.match(r"^&('\w+ )?mut (usize|isize|[iu]\d+)$", tys): return None
        loc = E.pointee(c.args[0])
        v = E.binop(op, E.read(st, loc), E.val(st, c.args[1]))
        E.emit('store', st, c.ctx, c.span, loc=loc, val=v, how='call', name=c.name, call=c)
        E.write(st, loc, v)
        return [E.finish(st, c, UNIT)]
    return f


for _m in ('Add', 'Sub', 'Mul', 'Div'):
    MODELS['%sAssign::%s_assign' % (_m, _m.lower())] = _arith_assign(_m)


# ---------------------------------------------------------------- indexing
@model('Index::index', 'IndexMut::index_mut')
def m_index(E, st, c):
    if c.fr.get('rid') in E.P.fns: return None
    base, i = c.args[0], E.val(st, c.args[1])
    E.emit('index', st, c.ctx, c.span, base=E.val(st, base), idx=i, call=c, name=c.name)
    if base.op == 'ref': loc = base.a[0]
    else: loc = (('p', base), ())
    return [E.finish(st, c, ref((loc[0], loc[1] + (('i', i),))))]


@model('slice::get', 'slice::get_mut', 'HashMap::get', 'HashMap::get_mut', 'str::get', 'Vec::get', 'BTreeMap::get', 'BTreeMap::get_mut', 'Source::slice', 'slice::get_unchecked')
def m_get(E, st, c):
    base, i = c.args[0], E.val(st, c.args[1])
    v = app('get', E.val(st, base), i)
    E.emit('call', st, c.ctx, c.span, name=c.name, args=[E.val(st, base), i], fr=c.fr, id=None, call=c)
    loc = base.a[0] if base.op == 'ref' else (('p', base), ())
    if c.name == 'slice::get_unchecked': return [E.finish(st, c, ref((loc[0], loc[1] + (('i', i),))))]
    return [E.finish(st, c, mk('optref', v, (loc[0], loc[1] + (('i', i),))))]


@model('slice::last', 'slice::last_mut', 'slice::first', 'slice::first_mut', 'Vec::last', 'Vec::first', 'VecDeque::front', 'VecDeque::back', 'VecDeque::back_mut', 'VecDeque::front_mut')
def m_last(E, st, c):
    base = c.args[0]
    w = 'last' if 'last' in c.name or 'back' in c.name else 'first'
    bv = E.val(st, base)
    i = mk('end', w)
    loc = base.a[0] if base.op == 'ref' else (('p', base), ())
    return [E.finish(st, c, mk('optref', app('get', bv, i), (loc[0], loc[1] + (('i', i),))))]


@model('Option::as_ref', 'Option::as_mut')
def m_asref(E, st, c):
    a = c.args[0]
    if a.op != 'ref': loc = (('p', a), ())
    else: loc = a.a[0]
    v = E.read(st, loc)
    if v.op == 'ref' or v.op == 'box': return [E.finish(st, c, a)]
    return [E.finish(st, c, mk('optref', v, (loc[0], loc[1] + (('v', 'Some'), ('f', '0')))))]


# ---------------------------------------------------------------- futures
@model('Future::poll')
def m_poll(E, st, c):
    if c.span.get('d') != 'Await':
        return None
    p = c.args[0]
    f = p
    for _ in range(4):
        f = strip(f)
        if f.op == 'ref': f = E.read(st, f.a[0])
        else: break
    f = strip(f)
    if c.stage == 'aw':
        return [E.finish(st, c, ready(E.ret(st, c)))]
    if f.op == 'agg' and f.a[0] == 'coroutine' and f.a[1] in E.P.fns and not E.in_stack(c.ctx, f.a[1]) and c.ctx.depth < E.MAXDEPTH:
        return [E.enter(st, c, E.P.fns[f.a[1]], [f, mk('resume', c.site)], 'aw')]
    E.emit('await', st, c.ctx, c.span, fut=f, call=c)
    v = mk('call', c.site, 'await', f)
    E.refresh(st, v)
    E.emit('ret', st, c.ctx, c.span, name='await', args=[f], val=v, call=c)
    return [E.finish(st, c, ready(v))]


@model('future::get_context')
def m_getctx(E, st, c): return [E.finish(st, c, mk('cx'))]


# ---------------------------------------------------------------- direct closure calls
@model('FnOnce::call_once', 'Fn::call', 'FnMut::call_mut')
def m_call(E, st, c):
    if c.stage == 'cc': return [E.finish(st, c, E.ret(st, c))]
    tup = c.args[1]
    args = [v for _, v in tup.a[2]] if tup.op == 'agg' else [tup]
    nx = E.call_closure(st, c, c.args[0], args, 'cc')
    if nx: return [nx]
    E.emit('call', st, c.ctx, c.span, name='<closure>', args=[c.args[0]] + args, fr=c.fr, id=None, call=c)
    v = mk('call', c.site, 'closure', strip(E.val(st, c.args[0])), *args)
    E.refresh(st, v)
    return [E.finish(st, c, v)]


@model('LocalKey::with', 'Option::inspect_none')
def m_with(E, st, c):
    if c.stage == 'w': return [E.finish(st, c, E.ret(st, c))]
    nx = E.call_closure(st, c, c.args[1], [c.args[0]], 'w')
    return [nx] if nx else None


def maybe_closures(E, st, c):
    """closures handed to an unknown function run zero or more times, in any order"""
    cls = [(i, a) for i, a in enumerate(c.args) if E.closure_of(st, a) is not None and E.closure_of(st, a).op == 'agg']
    out = []
    if c.stage is None:
        E.emit('call', st, c.ctx, c.span, name=c.name, args=c.args, fr=c.fr, id=(c.fr or {}).get('id'), call=c)
    for i, a in cls:
        s2 = st.copy()
        fn = E.P.fns[E.closure_of(st, a).a[1]]
        args = [mk('carg', c.site, i, j) for j in range(fn['argc'] - 1)]
        for x in args: E.refresh(s2, x)
        nx = E.call_closure(s2, c, a, args, 'maybe%d' % i)
        if nx: out.append(nx)
    r = E.opaque(st, c, emit=False)
    return out + r


# ---------------------------------------------------------------- iterators
# an iterator value is a term  it(kind, base, stages)
def iterm(kind, base, stages=()): return mk('it', kind, base, tuple(stages))


ITSRC = {'slice::iter': 'ref', 'slice::iter_mut': 'mut', 'Vec::iter': 'ref', 'HashMap::iter': 'ref', 'HashMap::iter_mut': 'mut', 'HashMap::values': 'values', 'HashMap::values_mut': 'valuesmut', 'HashMap::keys': 'keys',
         'str::chars': 'chars', 'str::bytes': 'bytes', 'str::char_indices': 'char_indices', 'str::lines': 'lines', 'VecDeque::iter': 'ref', 'HashMap::into_values': 'values',
         'HashSet::iter': 'ref', 'BTreeMap::iter': 'ref', 'Option::iter': 'ref', 'HashMap::into_keys': 'keys', 'VecDeque::iter_mut': 'mut', 'Option::into_iter': 'val', 'slice::windows': 'windows', 'slice::chunks': 'chunks',
         'Vec::drain': 'drain', 'HashMap::drain': 'drain', 'VecDeque::drain': 'drain', 'String::drain': 'drain'}


def m_itsrc(E, st, c):
    k = ITSRC[c.name]
    a = c.args[0]
    if k in ('mut', 'valuesmut'):
        loc = a.a[0] if a.op == 'ref' else (('p', a), ())
        return [E.finish(st, c, iterm(k, ref(loc)))]
    if k == 'drain': return None
    return [E.finish(st, c, iterm(k, E.val(st, a)))]


for _n in ITSRC: MODELS[_n] = m_itsrc


@model('IntoIterator::into_iter')
def m_intoiter(E, st, c):
    a = c.args[0]
    v = E.val(st, a) if a.op == 'ref' else a
    if v.op == 'it': return [E.finish(st, c, v)]
    ty = E.argty(c, 0)
    if c.fr.get('rid') in E.P.fns: return None
    if ty.startswith('&mut') or re.match(r"^&'\w+ mut", ty):
        loc = a.a[0] if a.op == 'ref' else (('p', a), ())
        return [E.finish(st, c, iterm('mut', ref(loc)))]
    h = tyhead(ty)
    if h in ('Range', 'RangeInclusive', 'RangeFrom'): return [E.finish(st, c, iterm('range', v))]
    if ty.startswith('&'): return [E.finish(st, c, iterm('ref', v))]
    return [E.finish(st, c, iterm('val', v))]


@model('iter::repeat', 'iter::once', 'repeat::repeat', 'once::once', 'iter::empty', 'repeat_with::repeat_with', 'repeat_n::repeat_n')
def m_itgen(E, st, c): return [E.finish(st, c, iterm(c.name.split('::')[1], agg('tuple', '', [(str(i), a) for i, a in enumerate(c.args)])))]


@model('RangeInclusive::new')
def m_ri(E, st, c): return [E.finish(st, c, agg('RangeInclusive', '', (('start', c.args[0]), ('end', c.args[1]))))]


ADAPT = 'map filter enumerate rev skip take skip_while take_while filter_map peekable zip chain inspect step_by flat_map flatten cloned copied map_while fuse scan'.split()


def _as_it(E, st, t):
    if t.op == 'ref': t = E.val(st, t)
    if t.op == 'it': return t
    if t.op == 'agg' and t.a[0] in ('Range', 'RangeInclusive', 'RangeFrom'): return iterm('range', t)
    return None


def m_adapt(E, st, c):
    t = _as_it(E, st, c.args[0])
    if t is None: t = iterm('val', E.val(st, c.args[0]))
    n = c.name.split('::')[1]
    if n in ('cloned', 'copied', 'peekable', 'fuse'): return [E.finish(st, c, t)]
    return [E.finish(st, c, iterm(t.a[0], t.a[1], t.a[2] + ((n,) + tuple(c.args[1:]),)))]


for _n in ADAPT:
    MODELS['Iterator::' + _n] = m_adapt


def source_elem(E, st, c, it):
    """a fresh element of the underlying source"""
    k, base, _ = it.a
    site = c.site
    if k in ('mut', 'valuesmut'):
        ix = E.refresh(st, mk('ix', site, 0))
        if base.op == 'phi':
            ls = list(E.leaves(base))
            if len(ls) == 1: base = ls[0]
        loc = base.a[0] if base.op == 'ref' else (('p', base), ())
        r = ref((loc[0], loc[1] + (('i', ix),)))
        if k == 'mut' and 'HashMap' in getattr(c, '_ty', ''): pass
        return r
    e = E.refresh(st, mk('elem', site, k, base))
    if k == 'repeat': return base.a[2][0][1]
    if k == 'once': return base.a[2][0][1]
    return e


def drive(E, st, c, it, stage, on_elem, on_end, base_tag):
    """one step of pulling an item through the adaptor chain; `stage` is an int: index of the adaptor whose closure returned"""
    stages = it.a[2]

    def cont(st, i, x):
        """push x through adaptors i.."""
        while i < len(stages):
            s = stages[i]
            n = s[0]
            if n == 'enumerate':
                ix = mk('nth', c.site, i, it.a[0], it.a[1]); E.refresh(st, ix)
                x = agg('tuple', '', (('0', ix), ('1', x))); i += 1; continue
            if n in ('rev', 'skip', 'take', 'step_by', 'flatten', 'chain'):
                if n in ('flatten',): x = mk('elem', c.site + '.%d' % i, 'flat', x)
                i += 1; continue
            if n == 'zip':
                x = agg('tuple', '', (('0', x), ('1', mk('elem', c.site + '.%d' % i, 'zip', s[1])))); i += 1; continue
            # closure adaptors
            E.settemp(st, c, 'x%d' % i, x)
            nx = E.call_closure(st, c, s[1], [x] if n != 'scan' else [s[1], x], '%s%d' % (base_tag, i))
            if nx is not None: return [nx]
            r = mk('call', c.site + '.%d' % i, 'closure', x); E.refresh(st, r)
            return after(st, i, r)
        return on_elem(st, x)

    def after(st, i, r):
        n = stages[i][0]
        x = E.temp(st, c, 'x%d' % i)
        if n == 'map': return cont(st, i + 1, r)
        if n == 'flat_map': return cont(st, i + 1, mk('elem', c.site + '.%d' % i, 'flat', r))
        if n == 'inspect': return cont(st, i + 1, x)
        if n in ('filter', 'skip_while', 'take_while'):
            out = []
            keep = n != 'skip_while'
            s2 = st.copy()
            if E.assume(s2, r, keep): out += cont(s2, i + 1, x)
            s3 = st.copy()
            if n == 'skip_while':
                # elements after the skipped prefix need not fail the test
                pass
            if E.assume(s3, r, not keep):
                if n == 'take_while': out += on_end(s3)
                else: out.append(E.goto_stage(s3, c, base_tag + 'again'))
            return out
        if n in ('filter_map', 'map_while'):
            out = []
            for v, s2 in fork(E, st, r, 'Some', 'None'):
                if v == 'Some': out += cont(s2, i + 1, pay(r, 'Some'))
                elif n == 'map_while': out += on_end(s2)
                else: out.append(E.goto_stage(s2, c, base_tag + 'again'))
            return out
        return cont(st, i + 1, r)

    if stage is None:
        s2 = st.copy()
        out = on_end(s2)
        x = source_elem(E, st, c, it)
        return out + cont(st, 0, x)
    return after(st, stage, E.ret(st, c))


def _stage_idx(c, tag):
    if c.stage is None or c.stage == tag + 'again': return None
    m = re.match(r'^%s(\d+)$' % tag, c.stage)
    return int(m.group(1)) if m else None


@model('Iterator::next', 'DoubleEndedIterator::next_back', 'Peekable::next', 'Peekable::next_if', 'Peekable::peek')
def m_next(E, st, c):
    if c.fr and c.fr.get('rid') in E.P.fns: return None
    loc = E.pointee(c.args[0])
    it = E.read(st, loc)
    if it.op == 'ref': it = E.read(st, it.a[0])
    if it.op == 'agg' and it.a[0] in ('Range', 'RangeInclusive', 'RangeFrom'): it = iterm('range', it)
    if it.op == 'app' and it.a[0] in ('split', 'splitn', 'split_whitespace', 'split_terminator'):
        # pieces of a string, in order; a fresh split/splitn always yields a first piece
        v = some(app('part', it, const(0))) if it.a[0] in ('split', 'splitn') else app('nextpart', it, const(0))
        E.write(st, loc, app('splitrest', it, const(1)))
        return [E.finish(st, c, v)]
    if it.op == 'app' and it.a[0] == 'splitrest':
        E.write(st, loc, app('splitrest', it.a[1], const(it.a[2].a[0] + 1)) if it.a[2].a[0] < 6 else mk('upd', c.site, 'next', it))
        return [E.finish(st, c, app('nextpart', it.a[1], it.a[2]))]
    if it.op != 'it':
        return None
    if c.stage is None or c.stage == 'nagain': E.emit('next', st, c.ctx, c.span, it=it, call=c)
    def end(s):
        E.emit('exhausted', s, c.ctx, c.span, it=it, call=c)
        return [E.finish(s, c, NONE)]
    return drive(E, st, c, it, _stage_idx(c, 'n'), lambda s, x: [E.finish(s, c, some(x))], end, 'n')


def consumer(E, st, c, on_item, on_end):
    """loop: pull item, run on_item(st, x) -> successors ('again' stage continues)"""
    it = E.temp(st, c, 'it')
    if it.op != 'it': it = iterm('val', it)
    if c.stage is None or c.stage == 'cagain': E.emit('next', st, c.ctx, c.span, it=it, call=c)
    return drive(E, st, c, it, _stage_idx(c, 'c'), on_item, on_end, 'c')


CONSUMERS = 'find any all for_each position fold collect count last max min sum nth find_map try_for_each partition unzip max_by_key min_by_key max_by min_by reduce try_fold rposition eq'.split()


def m_consume(E, st, c):
    n = c.name.split('::')[1]
    if c.stage is None:
        if c.fr and c.fr.get('rid') in E.P.fns: return None
        it = _as_it(E, st, c.args[0])
        if it is None:
            if n in ('max', 'min', 'eq'): return None
            it = iterm('val', E.val(st, c.args[0]))
        E.settemp(st, c, 'it', it)
        E.emit('call', st, c.ctx, c.span, name=c.name, args=[it] + c.args[1:], fr=c.fr, id=None, call=c)
        if n in ('fold', 'try_fold'): E.settemp(st, c, 'acc', c.args[1])
    it = E.temp(st, c, 'it')
    f = c.args[2] if n in ('fold', 'try_fold') else (c.args[1] if len(c.args) > 1 else None)
    short = {'core::option::Option<': 'Option', 'core::result::Result<': 'Result'}.get((c.rty or '').split('<')[0] + '<') if n == 'collect' else None

    def again(s): return [E.goto_stage(s, c, 'cagain')]

    def end(s):
        E.emit('exhausted', s, c.ctx, c.span, it=it if it.op == 'it' else iterm('val', it), call=c)
        if n == 'collect' and short:
            el = E.temp(s, c, 'el')
            v = mk('coll', c.site, it, el if el is not None else mk('bot'))
            return [E.finish(s, c, some(v) if short == 'Option' else ok(v))]
        if n == 'find' or n == 'find_map' or n == 'position' or n == 'rposition': return [E.finish(s, c, NONE)]
        if n == 'any': return [E.finish(s, c, FALSE)]
        if n == 'all': return [E.finish(s, c, TRUE)]
        if n == 'for_each': return [E.finish(s, c, UNIT)]
        if n in ('fold',): return [E.finish(s, c, E.temp(s, c, 'acc'))]
        el = E.temp(s, c, 'el')
        if n in ('collect',): return [E.finish(s, c, mk('coll', c.site, it, el if el is not None else mk('bot')))]
        if n == 'count': return [E.finish(s, c, app('count', it))]
        return [E.finish(s, c, app(n, it, *[a for a in c.args[1:] if a.op == 'const'])) if n not in ('last', 'nth', 'max', 'min') else
                E.finish(s, c, app('get', mk('coll', 'x', it, el if el is not None else mk('bot')), mk('end', n)))]

    def item(s, x):
        if n in ('find', 'any', 'all', 'for_each', 'position', 'find_map', 'try_for_each', 'fold', 'try_fold', 'rposition'):
            E.settemp(s, c, 'item', x)
            args = [E.temp(s, c, 'acc'), x] if n in ('fold', 'try_fold') else [x]
            nx = E.call_closure(s, c, f, args, 'f')
            if nx: return [nx]
            r = mk('call', c.site + '.f', 'closure', *args); E.refresh(s, r)
            return fret(s, r)
        if n == 'collect' and short:
            out = []
            good, bad = VARS[short]
            for v, s2 in fork(E, s, x, good, bad):
                if v == bad: out.append(E.finish(s2, c, NONE if short == 'Option' else err(pay(x, 'Err'))))
                else:
                    E.emit('collected', s2, c.ctx, c.span, val=pay(x, good), call=c)
                    E.settemp(s2, c, 'el', pay(x, good)); out += again(s2)
            return out
        if n == 'collect': E.emit('collected', s, c.ctx, c.span, val=x, call=c)
        E.settemp(s, c, 'el', x)
        return again(s)

    def fret(s, r):
        x = E.temp(s, c, 'item')
        out = []
        if n in ('find', 'any', 'all', 'position', 'rposition'):
            stop = n != 'all'
            s2 = s.copy()
            if E.assume(s2, r, stop):
                v = {'find': some(x), 'any': TRUE, 'all': FALSE, 'position': some(mk('nth', c.site, 'p', *(E.temp(s, c, 'it').a[:2] if E.temp(s, c, 'it').op == 'it' else ('?', E.temp(s, c, 'it'))))), 'rposition': some(mk('nth', c.site, 'p', *(E.temp(s, c, 'it').a[:2] if E.temp(s, c, 'it').op == 'it' else ('?', E.temp(s, c, 'it')))))}[n]
                out.append(E.finish(s2, c, v))
            if E.assume(s, r, not stop): out += again(s)
            return out
        if n == 'find_map':
            for v, s2 in fork(E, s, r, 'Some', 'None'):
                out += [E.finish(s2, c, some(pay(r, 'Some')))] if v == 'Some' else again(s2)
            return out
        if n == 'fold': E.settemp(s, c, 'acc', r); return again(s)
        if n in ('try_for_each', 'try_fold'):
            for v, s2 in fork(E, s, r, 'Ok', 'Err'):
                if v == 'Ok':
                    if n == 'try_fold': E.settemp(s2, c, 'acc', pay(r, 'Ok'))
                    out += again(s2)
                else: out.append(E.finish(s2, c, r))
            return out
        return again(s)

    if c.stage == 'f': return fret(st, E.ret(st, c))
    return consumer(E, st, c, item, end)


@model('HashMap::retain', 'Vec::retain', 'VecDeque::retain', 'HashSet::retain', 'BTreeMap::retain', 'Vec::retain_mut')
def m_retain(E, st, c):
    loc = E.pointee(c.args[0])
    if c.stage == 'k':
        r = E.ret(st, c)
        out = []
        for keep in (True, False):
            s2 = st.copy()
            if E.assume(s2, r, keep):
                E.emit('retained', s2, c.ctx, c.span, keep=keep, loc=loc, call=c)
                out.append(E.goto_stage(s2, c, 'kagain'))
        return out
    s2 = st.copy()
    if c.stage is None: E.emit('retain', st, c.ctx, c.span, loc=loc, call=c)
    s2 = st.copy()
    E.emit('exhausted', s2, c.ctx, c.span, it=iterm('mut', ref(loc)), call=c)
    u = mk('upd', c.site, c.name, E.read(s2, loc))
    E.emit('store', s2, c.ctx, c.span, loc=loc, val=u, how='call', name=c.name, call=c)
    E.write(s2, loc, _cap(u, c.site))
    out = [E.finish(s2, c, UNIT)]
    ix = E.refresh(st, mk('ix', c.site, 0))
    E.emit('next', st, c.ctx, c.span, it=iterm('mut', ref(loc)), call=c)
    el = ref((loc[0], loc[1] + (('i', ix),)))
    args = [el] if not c.name.startswith(('HashMap', 'BTreeMap')) else [mk('mapkey', c.site, ix), el]
    nx = E.call_closure(st, c, c.args[1], args, 'k')
    if nx is None: return E.opaque(st, c)
    return out + [nx]


def _cap(u, site):
    import engine
    return engine._cap_upd(u, site)


for _n in CONSUMERS: MODELS['Iterator::' + _n] = m_consume


def _ord_minmax(n):
    def f(E, st, c):
        if len(c.args) == 2 and c.fr.get('trait', '').endswith('Ord'):
            vs = sorted((E.val(st, a) for a in c.args), key=lambda t: t.id)
            if getattr(E.rule, 'see_bin', False): E.emit('bin', st, c.ctx, c.span, op='Lt', a=vs[0], b=vs[1])
            return [E.finish(st, c, app(n, *vs) if vs[0] is not vs[1] else vs[0])]
        return None
    return f


MODELS['Ord::max'] = _ord_minmax('max')
MODELS['Ord::min'] = _ord_minmax('min')


@model('cmp::max', 'cmp::min')
def m_cmpmax(E, st, c):
    vs = sorted((E.val(st, a) for a in c.args), key=lambda t: t.id)
    return [E.finish(st, c, app(c.name.split('::')[1], *vs) if vs[0] is not vs[1] else vs[0])]


@model('Vec::is_empty', 'slice::is_empty', 'String::is_empty', 'str::is_empty', 'HashMap::is_empty', 'VecDeque::is_empty')
def m_isempty(E, st, c):
    v = E.val(st, c.args[0])
    E.emit('call', st, c.ctx, c.span, name=c.name, args=[v], fr=c.fr, id=None, call=c)
    return [E.finish(st, c, mk('bin', 'Eq', E.lenof(v), const(0)))]


# ---------------------------------------------------------------- formatting
@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::from_usize')
def m_fmtarg(E, st, c):
    return [E.finish(st, c, mk('fmtarg', c.name.split('new_')[-1], E.val(st, c.args[0], 5), (c.fr.get('args') or [''])[-1]))]


@model('Arguments::new', 'Arguments::new_const', 'Arguments::from_str', 'Arguments::from_str_nonconst')
def m_fmtargs(E, st, c):
    vs = [E.val(st, a) for a in c.args]
    return [E.finish(st, c, mk('fmt', *vs))]


@model('fmt::format')
def m_format(E, st, c): return [E.finish(st, c, app('format', c.args[0]))]


INT = re.compile(r'^[iu](8|16|32|64|128|size)$')


def from_bool(E, st, c):
    out = []
    for b, n in ((True, ONE), (False, ZERO)):
        s2 = st.copy()
        if E.assume(s2, c.args[0], b): out.append(E.finish(s2, c, n))
    return out


@model('ToString::to_string', 'String::from', 'str::to_owned', 'From::from')
def m_tostring(E, st, c):
    if c.fr.get('rid') in E.P.fns: return None
    if c.name == 'From::from':
        ty = c.rty
        if E.argty(c, 0) == 'bool' and INT.match(ty): return from_bool(E, st, c)
        if tyhead(ty) == 'String' and 'str' in E.argty(c, 0): return [E.finish(st, c, E.val(st, c.args[0]))]
        if (c.fr.get('rname') or '').startswith('<T as core::convert::From<T>>'): return [E.finish(st, c, c.args[0])]
        if tyhead(ty) in ('Arc', 'Rc', 'Box') : return [E.finish(st, c, mk('box', c.site, c.args[0]))]
        return [E.finish(st, c, app('from', E.val(st, c.args[0])))]
    if c.name == 'ToString::to_string' and re.match(r"^&('\w+ )?(&('\w+ )?)?(str|alloc::string::String)$", E.argty(c, 0)):
        return [E.finish(st, c, E.val(st, c.args[0], 5))]
    if c.name in ('ToString::to_string',): return [E.finish(st, c, app('display', E.val(st, c.args[0])))]
    return [E.finish(st, c, E.val(st, c.args[0]))]


@model('Into::into')
def m_into(E, st, c):
    # resolve T: Into<U> through a workspace From impl when there is one
    a = c.args[0]
    src = E.argty(c, 0)
    dst = c.rty
    if src == 'bool' and INT.match(dst): return from_bool(E, st, c)
    fid = _from_impl(E, src, dst)
    if c.stage == 'into': return [E.finish(st, c, E.ret(st, c))]
    if fid and not E.rule.stop(fid) and not E.in_stack(c.ctx, fid):
        return [E.enter(st, c, E.P.fns[fid], [a], 'into')]
    if tyhead(dst) in ('Rc', 'Arc') and tyhead(src) not in ('Rc', 'Arc'): return [E.finish(st, c, mk('box', c.site, a))]
    return [E.finish(st, c, a)]


def _from_impl(E, src, dst):
    if not hasattr(E.P, '_from'):
        E.P._from = {}
        for i in E.P.impls:
            if i.get('trait') == 'core::convert::From':
                m = re.search(r'core::convert::From<(.*)>>$', i.get('traitref', ''))
                if m:
                    for it in i['items']:
                        if it['n'] == 'from': E.P._from[(m.group(1), i['self_ty'])] = it['id']
    return E.P._from.get((src, dst))


@model('panicking::panic_fmt', 'panicking::panic', 'panicking::begin_panic', 'panicking::unreachable_default_msg', 'panicking::panic_display', 'panicking::unreachable_display', 'rt::panic_fmt', 'panicking::assert_failed', 'panicking::panic_explicit', 'process::exit', 'process::abort')
def m_panic(E, st, c):
    E.emit('panic', st, c.ctx, c.span, name=c.name, args=c.args, call=c)
    return []


@model('Instrument::instrument', 'Instrument::in_current_span', 'Instrument::or_current')
def m_instrument(E, st, c): return [E.finish(st, c, c.args[0])]
