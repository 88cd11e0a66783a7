"""Value-flow / typestate abstract interpretation over the extracted MIR.

The engine walks an inlined (workspace-local calls, closures, async bodies) control-flow graph, keeps for every program
point an abstract state = (memory: location -> value term, branch facts, property state of the rule) and joins states that
agree on the property state and on the variant/bool tags of locals.  A rule is an object with an `event` method: it gets
calls, stores, drops, awaits, returns and panics with their resolved value terms and advances its property state.
Everything is a dataflow fixpoint over finitely many terms; no path is handed to a solver and nothing is executed.
"""
import re, sys
sys.setrecursionlimit(20000)
sys.tracebacklimit = 8


# ---------------------------------------------------------------- terms
class T:
    __slots__ = ('op', 'a', 'id')

    def __repr__(self): return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab)
        _tab[k] = t
    return t


def const(v): return mk('const', v, type(v).__name__)


ZERO, ONE = const(0), const(1)
TRUE, FALSE, UNIT, MOVED, UNINIT = const(True), const(False), mk('agg', 'tuple', '', ()), mk('moved'), mk('uninit')


def agg(kind, variant, fields): return mk('agg', kind, variant, tuple(fields))       # fields: ((name, term)...)


def is_agg(t, *variants): return t.op == 'agg' and (not variants or t.a[1] in variants)


def some(t): return agg('Option', 'Some', (('0', t),))
def ok(t): return agg('Result', 'Ok', (('0', t),))
def err(t): return agg('Result', 'Err', (('0', t),))


NONE = agg('Option', 'None', ())


def ready(t): return agg('Poll', 'Ready', (('0', t),))


def app(name, *a): return mk('app', name, *a)


def ref(loc): return mk('ref', loc)


def children(t):
    def go(x):
        for y in x:
            if isinstance(y, T): yield y
            elif isinstance(y, tuple): yield from go(y)
    if t.op == 'phi': return iter(())
    return go(t.a)


_contains = {}


def contains(t, x):
    if t is x: return True
    k = (t.id, x.id)
    r = _contains.get(k)
    if r is None:
        _contains[k] = False
        r = any(contains(c, x) for c in children(t))
        _contains[k] = r
    return r


def subst(t, x, y, memo=None):
    if memo is None: memo = {}
    if t is x: return y
    if not contains(t, x): return t
    r = memo.get(t.id)
    if r is not None: return r

    def go(z):
        if isinstance(z, T): return subst(z, x, y, memo)
        if isinstance(z, tuple): return tuple(go(w) for w in z)
        return z
    r = mk(t.op, *[go(z) for z in t.a])
    memo[t.id] = r
    return r


def subterms(t, seen=None):
    """all subterms (phi is not expanded)"""
    if seen is None: seen = set()
    if t.id in seen: return
    seen.add(t.id)
    yield t
    for c in children(t): yield from subterms(c, seen)


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple): return '(' + ','.join(show(x, d + 1) for x in t) + ')'
        return str(t)
    if d > 9: return '…'
    o = t.op
    if o == 'const': return repr(t.a[0])
    if o == 'agg':
        fs = ', '.join('%s:%s' % (n, show(v, d + 1)) for n, v in t.a[2])
        return '%s{%s}' % ((t.a[0].split('::')[-1] + ('::' + t.a[1] if t.a[1] else '')), fs)
    if o == 'fld': return '%s.%s' % (show(t.a[0], d + 1), t.a[1])
    if o == 'as': return '(%s as %s)' % (show(t.a[0], d + 1), t.a[1])
    if o == 'call': return '%s@%s(%s)' % (t.a[1], t.a[0], ', '.join(show(x, d + 1) for x in t.a[2:]))
    if o in ('app', 'bin', 'un'): return '%s(%s)' % (t.a[0], ', '.join(show(x, d + 1) for x in t.a[1:]))
    if o == 'ref': return '&' + showloc(t.a[0], d + 1)
    if o == 'phi': return 'phi%d' % t.id
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in t.a))


def showloc(l, d=0):
    r = l[0]
    s = ('(*%s)' % show(r[1], d + 1)) if r[0] == 'p' else '_'.join(str(x) for x in r)
    for e in l[1]:
        s += '.' + str(e[1]) if e[0] == 'f' else ('[%s]' % show(e[1], d + 1) if e[0] == 'i' else ' as %s' % e[1])
    return s


# ---------------------------------------------------------------- projections
def strip(t):
    """see through owning boxes"""
    while t.op == 'box': t = t.a[1]
    return t


def project(t, sel):
    k, n = sel
    if t.op == 'box': return project(t.a[1], sel)
    if k == 'f':
        if t.op == 'agg':
            for nm, v in t.a[2]:
                if nm == n: return v
            if t.a[0] in ('closure', 'coroutine', 'tuple', 'array'): return mk('bot')
        if t.op == 'with' and t.a[1] == sel: return t.a[2]
        if t.op == 'with' and t.a[1][0] == 'f': return project(t.a[0], sel)
        if t.op == 'as':
            b, v = t.a
            if b.op == 'tryb':
                kind, x = b.a
                if v == 'Continue': return pay(x, 'Ok' if kind == 'Result' else 'Some')
                if v == 'Break': return mk('resid', kind, x)
            if b.op == 'optref' and v == 'Some': return ref(b.a[1])
            if b.op == 'app' and b.a[0] == 'get' and v == 'Some': return mk('idx', b.a[1], b.a[2])
            if b.op == 'app' and b.a[0] == 'ok' and v == 'Some': return pay(b.a[1], 'Ok')
            if b.op == 'app' and b.a[0] == 'err' and v == 'Some': return pay(b.a[1], 'Err')
            if b.op == 'app' and b.a[0] == 'ok_or':
                return pay(b.a[1], 'Some') if v == 'Ok' else b.a[2]
            if b.op == 'app' and b.a[0] == 'map_err' and v == 'Ok': return pay(b.a[1], 'Ok')
            if b.op == 'app' and b.a[0] == 'map_err' and v == 'Err': return b.a[2]
        return mk('fld', t, n)
    if k == 'v':
        if t.op == 'agg': return t if t.a[1] == n or t.a[1] == '' else mk('bot')
        return mk('as', t, n)
    if k == 'i':
        if t.op == 'agg' and t.a[0] == 'array' and n.op == 'const':
            for nm, v in t.a[2]:
                if nm == str(n.a[0]): return v
        if t.op == 'with' and t.a[1] == sel: return t.a[2]
        return mk('idx', t, n)
    raise Exception(sel)


def pay(t, variant, n='0'): return project(project(t, ('v', variant)), ('f', n))


def path_of(t, path):
    for s in path: t = project(t, s)
    return t


# ---------------------------------------------------------------- names
def _strip_generics(s):
    out, d, i = [], 0, 0
    while i < len(s):
        c = s[i]
        if c == '<': d += 1
        elif c == '>' and (i == 0 or s[i - 1] != '-'): d -= 1
        elif d == 0: out.append(c)
        i += 1
    return re.sub(r'::(::)+', '::', ''.join(out)).strip(':')


def last(s, n=1): return '::'.join(s.split('::')[-n:])


_sn = {}


def short(fr):
    """`Vec::push`, `Deref::deref`, `str::chars`, `fn_name` — a generics-free name of a function reference."""
    k = (fr['name'], fr.get('trait'), fr.get('method'))
    if k in _sn: return _sn[k]
    if fr.get('trait'): r = last(_strip_generics(fr['trait'])) + '::' + fr['method']
    else:
        n = fr['name']
        m = re.match(r'^[\w:]*<impl (.*?)>::(\w+)(::<.*)?$', n)
        if m:
            ty = m.group(1)
            ty = 'slice' if ty.startswith('[') else _strip_generics(ty)
            r = last(ty) + '::' + m.group(2)
        else: r = last(_strip_generics(n), 2)
    _sn[k] = r
    return r


def tyhead(t):
    """outermost type constructor, last path segment"""
    t = t.strip()
    while t.startswith('&'):
        t = re.sub(r"^&('\w+ )?(mut )?", '', t)
    m = re.match(r'^(dyn )?([\w:]+)', t)
    return last(m.group(2)) if m else t


SMART = {'Arc', 'Rc', 'Box', 'Ref', 'RefMut', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'Pin', 'Lazy', 'MappedRwLockReadGuard', 'MappedMutexGuard', 'WakerRef', 'RwLockUpgradableReadGuard', 'LazyLock', 'ManuallyDrop'}
LOG_MACROS = {'info', 'error', 'warn', 'debug', 'trace', 'event', '$crate::event', 'tracing::event', 'tracing::info', 'tracing::error'}

PURE = set('''Vec::len slice::len String::len str::len str::chars String::as_str str::as_bytes String::as_bytes str::as_ptr
Vec::capacity str::ends_with str::starts_with str::trim str::to_string String::is_empty char::len_utf8 Iterator::rev
HashMap::len HashMap::contains_key HashMap::keys HashMap::values slice::contains HashSet::contains BTreeSet::contains BTreeMap::contains_key Vec::contains VecDeque::contains slice::starts_with str::contains
usize::wrapping_sub usize::wrapping_add u64::pow PartialOrd::partial_cmp Ord::cmp Ord::max Ord::min Url::as_str str::lines
Path::to_path_buf Range::contains RangeInclusive::contains RangeInclusive::new Hash::hash mem::size_of char::is_ascii_whitespace str::split str::splitn
slice::first slice::last slice::binary_search str::char_indices str::is_char_boundary str::bytes usize::saturating_sub usize::saturating_add usize::checked_sub usize::checked_add
char::is_whitespace str::parse String::from_utf8 PathBuf::as_path str::find str::rfind usize::pow isize::pow char::is_alphanumeric
isize::max isize::min usize::max usize::min i64::max i64::min String::from_utf8_lossy num::from_str_radix i128::pow usize::abs_diff
str::eq_ignore_ascii_case Value::is_null Duration::from_millis i32::wrapping_add isize::wrapping_add isize::wrapping_sub i64::wrapping_add i64::wrapping_sub
Path::join str::trim_end str::trim_start str::split_once str::strip_prefix str::strip_suffix AsRef::as_ref slice::to_vec slice::concat'''.split())

TRANSPARENT = set('''Clone::clone Into::into IntoFuture::into_future Pin::new_unchecked Pin::new Pin::as_mut Pin::get_mut hint::must_use convert::identity
ToOwned::to_owned Borrow::borrow Iterator::cloned Iterator::copied Iterator::by_ref Option::cloned Option::copied Box::into_pin
Cow::into_owned String::into_boxed_str Pin::as_ref Pin::get_ref Pin::map_unchecked_mut Pin::into_inner Option::as_deref Box::new_uninit dyn_clone::clone_box
String::into_bytes black_box::black_box hint::black_box'''.split())
REFPASS = set('Option::as_ref Option::as_mut Result::as_ref Result::as_mut Vec::as_slice Vec::as_mut_slice String::as_mut_str slice::as_ref AsMut::as_mut BorrowMut::borrow_mut Option::as_deref_mut Option::as_pin_mut Cow::to_mut Pin::as_deref_mut'.split())


class Ctx:
    __slots__ = ('parent', 'fn', 'bb', 'tag', 'id', 'depth', 'ret')


class St:
    __slots__ = ('env', 'facts', 'auto', '_k')

    def __init__(s, env, facts, auto): s.env, s.facts, s.auto = env, facts, auto

    def copy(s): return St(dict(s.env), dict(s.facts), s.auto)


class Call:
    """a call site being interpreted"""
    def __init__(c, eng, ctx, bb, t, st, stage):
        c.eng, c.ctx, c.bb, c.t, c.stage = eng, ctx, bb, t, stage
        fo = t['fn']
        c.fr = fo['c'].get('fn') if 'c' in fo else None
        c.span = t['s']
        c.node = (ctx, bb)
        c.site = '%d.%s' % (ctx.id, bb)
        if stage is None:
            c.args = [eng.operand(st, ctx, a) for a in t['args']]
        else:
            c.args = [st.env.get((('t', ctx.id, bb, 'a%d' % i), ()), mk('bot')) for i in range(len(t['args']))]
        if c.fr is None: c.fnterm = eng.operand(st, ctx, fo) if stage is None else None
        c.name = short(c.fr) if c.fr else '<indirect>'

    @property
    def rty(c): return c.t['rty']

    def where(c): return loc_str(c.span)


def loc_str(s):
    f = s['f']
    i = f.find('/crates/')
    return '%s:%d' % (f[i + 1:] if i >= 0 else f, s['l'])


class Rule:
    """base: override init() and event()"""
    def init(self): return ()
    def event(self, kind, ev, st, E): return st.auto
    def stop(self, fid): return False
    def model(self, name): return None


class Ev:
    def __init__(s, **k): s.__dict__.update(k)


class Engine:
    MAXDEPTH = 14

    def __init__(self, prog, rule, entry, args=None, env=None, maxpart=64, maxsteps=60000, max_depth=None):
        self.P, self.rule, self.entry = prog, rule, entry
        self.ctxs, self.ctxlist = {}, []
        self.alts = {}
        self.final = False
        self.maxpart, self.maxsteps = maxpart, maxsteps
        self.args, self.env0 = args, env or {}
        self.skipped = set()      # opaque workspace calls, for evidence
        self.inlined = set()
        self.panics = []
        self.overflow = False
        if max_depth: self.MAXDEPTH = max_depth
        self._enumlocals = {}

    # ---- contexts
    def ctx(self, parent, fn, bb, tag=None):
        k = (parent.id if parent else None, fn['id'], bb, tag)
        c = self.ctxs.get(k)
        if c is None:
            c = Ctx(); c.parent, c.fn, c.bb, c.tag = parent, fn, bb, tag
            c.id = len(self.ctxlist); c.depth = parent.depth + 1 if parent else 0
            self.ctxs[k] = c; self.ctxlist.append(c)
        return c

    # ---- memory
    def init_value(self, root):
        if root[0] == 'p': return root[1] if root[1].op != 'box' else root[1].a[1]
        return UNINIT

    def raw(self, st, loc):
        """value at loc, ignoring finer-grained overrides"""
        root, path = loc
        env = st.env
        for n in range(len(path), -1, -1):
            t = env.get((root, path[:n]))
            if t is not None: return path_of(t, path[n:]) if t is not MOVED else (MOVED)
        return path_of(self.init_value(root), path) if root[0] == 'p' else UNINIT

    def read(self, st, loc):
        root, path = loc
        if root[0] == 'p' and root[1].op == 'phi':
            alts = [a for a in self.leaves(root[1])]
            if alts and all(a.op == 'ref' for a in alts):
                vs = {self.read(st, (a.a[0][0], a.a[0][1] + path)) for a in alts}
                if len(vs) == 1: return vs.pop()
                p = mk('phi', ('deref', root[1], path, tuple(sorted(v.id for v in vs))))
                self.alts.setdefault(p, set()).update(vs)
                return p
        t = self.raw(st, loc)
        n = len(path)
        for (r, p), v in st.env.items():
            if r == root and len(p) > n and p[:n] == path:
                t = self.with_(t, p[n:], v)
        return t

    def with_(self, t, path, v):
        if not path: return v
        if t.op == 'agg' and path[0][0] == 'f':
            fs = list(t.a[2])
            for i, (nm, x) in enumerate(fs):
                if nm == path[0][1]:
                    fs[i] = (nm, self.with_(x, path[1:], v)); return agg(t.a[0], t.a[1], fs)
            return t
        if t.op == 'agg' and path[0][0] == 'v':
            return self.with_(t, path[1:], v) if t.a[1] == path[0][1] else t
        sub = project(t, path[0])
        nv = self.with_(sub, path[1:], v)
        if nv is sub: return t
        if path[0][0] == 'v': return t if t.op not in ('agg',) else t
        base = t
        # keep `with` chains canonical: one entry per selector
        chain = []
        while base.op == 'with' and base.a[1] != path[0]: chain.append((base.a[1], base.a[2])); base = base.a[0]
        if base.op == 'with': base = base.a[0]
        chain.append((path[0], nv))
        chain.sort(key=lambda c: (c[0][0], str(c[0][1])))
        for s, x in chain: base = mk('with', base, s, x)
        return base

    def write(self, st, loc, t):
        root, path = loc
        env = st.env
        if root[0] == 'p' and root[1].op == 'phi':
            for a in self.leaves(root[1]):
                if a.op == 'ref':
                    l2 = (a.a[0][0], a.a[0][1] + path)
                    old = self.read(st, l2)
                    p = mk('phi', ('weak', l2, old, t))
                    self.alts.setdefault(p, set()).update((old, t))
                    self.write(st, l2, p)
        n = len(path)
        dead = [k for k in env if k[0] == root and len(k[1]) > n and k[1][:n] == path]
        # may-alias: another index of the same base
        for i, s in enumerate(path):
            if s[0] == 'i':
                for k in env:
                    if k[0] == root and len(k[1]) > i and k[1][:i] == path[:i] and k[1][i][0] == 'i' and k[1][i] != s: dead.append(k)
        for k in set(dead): env.pop(k, None)
        env[loc] = t

    def place(self, st, ctx, p):
        root, path = ('l', ctx.id, p[0]), ()
        for e in p[1:]:
            if e == '*':
                v = self.read(st, (root, path))
                root, path = self.pointee(v)
            elif e == 'cast': pass
            elif 'v' in e: path += (('v', e['v']),)
            elif 'f' in e: path += (('f', str(e['f']) if str(e.get('a', '')).startswith('{') or not e.get('n') else e['n']),)
            elif 'i' in e: path += (('i', self.read(st, (('l', ctx.id, e['i']), ()))),)
            elif 'ci' in e: path += (('i', const(-e['ci'] if e['fe'] else e['ci'])),)
            elif 'sub' in e: path += (('i', const('sub%s%s' % (e['sub'], e['fe']))),)
        return (root, path)

    def pointee(self, v):
        if v.op == 'ref': return v.a[0]
        return (('p', v), ())

    def operand(self, st, ctx, o):
        if 'cp' in o: return self.read(st, self.place(st, ctx, o['cp']))
        if 'mv' in o:
            l = self.place(st, ctx, o['mv'])
            t = self.read(st, l)
            self._moves.append(l)
            return t
        c = o['c']
        if 'fn' in c: return mk('fn', c['fn'].get('rid') or c['fn']['id'], short(c['fn']))
        if 'int' in c:
            if c.get('ty') == 'char': return const(c['int'][1:])
            return const(int(c['int'])) if c.get('ty') != 'bool' else const(bool(int(c['int'])))
        if c.get('ty') == 'bool' or c.get('disp') in ('True', 'False', 'true', 'false'):
            return const(str(c.get('disp')).lower() == 'true')
        if 'str' in c: return const(c['str'])
        if 'def' in c: return mk('static', c.get('def'))
        if c.get('ty') == '()': return UNIT
        return mk('lit', c.get('disp', '?'))

    def flush_moves(self, st):
        for l in self._moves:
            st.env[l] = MOVED
            for k in [k for k in st.env if k[0] == l[0] and len(k[1]) > len(l[1]) and k[1][:len(l[1])] == l[1]]: st.env.pop(k)
        self._moves = []

    def val(self, st, t, n=3):
        """the value behind a reference"""
        while n:
            if t.op == 'ref': t = self.read(st, t.a[0])
            elif t.op == 'phi' and (ls := list(self.leaves(t))) and all(x.op == 'ref' for x in ls): t = self.read(st, (('p', t), ()))
            else: break
            n -= 1
        return t

    def lenof(self, t):
        """the term of a container's length: overwriting elements does not change it"""
        roots, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            if x.op == 'with' and x.a[1][0] == 'i': todo.append(x.a[0])
            elif x.op == 'phi' and self.alts.get(x): todo += list(self.alts[x])
            else: roots.add(x)
            if len(roots) > 1: return app('len', t)
        return app('len', roots.pop() if roots else t)

    def leaves(self, t, seen=None):
        """phi-expanded alternatives"""
        if seen is None: seen = set()
        if t.op != 'phi':
            if t in seen: return
            seen.add(t)
            if t.op in ('fld', 'as') and isinstance(t.a[0], T):
                sel = ('f', t.a[1]) if t.op == 'fld' else ('v', t.a[1])
                bs = list(self.leaves(t.a[0], set()))
                if not (len(bs) == 1 and bs[0] is t.a[0]):
                    for b in bs:
                        x = project(b, sel)
                        if x.op == 'bot': continue
                        if x is t: yield t
                        else: yield from self.leaves(x, seen)
                    return
            yield t
            return
        if t in seen: return
        seen.add(t)
        for a in sorted(self.alts.get(t, ()), key=lambda x: x.id): yield from self.leaves(a, seen)

    # ---- facts
    def norm(self, t):
        """boolean term -> (kind, core, polarity or variant info)"""
        pol = True
        while True:
            if t.op == 'un' and t.a[0] == 'Not': t = t.a[1]; pol = not pol; continue
            if t.op == 'bin':
                o, a, b = t.a
                if o == 'Ne': t = mk('bin', 'Eq', a, b); pol = not pol; continue
                if o in ('Eq',):
                    if is_agg(a) and is_agg(b) and a.a[0] == b.a[0]:
                        if a.a[1] != b.a[1]: t = FALSE; break
                        if a.a[1] and not a.a[2] and not b.a[2]: t = TRUE; break
                        if len(a.a[2]) == 1 and len(b.a[2]) == 1 and a.a[1]: t = mk('bin', 'Eq', a.a[2][0][1], b.a[2][0][1]); continue
                    if a.op == 'const' and b.op != 'const': a, b = b, a
                    if b.op == 'const' and isinstance(b.a[0], bool):
                        if not b.a[0]: pol = not pol
                        t = a; continue
                    if b.op != 'const' and a.id > b.id: a, b = b, a
                    t = mk('bin', 'Eq', a, b); break
                if o == 'Gt': t = mk('bin', 'Lt', b, a); continue
                if o == 'Ge': t = mk('bin', 'Lt', a, b); pol = not pol; continue
                if o == 'Le': t = mk('bin', 'Lt', b, a); pol = not pol; continue
            if t.op == 'cast' and t.a[1] in ('u8', 'isize', 'usize', 'i32', 'u32'): t = t.a[0]; continue
            break
        return t, pol

    def assume(self, st, t, val):
        """-> True if feasible; updates st.facts"""
        t, pol = self.norm(t)
        v = val if pol else not val
        if t.op == 'const': return bool(t.a[0]) == v
        if t.op == 'isvar':
            return self.assume_var(st, t.a[0], t.a[1], v, t.a[2])
        if t.op == 'bin' and t.a[0] == 'Eq':
            a, b = t.a[1], t.a[2]
            if a is b: return v
            if a.op == 'const' and b.op == 'const': return (a.a[0] == b.a[0]) == v
            if b.op == 'const': return self.assume_in(st, a, frozenset([b.a[0]]), v)
            if is_agg(a) and is_agg(b) and a.a[0] == b.a[0] and a.a[1] != b.a[1]: return not v
            if is_agg(b) and not b.a[2]: return self.assume_var(st, a, frozenset([b.a[1]]), v, None)
            if is_agg(a) and not a.a[2]: return self.assume_var(st, b, frozenset([a.a[1]]), v, None)
        if t.op == 'bin' and t.a[0] == 'Lt':
            a, b = t.a[1], t.a[2]
            if a is b: return not v
            if a.op == 'const' and b.op == 'const': return (a.a[0] < b.a[0]) == v
            # Lt(a,b) true  =>  Lt(b,a) false, Eq(a,b) false
            if v:
                r = mk('bin', 'Lt', b, a)
                if st.facts.get(r) == ('in', frozenset([True])): return False
                st.facts[r] = ('in', frozenset([False]))
                e, _ = self.norm(mk('bin', 'Eq', a, b))
                if e.op == 'bin' and e.a[2].op != 'const': st.facts[e] = ('in', frozenset([False]))
        if t.op == 'bin' and t.a[0] == 'BitAnd' and v:
            return self.assume(st, t.a[1], True) and self.assume(st, t.a[2], True)
        if t.op == 'bin' and t.a[0] == 'BitOr' and not v:
            return self.assume(st, t.a[1], False) and self.assume(st, t.a[2], False)
        return self.assume_in(st, t, frozenset([True]), v)

    def assume_in(self, st, t, s, pos):
        if t.op == 'const': return (t.a[0] in s) == pos
        f = st.facts.get(t)
        if f is None:
            if t.op == 'phi':
                ls = list(self.leaves(t))
                if all(x.op == 'const' for x in ls):
                    # keep it a fact on the phi only
                    pass
            nf = ('in', s) if pos else ('ni', s)
            if not pos and s <= frozenset([True, False]) and all(isinstance(x, bool) for x in s):
                nf = ('in', frozenset([True, False]) - s)
        else:
            k, cur = f
            if pos:
                n = (cur & s) if k == 'in' else (s - cur)
                if not n: return False
                nf = ('in', n)
            else:
                if k == 'in':
                    n = cur - s
                    if not n: return False
                    nf = ('in', n)
                else: nf = ('ni', cur | s)
        st.facts[t] = nf
        return True

    def variant_key(self, t, s, universe=None):
        """normalise variant tests on derived terms to the base term"""
        while True:
            if t.op == 'tryb':
                kind, x = t.a
                m = {'Continue': 'Ok', 'Break': 'Err'} if kind == 'Result' else {'Continue': 'Some', 'Break': 'None'}
                s = frozenset(m.get(v, v) for v in s); t = x; continue
            if t.op == 'app' and t.a[0] in ('ok', 'err', 'ok_or', 'map_err', 'optmap'):
                m = {'ok': {'Some': 'Ok', 'None': 'Err'}, 'err': {'Some': 'Err', 'None': 'Ok'}, 'ok_or': {'Ok': 'Some', 'Err': 'None'}}.get(t.a[0], {})
                s = frozenset(m.get(v, v) for v in s); t = t.a[1]; continue
            if t.op == 'optref': t = t.a[0]; continue
            if t.op == 'box': t = t.a[1]; continue
            return t, s

    BINARY = [frozenset(x) for x in (('Some', 'None'), ('Ok', 'Err'), ('Ready', 'Pending'), ('Continue', 'Break'))]

    def assume_var(self, st, t, s, pos, universe):
        t, s = self.variant_key(t, s)
        if t.op == 'agg' and t.a[1] != '': return (t.a[1] in s) == pos
        key = mk('var', t)
        if not pos:
            for b in self.BINARY:
                if s <= b: s, pos = b - s, True; break
            else:
                if universe: 
                    s, pos = frozenset(universe) - s, True
        return self.assume_in(st, key, s, pos)

    def fact_var(self, st, t):
        """known set of variants of t, or None"""
        t2, _ = self.variant_key(t, frozenset())
        if t2.op == 'agg': 
            v = t2.a[1]
            inv = {'Ok': 'Continue'} if False else None
            return frozenset([v])
        f = st.facts.get(mk('var', t2))
        return f[1] if f and f[0] == 'in' else None

    def fact_bool(self, st, t):
        """True/False/None"""
        t, pol = self.norm(t)
        if t.op == 'const': return bool(t.a[0]) == pol
        if t.op == 'isvar':
            k, s = self.variant_key(t.a[0], t.a[1])
            if k.op == 'agg' and k.a[1]: return (k.a[1] in s) == pol
            f = st.facts.get(mk('var', k))
            if f and f[0] == 'in':
                if f[1] <= s: return pol
                if not (f[1] & s): return not pol
            return None
        if t.op == 'bin' and t.a[0] == 'Eq':
            a, b = t.a[1], t.a[2]
            if a is b: return pol
            if b.op == 'const':
                f = st.facts.get(a)
                if f:
                    if f[0] == 'in' and f[1] == frozenset([b.a[0]]): return pol
                    if (f[0] == 'in') != (b.a[0] in f[1]): return not pol
                return None
        f = st.facts.get(t)
        if f and f[0] == 'in' and len(f[1]) == 1: return (True in f[1]) == pol
        return None

    # ---- fresh values
    def refresh(self, st, t):
        """the site that produces t runs again: stale copies denote the previous instance"""
        old = None
        for k, v in list(st.env.items()):
            if contains(v, t):
                if old is None: old = mk('prev', t)
                st.env[k] = _collapse(subst(v, t, old))
            elif k[0][0] == 'p' and contains(k[0][1], t): st.env.pop(k); continue
            # an element overwritten at the previous index stays overwritten there
            if any(e[0] == 'i' and contains(e[1], t) for e in k[1]):
                if old is None: old = mk('prev', t)
                v = st.env.pop(k)
                st.env[(k[0], tuple((e[0], _collapse(subst(e[1], t, old))) if e[0] == 'i' else e for e in k[1]))] = v
        for k in [k for k in st.facts if contains(k, t)]: st.facts.pop(k)
        return t

    # ---- running
    def run(self):
        self._moves = []
        fn = self.P.fns[self.entry]
        c0 = self.ctx(None, fn, None)
        st = St({}, {}, self.rule.init())
        for i in range(1, fn['argc'] + 1):
            st.env[(('l', c0.id, i), ())] = (self.args[i - 1] if self.args else mk('arg', i))
        for k, v in self.env0.items(): st.env[k] = v
        if fn['kind'] == 'coroutine' and not self.args:
            st.env[(('l', c0.id, 1), ())] = agg('coroutine', fn['id'], [(str(i), self.param(fn, u['n'])) for i, u in enumerate(fn['upvars'])])
        self.steps = 0
        for rnd in range(self.ROUNDS):
            self.states, self.ins, self.visits, self.alts = {}, {}, {}, {}
            self.queue = None
            steps = self.steps
            self.push((c0, 0), st, None)
            self.solve()
            for _ in range(3):
                if self.overflow or not self.prune((c0, 0), st): break
                self.solve()
            if self.overflow: break
            # start again knowing where values vary: no term of an intermediate iterate survives in a phi
            loose, needed = self.tangled()
            if not loose or needed == self.hints: break
            self.hints = needed
            self.hintlocs = {}
            for x in needed:
                if len(x.a[0]) == 2: self.hintlocs.setdefault(x.a[0][0], set()).add(x.a[0][1])
            self.maxsteps += self.steps - steps
        # reporting pass over the fixpoint
        self.final = True
        for node in list(self.states):
            for key, st in list(self.states[node].items()):
                for nn, ns in self.transfer(node, st.copy()): pass
        return self

    def param(self, fn, n):
        """what an async body captured: the parameter of its function by position, whatever its name"""
        f = self.P.fns.get(fn.get('parent') or '')
        if f is not None and f['kind'] in ('fn', 'method'):
            m = re.match(r'^__arg(\d+)$', n)
            if m: return mk('arg', int(m[1]) + 1)
            for v in f['vars']:
                if v['n'] == n and len(v['p']) == 1 and isinstance(v['p'][0], int) and v['p'][0] <= f['argc']: return mk('arg', v['p'][0])
        return mk('arg', n)

    queue, inq = None, None
    ROUNDS, hints = 5, frozenset()

    def covers(self, ys):
        """one of the alternatives that already stands for all of them"""
        ls = {y: frozenset(self.leaves(y)) for y in ys}
        for y in sorted(ys, key=lambda t: t.id):
            if y.op == 'phi' and all(ls[z] <= ls[y] for z in ys): return y
        return None

    def tangled(self):
        """-> (phis that feed each other in a cycle but stand for one value, phis that are needed)"""
        live, todo = set(), [x for m in self.states.values() for st in m.values() for v in list(st.env.values()) + list(st.facts) for x in subterms(v) if x.op == 'phi']
        while todo:
            x = todo.pop()
            if x in live: continue
            live.add(x)
            todo += [z for y in self.alts.get(x, ()) for z in subterms(y) if z.op == 'phi' and z not in live]
        alts = {x: set(self.alts.get(x, ())) - {x} for x in live}
        one = {}
        for _ in range(20):
            n = len(one)
            todo = [c for c in sccs(alts.keys(), lambda x: [y for y in alts[x] if y in alts])]
            while todo:
                comp = todo.pop()
                if not comp: continue
                ext = {y for x in comp for y in alts[x] if y not in comp}
                if len(ext) == 1:
                    v = ext.pop()
                    for x in comp: one[x] = v
                elif (w := self.covers(ext)) is not None:
                    for x in comp: one[x] = w
                elif len(comp) > 1:
                    inner = {x for x in comp if all(y in comp for y in alts[x])}
                    todo += [c for c in sccs(inner, lambda x: [y for y in alts[x] if y in inner])]
            if len(one) == n: break
            memo = {}
            for x in one: alts.pop(x, None)
            def go(z):
                if isinstance(z, T):
                    if z.id in memo: return memo[z.id]
                    memo[z.id] = z
                    r = go(one[z]) if z in one else z if z.op == 'phi' else mk(z.op, *[go(w) for w in z.a])
                    memo[z.id] = r
                    return r
                if isinstance(z, tuple): return tuple(go(w) for w in z)
                return z
            alts = {x: {go(y) for y in ys} - {x} for x, ys in alts.items()}
        return set(one), frozenset(alts)

    def hint(self, x, key):
        own = mk('phi', key)
        if own in self.hints:
            if own not in self._made: self._made.add(own); self.alts[own] = set()
            if x is not own: self.alts[own].add(x)
            return own
        if x.op == 'it': return mk('it', x.a[0], self.hint(x.a[1], (key, 'base')), tuple((z[0],) + tuple(self.hint(a, (key, i, j)) for j, a in enumerate(z[1:])) for i, z in enumerate(x.a[2])))
        if x.op == 'agg' and x.a[2]: return agg(x.a[0], x.a[1], [(n, self.hint(v, (key, n))) for n, v in x.a[2]])
        return x

    def solve(self):
        while self.queue:
            node, key = self.queue.pop(0)
            self.inq.discard((node, key))
            st = self.states[node].get(key)
            if st is None: continue
            self.steps += 1
            if self.steps > self.maxsteps: self.overflow = True; break
            for i, (nn, ns) in enumerate(self.transfer(node, st.copy())):
                self.push(nn, ns, (node, key, i))

    def keyof(self, node, st):
        tg = self.rule.partition(st, self) if hasattr(self.rule, 'partition') else self.tags(st)
        key = (st.auto, tg)
        m = self.states.setdefault(node, {})
        if key not in m and len(m) >= self.maxpart: key = (st.auto, 'rest')
        return key

    def prune(self, entry, st0):
        """drop states that only intermediate iterates reached; -> whether something changed"""
        k0 = next(iter(self.states[entry]))
        for k, ins in self.ins[entry].items():
            if None in ins: k0 = k
        live, todo, prod = {(entry, k0)}, [(entry, k0)], {(entry, k0): {None}}
        while todo:
            node, key = todo.pop()
            st = self.states[node].get(key)
            if st is None: continue
            for i, (nn, ns) in enumerate(self.transfer(node, st.copy())):
                k = self.keyof(nn, ns)
                prod.setdefault((nn, k), set()).add((node, key, i))
                if (nn, k) not in live: live.add((nn, k)); todo.append((nn, k))
        ch = False
        for node in list(self.states):
            for key in list(self.states[node]):
                if (node, key) not in live:
                    self.states[node].pop(key); self.ins.get(node, {}).pop(key, None); ch = True; continue
                ins = self.ins[node][key]
                gone = [s for s in ins if s not in prod[(node, key)]]
                if gone:
                    for s in gone: ins.pop(s)
                    ch = True
                    self.visits.pop((node, key), None)
                    if ins: self.settle(node, key)
        return ch

    def tags(self, st):
        out = []
        for k, v in st.env.items():
            if k[0][0] != 'l' and not (k[0][0] == 't' and k[0][3] == 'ret'): continue
            if v.op == 'const' and isinstance(v.a[0], bool): out.append((k, v))
            elif v.op == 'agg' and v.a[1] and v.a[0] not in ('closure', 'coroutine'):
                x = (v.a[1],)
                if v.a[2] and v.a[2][0][1].op == 'agg' and v.a[2][0][1].a[1]: x += (v.a[2][0][1].a[1],)
                out.append((k, x))
            elif v is MOVED and False: out.append((k, 'm'))
        return frozenset(out)

    def push(self, node, st, src):
        if self.queue is None: self.queue, self.inq = [], set()
        key = self.keyof(node, st)
        self.ins.setdefault(node, {}).setdefault(key, {})[src] = st
        self.settle(node, key)

    def settle(self, node, key):
        """one predecessor: its latest state; several: their join, with a phi per location that differs"""
        m = self.states.setdefault(node, {})
        cur = m.get(key)
        where = (node[0].id, node[1], key)
        self._made = set()
        it = iter(self.ins[node][key].values())
        new = next(it)
        for o in it:
            n = self.join(new, o, where)
            if n is not None: new = n
        if self.hints:
            env = {k: self.hint(v, (where, k)) for k, v in new.env.items()}
            for k in self.hintlocs.get(where, ()):
                if k not in env and (k[0][0] == 'p' or self._has_prefix(new.env, k)): env[k] = self.hint(self.raw(new, k), (where, k))
            if len(env) != len(new.env) or any(env[k] is not v for k, v in new.env.items()): new = St(env, new.facts, new.auto)
        self._made = None
        if cur is not None and cur.env == new.env and cur.facts == new.facts: return
        cnt = self.visits[(node, key)] = self.visits.get((node, key), 0) + 1
        if cur is not None and cnt > 12:      # force convergence: widen against the previous state
            n = self.join(cur, new, where)
            if n is None: return
            new = n
        m[key] = new
        if (node, key) not in self.inq:
            self.inq.add((node, key)); self.queue.append((node, key))

    _made = None

    def join(self, a, b, where):
        ch = False
        env = {}
        keys = set(a.env) | set(b.env)
        for k in keys:
            x, y = a.env.get(k), b.env.get(k)
            if x is y: env[k] = x; continue
            root = k[0]
            if x is None:
                if root[0] == 'p' or self._has_prefix(a.env, k): x = self.raw(a, k)
                else: continue          # dead / not yet live on one side
            if y is None:
                if root[0] == 'p' or self._has_prefix(b.env, k): y = self.raw(b, k)
                else: ch = True; continue
            env[k] = self.jterm(x, y, (where, k))
            if env[k] is not a.env.get(k): ch = True
        facts = {}
        for k, f in a.facts.items():
            g = b.facts.get(k)
            if g == f: facts[k] = f; continue
            ch = True
            if g and g[0] == 'in' and f[0] == 'in': facts[k] = ('in', f[1] | g[1])
            elif g and g[0] == 'ni' and f[0] == 'ni':
                if f[1] & g[1]: facts[k] = ('ni', f[1] & g[1])
            elif g:
                i, nset = (f[1], g[1]) if f[0] == 'in' else (g[1], f[1])
                if nset - i: facts[k] = ('ni', nset - i)
            if k in facts and facts[k] == f: pass
            if k in facts and facts[k][0] == 'in' and len(facts[k][1]) > 12: facts.pop(k)
        if facts == a.facts and not any(env.get(k) is not v for k, v in a.env.items()) and len(env) == len(a.env): ch = False
        else: ch = True
        if not ch: return None
        return St(env, facts, a.auto)

    def _has_prefix(self, env, k):
        root, path = k
        return any((root, path[:n]) in env for n in range(len(path)))

    def jterm(self, x, y, key):
        if x is y: return x
        own = mk('phi', key)
        if self._made is not None and own not in self._made:
            # an input that is this very phi is the value that came around the loop unchanged
            if x is own: return y
            if y is own: return x
        elif x is own or y is own:
            z = y if x is own else x
            self.alts.setdefault(own, set()).add(z)
            return own
        if x.op == 'phi' and self.alts.get(x) is not None and y in self.alts[x]: return x
        if x.op == 'it' and y.op == 'it' and x.a[0] == y.a[0] and [z[0] for z in x.a[2]] == [z[0] for z in y.a[2]]:
            return mk('it', x.a[0], self.jterm(x.a[1], y.a[1], (key, 'base')), tuple((z[0],) + tuple(self.jterm(a, b, (key, i, j)) for j, (a, b) in enumerate(zip(z[1:], w[1:]))) for i, (z, w) in enumerate(zip(x.a[2], y.a[2]))))
        if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]) and x.a[2]:
            return agg(x.a[0], x.a[1], [(n, self.jterm(v, w, (key, n))) for (n, v), (_, w) in zip(x.a[2], y.a[2])])
        if self._made is not None and own not in self._made:
            self._made.add(own); self.alts[own] = set()
        self.alts.setdefault(own, set()).update((x, y))
        return own

    # ---- events
    def emit(self, kind, st, ctx, span, **k):
        ev = Ev(kind=kind, ctx=ctx, span=span, where=loc_str(span), fn=ctx.fn['id'], **k)
        n = self.rule.event(kind, ev, st, self)
        if n is not None: st.auto = n

    # ---- transfer
    def transfer(self, node, st):
        ctx, bb = node
        stage = None
        if isinstance(bb, tuple):
            _, bb, stage = bb
        fn = ctx.fn
        b = fn['blocks'][bb]
        if stage is None:
            for s in b['s']: self.stmt(st, ctx, s)
        t = b['t']
        k = t['k']
        if k in ('goto',): return [((ctx, t['t']), st)]
        if k == 'return': return self.do_return(st, ctx, t)
        if k == 'switch': return self.do_switch(st, ctx, t)
        if k == 'drop':
            l = self.place(st, ctx, t['p'])
            v = self.read(st, l)
            if v is not MOVED and v is not UNINIT:
                self.emit('drop', st, ctx, t['s'], loc=l, val=v, ty=t.get('ty', ''))
            return [((ctx, t['t']), st)]
        if k == 'assert':
            c = self.operand(st, ctx, t['o']); self.flush_moves(st)
            st2 = st.copy()
            if self.assume(st2, c, not t['exp']):
                self.emit('assertfail', st2, ctx, t['s'], msg=t['msg'], cond=c)
            if not self.assume(st, c, t['exp']): return []
            return [((ctx, t['t']), st)]
        if k == 'call': return self.do_call(st, ctx, bb, t, stage)
        if k == 'yield':
            self.emit('yield', st, ctx, t['s'])
            d = self.place(st, ctx, t['d'])
            self.write(st, d, mk('resume', ctx.id, bb))
            return [((ctx, t['t']), st)]
        return []

    def assign_event(self, st, ctx, l, v, span, how):
        self.emit('store', st, ctx, span, loc=l, val=v, how=how)

    def stmt(self, st, ctx, s):
        k = s['k']
        if k == 'dead':
            r = ('l', ctx.id, s['l'])
            for kk in [kk for kk in st.env if kk[0] == r]: st.env.pop(kk)
            return
        if k == 'setd':
            return
        if k != '=': return
        v = self.rvalue(st, ctx, s['r'], s)
        self.flush_moves(st)
        l = self.place(st, ctx, s['p'])
        if l[0][0] == 'p' or any(e == '*' for e in s['p'][1:]):
            self.assign_event(st, ctx, l, v, s['s'], 'assign')
        self.write(st, l, v)

    def rvalue(self, st, ctx, r, s):
        k = r['k']
        if k == 'use': return self.operand(st, ctx, r['o'])
        if k in ('ref', 'rawptr'):
            l = self.place(st, ctx, r['p'])
            if l[0][0] == 'p' and l[1] == () and l[0][1].op != 'box': return l[0][1]     # &*x
            if l[0][0] == 'p' and l[1] == (): return l[0][1]
            return ref(l)
        if k == 'bin':
            a, b = self.operand(st, ctx, r['a']), self.operand(st, ctx, r['b'])
            o = r['op']
            if getattr(self.rule, 'see_bin', False): self.emit('bin', st, ctx, s['s'], op=o.replace('WithOverflow', '').replace('Unchecked', ''), a=a, b=b)
            if o in ('Lt', 'Le', 'Gt', 'Ge') and self.opty(ctx, r['a']).startswith('u'):
                # unsigned: x < 1, x <= 0, 0 >= x, 1 > x are x == 0
                if (o == 'Lt' and b is ONE) or (o == 'Le' and b is ZERO): return mk('bin', 'Eq', a, ZERO) if a.op != 'const' else self.binop(o, a, b)
                if (o == 'Ge' and b is ONE) or (o == 'Gt' and b is ZERO): return mk('un', 'Not', mk('bin', 'Eq', a, ZERO)) if a.op != 'const' else self.binop(o, a, b)
                if (o == 'Gt' and a is ONE) or (o == 'Ge' and a is ZERO): return mk('bin', 'Eq', b, ZERO) if b.op != 'const' else self.binop(o, a, b)
                if (o == 'Le' and a is ONE) or (o == 'Lt' and a is ZERO): return mk('un', 'Not', mk('bin', 'Eq', b, ZERO)) if b.op != 'const' else self.binop(o, a, b)
            return self.binop(o, a, b)
        if k == 'un':
            a = self.operand(st, ctx, r['a'])
            if r['op'] == 'Not' and a.op == 'const' and isinstance(a.a[0], bool): return const(not a.a[0])
            if r['op'] == 'Not' and a.op == 'un' and a.a[0] == 'Not': return a.a[1]
            if r['op'] == 'PtrMetadata': return self.lenof(self.val(st, a))
            return mk('un', r['op'], a)
        if k == 'cast':
            a = self.operand(st, ctx, r['o'])
            if r['ck'].startswith(('IntToInt',)):
                if a.op == 'const' and not isinstance(a.a[0], bool) and isinstance(a.a[0], int): return a
                return mk('cast', a, r['t'])
            return a
        if k == 'discr':
            v = self.read(st, self.place(st, ctx, r['p']))
            vs = r.get('variants')
            if isinstance(vs, dict): m = tuple(sorted((int(a), b) for a, b in vs.items()))
            elif vs: m = tuple(sorted((int(a), b) for a, b in vs))
            else: m = ()
            return mk('discr', v, m)
        if k == 'repeat': return agg('array', 'repeat', (('0', self.operand(st, ctx, r['o'])), ('n', mk('lit', str(r['n'])))))
        if k == 'agg':
            ops = [self.operand(st, ctx, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'adt':
                names = r.get('fields') or []
                v = agg(last(r['adt']), r['v'] if r.get('enum') else '', [(names[i] if i < len(names) else str(i), o) for i, o in enumerate(ops)])
                if getattr(self.rule, 'see_make', False): self.emit('make', st, ctx, s['s'], val=v, adt=last(r['adt']), variant=r['v'], adtid=r['adt'])
                return v
            if ak in ('closure', 'coroutine'):
                f = self.P.fns.get(r['id'])
                names = [u['n'] for u in f['upvars']] if f else []
                # upvar fields of the same variable (disjoint captures) are disambiguated by position
                fields = []
                for i, o in enumerate(ops):
                    fields.append((str(i), o))
                return agg(ak, r['id'], fields)
            return agg(ak, '', [(str(i), o) for i, o in enumerate(ops)])
        if k == 'tls': return mk('static', r['id'])
        return mk('rv', k, ctx.id, s['s']['l'])

    def opty(self, ctx, o):
        p = o.get('cp') or o.get('mv')
        if p is None: return o['c'].get('ty', '')
        if len(p) == 1: return ctx.fn['locals'][p[0]]['t']
        e = p[-1]
        if e == '*' and len(p) == 2: return re.sub(r"^&('\w+ )?(mut )?", '', ctx.fn['locals'][p[0]]['t'])
        return e.get('t', '') if isinstance(e, dict) else ''

    def binop(self, op, a, b):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        v = None
        if a.op == 'const' and b.op == 'const' and isinstance(a.a[0], int) and isinstance(b.a[0], int):
            x, y = a.a[0], b.a[0]
            try:
                v = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'Eq': lambda: x == y, 'Ne': lambda: x != y, 'Lt': lambda: x < y,
                     'Le': lambda: x <= y, 'Gt': lambda: x > y, 'Ge': lambda: x >= y, 'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y}.get(base, lambda: None)()
            except Exception: v = None
        r = const(v) if v is not None else mk('bin', base, a, b)
        if op.endswith('WithOverflow'):
            return agg('tuple', '', (('0', r), ('1', FALSE if v is not None and v >= 0 else mk('app', 'overflow', r))))
        return r

    def do_switch(self, st, ctx, t):
        v = self.operand(st, ctx, t['o']); self.flush_moves(st)
        out = []
        fn = ctx.fn
        cases = [(int(a), b) for a, b in t['cases']]
        oth = t['otherwise']
        othdead = oth is None or fn['blocks'][oth]['t']['k'] == 'unreachable' and not fn['blocks'][oth]['s']
        while v.op == 'cast': v = v.a[0]
        if v.op == 'discr':
            x, m = v.a
            m = dict(m)
            names = {n: m.get(n, '#%d' % n) for n, _ in cases}
            allv = frozenset(m.values())
            seen = frozenset(names.values())
            for n, bb in cases:
                s2 = st.copy()
                if self.assume_var(s2, x, frozenset([names[n]]), True, allv): out.append(((ctx, bb), s2))
            if not othdead:
                s2 = st.copy()
                if allv and not (allv - seen): pass
                elif self.assume_var(s2, x, seen, False, allv or None): out.append(((ctx, oth), s2))
            return out
        isbool = len(cases) == 1 and cases[0][0] == 0 and self._isbool(st, ctx, t)
        if isbool:
            s2 = st.copy()
            if self.assume(s2, v, False): out.append(((ctx, cases[0][1]), s2))
            if self.assume(st, v, True): out.append(((ctx, oth), st))
            return out
        for n, bb in cases:
            s2 = st.copy()
            if self.assume_in(s2, v, frozenset([n]), True): out.append(((ctx, bb), s2))
        if not othdead:
            if self.assume_in(st, v, frozenset(n for n, _ in cases), False): out.append(((ctx, oth), st))
        return out

    def _isbool(self, st, ctx, t):
        o = t['o']
        p = o.get('cp') or o.get('mv')
        if p is None: return o['c'].get('ty') == 'bool'
        if len(p) == 1: return ctx.fn['locals'][p[0]]['t'] == 'bool'
        e = p[-1]
        if isinstance(e, dict) and 't' in e: return e['t'] == 'bool'
        if e == '*' and len(p) == 2: return ctx.fn['locals'][p[0]]['t'].endswith('bool')
        return len(t['cases']) == 1 and t['cases'][0][0] in (0, '0')

    # ---- calls
    def do_return(self, st, ctx, t):
        v = self.read(st, (('l', ctx.id, 0), ()))
        if ctx.parent is None:
            self.emit('return', st, ctx, t['s'], val=v)
            return []
        self.emit('leave', st, ctx, t['s'], val=v, id=ctx.fn['id'])
        for k in [k for k in st.env if (k[0][0] in ('l', 't')) and k[0][1] == ctx.id]: st.env.pop(k)
        p = ctx.parent
        st.env[(('t', p.id, ctx.bb, 'ret'), ())] = v
        return [((p, ('v', ctx.bb, ctx.tag)), st)]

    def save(self, st, c):
        for i, a in enumerate(c.args): st.env[(('t', c.ctx.id, c.bb, 'a%d' % i), ())] = a

    def temp(self, st, c, name): return st.env.get((('t', c.ctx.id, c.bb, name), ()))
    def settemp(self, st, c, name, v): st.env[(('t', c.ctx.id, c.bb, name), ())] = v
    def ret(self, st, c): return self.temp(st, c, 'ret')

    def finish(self, st, c, v):
        for k in [k for k in st.env if k[0][0] == 't' and k[0][1] == c.ctx.id and k[0][2] == c.bb]: st.env.pop(k)
        if c.t['t'] is None: return None
        d = self.place(st, c.ctx, c.t['d'])
        if d[0][0] == 'p': self.assign_event(st, c.ctx, d, v, c.span, 'call')
        self.write(st, d, v)
        return ((c.ctx, c.t['t']), st)

    def goto_stage(self, st, c, stage):
        self.save(st, c)
        return ((c.ctx, ('v', c.bb, stage)), st)

    def enter(self, st, c, fn, args, tag):
        """inline fn; on return control reaches stage `tag` of the call"""
        self.save(st, c)
        n = self.ctx(c.ctx, fn, c.bb, tag)
        self.inlined.add(fn['id'])
        for i, a in enumerate(args): st.env[(('l', n.id, i + 1), ())] = a
        self.emit('enter', st, n, c.span, id=fn['id'], args=args)
        return ((n, 0), st)

    def in_stack(self, ctx, fid):
        while ctx is not None:
            if ctx.fn['id'] == fid: return True
            ctx = ctx.parent
        return False

    def closure_of(self, st, t):
        for _ in range(4):
            t = strip(t)
            if t.op == 'ref': t = self.read(st, t.a[0])
            else: break
        t = strip(t)
        if t.op == 'agg' and t.a[0] == 'closure' and t.a[1] in self.P.fns: return t
        if t.op == 'fn': return t
        return None

    def call_closure(self, st, c, f, args, tag):
        """-> successor entering the closure, or None when it is unknown"""
        cl = self.closure_of(st, f)
        if cl is None: return None
        if cl.op == 'fn':
            fn = self.P.fns.get(cl.a[0])
            if fn is None or self.in_stack(c.ctx, fn['id']) or c.ctx.depth >= self.MAXDEPTH or self.rule.stop(fn['id']):
                # constructor / foreign function used as a value
                v = self.ctor(cl, args) or (self.pure_call(st, cl.a[1], args)) or mk('call', '%d.%s.%s' % (c.ctx.id, c.bb, tag), cl.a[1], *args)
                self.emit('call', st, c.ctx, c.span, name=cl.a[1], args=args, fr=None, id=cl.a[0], call=c)
                self.save(st, c)
                self.settemp(st, c, 'ret', v)
                return ((c.ctx, ('v', c.bb, tag)), st)
            return self.enter(st, c, fn, args, tag)
        fn = self.P.fns[cl.a[1]]
        if self.in_stack(c.ctx, fn['id']) or c.ctx.depth >= self.MAXDEPTH: return None
        # the environment: by reference if the body dereferences it
        self_t = cl
        x = strip(f)
        byref = fn['locals'][1]['t'].startswith('&') if fn['argc'] else False
        if byref and x.op == 'ref':
            while True:
                v = self.read(st, x.a[0])
                if strip(v).op == 'ref': x = strip(v)
                else: break
            self_t = x
        return self.enter(st, c, fn, [self_t] + list(args), tag)

    def ctor(self, fnterm, args):
        nm = fnterm.a[0]
        m = re.match(r'.*::(\w+)::(\w+)(::\{constructor#0\})?$', nm)
        if nm.endswith('{constructor#0}') or last(nm) in ('Some', 'Ok', 'Err'):
            parts = [p for p in nm.split('::') if p != '{constructor#0}']
            enum = {'Some': 'Option', 'Ok': 'Result', 'Err': 'Result'}.get(parts[-1]) or (parts[-2] if len(parts) > 1 and parts[-2][:1].isupper() else None)
            fs = [(str(i), a) for i, a in enumerate(args)]
            return agg(enum, parts[-1], fs) if enum else agg(parts[-1], '', fs)
        return None

    def do_call(self, st, ctx, bb, t, stage):
        c = Call(self, ctx, bb, t, st, stage)
        if stage is None: self.flush_moves(st)
        macs = c.span.get('m') or []
        if any(m in LOG_MACROS for m in macs) and not getattr(self.rule, 'see_logs', False):
            d = self.place(st, ctx, t['d'])
            v = mk('call', c.site, 'log')
            self.write(st, d, v)
            return [((ctx, t['t']), st)] if t['t'] is not None else []
        r = self.call_models(st, c)
        return [x for x in r if x is not None]

    def call_models(self, st, c):
        name, stage = c.name, c.stage
        if stage is None and c.fr is not None and hasattr(self.rule, 'summary'):
            r = self.rule.summary(self, st, c, c.fr.get('rid') or c.fr['id'])
            if r is not None: return r
        m = self.rule.model(name)
        if m is not None:
            r = m(self, st, c)
            if r is not None: return r
        import models
        m = models.MODELS.get(name)
        if m is not None:
            r = m(self, st, c)
            if r is not None: return r
        if stage == 'inl': return [self.finish(st, c, self.ret(st, c))]
        if stage is not None and stage.startswith('maybe'): return models.maybe_closures(self, st, c)
        # indirect
        if c.fr is None:
            s = self.call_closure(st, c, c.fnterm, c.args, 'inl')
            if s: return [s]
            return self.opaque(st, c)
        fid = c.fr.get('rid') if c.fr.get('rkind') in ('item', None) and c.fr.get('rid') else c.fr['id']
        fn = self.P.fns.get(fid)
        if fn is None and c.fr.get('rkind') == 'virtual': fn = None
        if fn is not None and fn['kind'] in ('fn', 'method') and not self.rule.stop(fid) and not self.in_stack(c.ctx, fid) and c.ctx.depth < self.MAXDEPTH:
            self.emit('call', st, c.ctx, c.span, name=name, args=c.args, fr=c.fr, id=fid, call=c, inlined=True)
            return [self.enter(st, c, fn, c.args, 'inl')]
        if fn is not None: self.skipped.add(fid)
        ct = self.ctor(mk('fn', fid, name), c.args) if fid.endswith('{constructor#0}') else None
        if ct is not None: return [self.finish(st, c, ct)]
        if name in TRANSPARENT:
            a = c.args[0] if c.args else UNIT
            if name in ('Clone::clone', 'ToOwned::to_owned', 'Borrow::borrow'): a = self.val(st, a)
            return [self.finish(st, c, a)]
        if name in REFPASS:
            return [self.finish(st, c, c.args[0])]
        p = self.pure_call(st, name, c.args)
        if p is not None:
            self.emit('call', st, c.ctx, c.span, name=name, args=c.args, fr=c.fr, id=fid, call=c)
            self.emit('ret', st, c.ctx, c.span, name=name, args=c.args, val=p, call=c, id=fid)
            return [self.finish(st, c, p)]
        if any(self.closure_of(st, a) is not None and self.closure_of(st, a).op == 'agg' for a in c.args):
            return models.maybe_closures(self, st, c)
        return self.opaque(st, c)

    def pure_call(self, st, name, args):
        if name not in PURE and name not in getattr(self.rule, 'pure', ()): return None
        vs = [self.val(st, a) for a in args]
        n = name.split('::')[-1]
        if n in ('max', 'min') and len(vs) == 2: vs.sort(key=lambda t: t.id)
        if n == 'as_str' or n == 'to_string' or n == 'as_ref' or n == 'as_bytes' or n == 'as_path': return vs[0]
        if n == 'len': return self.lenof(vs[0])
        if n == 'is_empty': return mk('bin', 'Eq', self.lenof(vs[0]), const(0))
        if n == 'wrapping_sub': return mk('bin', 'Sub', *vs)
        if n == 'wrapping_add': return mk('bin', 'Add', *vs)
        return app(n, *vs)

    def opaque(self, st, c, emit=True):
        fid = (c.fr.get('rid') or c.fr['id']) if c.fr else None
        if emit: self.emit('call', st, c.ctx, c.span, name=c.name, args=c.args, fr=c.fr, id=fid, call=c)
        av = []
        for a in c.args:
            av.append(a)
        v = mk('call', c.site, c.name, *[self.val(st, a) if a.op == 'ref' and a.a[0][0][0] != 'p' else a for a in av])
        self.refresh(st, v)
        # &mut arguments: the pointee may change
        for i, a in enumerate(c.args):
            ty = self.argty(c, i)
            if ty.startswith('&') and re.match(r"^&('\w+ )?mut ", ty) or ty.startswith('core::pin::Pin<&mut') or ty.startswith("core::pin::Pin<&'"):
                self.havoc(st, c, a, i)
        if c.t['t'] is None:
            self.emit('diverge', st, c.ctx, c.span, name=c.name, args=c.args, call=c)
            return []
        self.emit('ret', st, c.ctx, c.span, name=c.name, args=c.args, val=v, call=c, id=fid)
        return [self.finish(st, c, v)]

    def havoc(self, st, c, a, i):
        loc = self.pointee(a)
        old = self.read(st, loc)
        if old.op == 'ref': loc = old.a[0]; old = self.read(st, loc)
        others = tuple(self.val(st, x) for j, x in enumerate(c.args) if j != i)
        u = mk('upd', c.site, c.name, old, *others)
        if contains(old, mk('upd0', c.site)): pass
        u = _cap_upd(u, c.site)
        self.emit('store', st, c.ctx, c.span, loc=loc, val=u, how='call', name=c.name, call=c)
        self.write(st, loc, u)

    def argty(self, c, i):
        o = c.t['args'][i] if i < len(c.t['args']) else None
        if o is None: return ''
        p = o.get('cp') or o.get('mv')
        if p is None: return o['c'].get('ty', '')
        if len(p) == 1: return c.ctx.fn['locals'][p[0]]['t']
        e = p[-1]
        return e.get('t', '') if isinstance(e, dict) else ''


def sccs(nodes, succ):
    """strongly connected components (Tarjan, iterative), successors first"""
    nodes = sorted(nodes, key=lambda x: x.id)
    ix, low, on, st, out = {}, {}, set(), [], []
    for r in nodes:
        if r in ix: continue
        work = [(r, iter(succ(r)))]
        ix[r] = low[r] = len(ix); st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in ix:
                    ix[w] = low[w] = len(ix); st.append(w); on.add(w)
                    work.append((w, iter(succ(w)))); break
                if w in on: low[v] = min(low[v], ix[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == ix[v]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w is v: break
                    out.append(c)
    return out


def _cap_upd(u, site):
    """an update at a site applied to a value that already contains an update from that site: fold the inner one"""
    old = u.a[2]
    inner = [s for s in subterms(old) if s.op == 'upd' and s.a[0] == site]
    if inner:
        x = max(inner, key=lambda s: s.id)
        return mk('upd', site, u.a[1], subst(old, x, mk('prev', mk('updsite', site))), *[subst(y, x, mk('prev', mk('updsite', site))) for y in u.a[3:]])
    return u


def _collapse(t):
    """prev(prev(x)) = prev(x)"""
    memo = {}

    def go(z):
        if isinstance(z, T):
            r = memo.get(z.id)
            if r is not None: return r
            if z.op == 'prev' and isinstance(z.a[0], T) and z.a[0].op == 'prev': r = go(z.a[0])
            else: r = mk(z.op, *[go(w) for w in z.a])
            memo[z.id] = r
            return r
        if isinstance(z, tuple): return tuple(go(w) for w in z)
        return z
    return go(t)


def const_value(P, d, seen=()):
    """the value of a constant whose body is a straight line; references are seen through"""
    f = P.fns.get(d)
    if f is None or f['kind'] not in ('const', 'static') or d in seen: return None
    env, b = {}, 0
    def op(o):
        if 'c' in o:
            c = o['c']
            if 'def' in c: return const_value(P, c['def'], seen + (d,)) or mk('lit', c.get('disp', '?'))
            if 'fn' in c: return mk('fn', c['fn'].get('rid') or c['fn']['id'], short(c['fn']))
            if 'str' in c: return const(c['str'])
            if 'int' in c: return const(int(c['int'])) if c.get('ty') not in ('char', 'bool') else const(c['int'][1:]) if c.get('ty') == 'char' else const(bool(int(c['int'])))
            return mk('lit', c.get('disp', '?'))
        return pl(o.get('cp') or o.get('mv'))
    def pl(p):
        t = env.get(p[0])
        for e in p[1:]:
            if e in ('*', 'cast') or t is None: continue
            if 'f' in e and 'n' in e: t = project(t, ('f', e['n']))
        return t
    for _ in range(400):
        for st in f['blocks'][b]['s']:
            if st['k'] != '=': continue
            r, v = st['r'], None
            if r['k'] in ('use', 'cast'): v = op(r['o'])
            elif r['k'] in ('ref', 'rawptr'): v = pl(r['p'])
            elif r['k'] == 'agg':
                ops = [op(o) for o in r['ops']]
                if any(x is None for x in ops): return None
                n = r.get('fields') or [str(i) for i in range(len(ops))]
                v = agg(r['adt'] if r['ak'] == 'adt' else r['ak'], r.get('v') if r['ak'] == 'adt' else None, tuple(zip(n, ops)))
            env[st['p'][0]] = v
        t = f['blocks'][b]['t']
        if t['k'] == 'return': return env.get(0)
        if t['k'] in ('goto', 'drop') or t['k'] == 'falseedge': b = t['t']
        else: return None
    return None
