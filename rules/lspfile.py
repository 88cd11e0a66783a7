"""LspFile: positions, byte offsets and the line table; and the edits that keep text and table together."""
from engine import *
from engine import _strip_generics
from jsonrpc import method
from parser import lin, lsub

UNITS = ['analyzer_core']
MOD = 'analyzer_core::lsp_file::'
TEXTFN = ('strip_suffix', 'strip_prefix', 'trim_end', 'trim_start', 'trim', 'trim_end_matches', 'trim_matches', 'to_string', 'display', 'trim_start_matches', 'as_str')


class Facts:
    """names of the fields and functions of the module, found by type"""
    def __init__(s, c, P):
        s.ok = False
        A = {n[len(MOD):]: a for n, a in P.adts.items() if n.startswith(MOD)}
        for n in ('LspFile', 'Position', 'Range', 'ChangeEvent'):
            if n not in A: c.missing('the type lsp_file::' + n); return
        f = lambda n: [(x['n'], x['t']) for x in A[n]['variants'][0]['fields']]
        s.text = [n for n, t in f('LspFile') if t in ('alloc::string::String',)]
        s.table = [n for n, t in f('LspFile') if re.match(r'^alloc::vec::Vec<(usize|u\d+)>$', t)]
        if len(s.text) != 1 or len(s.table) != 1: c.missing('the text and the line table among the fields of LspFile'); return
        s.text, s.table = s.text[0], s.table[0]
        pf = [n for n, t in f('Position')]
        if 'line' not in pf or 'character' not in pf: c.missing('Position::line and Position::character'); return
        s.fn = {}
        for fid, x in P.fns.items():
            if not fid.startswith(MOD) or x['kind'] not in ('fn', 'method'): continue
            s.fn.setdefault(last(_strip_generics(x['name'])), []).append(fid)
        def one(n, im='LspFile'):
            return method(P, im, n)
        s.off, s.pos, s.lc, s.edit, s.new = one('lsp_to_byte'), one('byte_to_lsp'), one('line_char'), one('lazy_add'), one('new')
        s.rto, s.rfrom = one('lsp_range_to_byte_range'), one('byte_range_to_lsp_range')
        for n, v in (('lsp_to_byte', s.off), ('byte_to_lsp', s.pos), ('lazy_add', s.edit), ('new', s.new)):
            if v is None: c.missing('LspFile::' + n); return
        s.lines = set()
        for fid, x in P.fns.items():
            if fid.startswith(MOD) and x['kind'] in ('fn', 'method') and x['argc'] == 1 and re.match(r'^alloc::vec::Vec<usize>$', x['locals'][0]['t']) \
                    and re.match(r"^&('\w+ )?(alloc::string::String|str)$", x['locals'][1]['t']): s.lines.add(fid)
        s.own = sorted(fid for fid, x in P.fns.items() if fid.startswith(MOD) and x['kind'] in ('fn', 'method') and not x['name'].startswith('<')
                       and any('LspFile' in l['t'] for l in x['locals'][:x['argc'] + 1]) or fid in s.lines)
        s.ok = True


class Base(Rule):
    """the public conversions are summarised; private helpers are followed"""
    see_bin = True
    pure = ('slice::partition_point', 'slice::binary_search_by', 'str::as_bytes', 'String::as_bytes')

    def __init__(s, c, F, entry): s.c, s.F, s.entry = c, F, entry

    def stop(s, fid): return False

    def model(s, name): return None

    def intercept(s, E, st, c):
        """summary of a call to one of the module's own conversions"""
        if c.fr is None or c.stage is not None: return None
        fid = c.fr.get('rid') or c.fr['id']
        F = s.F
        if fid == s.entry: return None
        if fid == F.off:
            f = E.val(st, c.args[0]); p = E.val(st, c.args[1])
            return app('off', s.state(E, st, c.args[0]), p)
        if fid == F.pos:
            v = app('pos', s.state(E, st, c.args[0]), E.val(st, c.args[1]))
            return agg('Position', '', (('line', mk('fld', v, 'line')), ('character', mk('fld', v, 'character'))))
        if fid == F.lc: return app('linechar', s.state(E, st, c.args[0]), E.val(st, c.args[1]))
        if fid in F.lines: return app('lines', s.textof(E.val(st, c.args[0])))
        return None

    def state(s, E, st, a):
        f = E.val(st, a)
        return mk('lspfile', project(f, ('f', s.F.text)), project(f, ('f', s.F.table)))

    @staticmethod
    def textof(t): return t


def patch_engine(E):
    """route calls through the rule's summaries"""
    orig = E.call_models

    def cm(st, c):
        v = E.rule.intercept(E, st, c)
        if v is not None:
            E.emit('call', st, c.ctx, c.span, name='<summary>', args=c.args, fr=c.fr, id=c.fr.get('rid') or c.fr['id'], call=c, val=v)
            return [E.finish(st, c, v)]
        return orig(st, c)
    E.call_models = cm


# ---------------------------------------------------------------- units
def B(k): return ('B', k)
CH, LN = ('C', None), ('L', None)
def N(k): return ('N', k)
UNITNAME = {'B': 'bytes', 'C': 'characters', 'L': 'lines'}


class Units(Base):
    def __init__(s, c, F, entry, argk):
        super().__init__(c, F, entry)
        s.argk = argk
        s.memo = {}
        s.iters = {}        # function -> kinds of string iterators it drives
        s.bins = {}         # (where, op) -> list of kind pairs

    # -- classification of containers
    def istext(s, t, seen=()):
        if t in seen: return None
        if t.op == 'fld' and t.a[1] == s.F.text: return True
        if t.op == 'fld' and t.a[1] == 'text': return True
        if t.op == 'const': return isinstance(t.a[0], str)
        if t.op == 'app' and t.a[0] in TEXTFN: return s.istext(t.a[1], seen + (t,))
        if t.op == 'app' and t.a[0] == 'get': return s.istext(t.a[1], seen + (t,))
        if t.op == 'idx': return s.istext(t.a[0], seen + (t,))
        if t.op == 'arg': return s.argk.get(t.a[0]) == 'text' or None
        if t.op in ('fld', 'as') and isinstance(t.a[0], T) and (t.op == 'as' or t.a[1] == '0'): return s.istext(t.a[0], seen + (t,))
        if t.op in ('prev', 'upd'): return s.istext(t.a[0] if t.op == 'prev' else t.a[2], seen + (t,))
        if t.op == 'phi':
            r = [s.istext(x, seen + (t,)) for x in s.E.alts.get(t, ())]
            return True if any(x is True for x in r) else None
        return None

    def istable(s, t, seen=()):
        if t in seen: return None
        if t.op == 'fld' and t.a[1] == s.F.table: return True
        if t.op == 'app' and t.a[0] == 'lines': return True
        if t.op == 'with': return s.istable(t.a[0], seen + (t,))
        if t.op == 'upd': return s.istable(t.a[2], seen + (t,))
        if t.op == 'prev': return s.istable(t.a[0], seen + (t,))
        if t.op == 'arg': return s.argk.get(t.a[0]) == 'table' or None
        if t.op == 'app' and t.a[0] == 'default': return None
        if t.op == 'phi':
            r = [s.istable(x, seen + (t,)) for x in s.E.alts.get(t, ())]
            return True if any(x is True for x in r) else None
        return None

    # -- units of a term
    def K(s, t, seen=frozenset()):
        """-> ('B', offset) | ('C',_) | ('L',_) | ('N', n or None) | 'bot' | None (unknown)"""
        if t in seen: return 'bot'
        if len(seen) > 60: return None
        k = s.memo.get(t)
        if k is not None and not (t.op == 'phi' or contains_phi(t)): return k
        k = s.K0(t, seen | {t} if t.op == 'phi' else seen)
        s.memo[t] = k
        return k

    def K0(s, t, seen):
        o = t.op
        if o == 'const': return N(t.a[0]) if isinstance(t.a[0], int) and not isinstance(t.a[0], bool) else None
        if o == 'cast': return s.K(t.a[0], seen)
        if o == 'prev': return s.K(t.a[0], seen)
        if o == 'arg':
            k = s.argk.get(t.a[0])
            return k if isinstance(k, tuple) else None
        if o == 'fld':
            b, n = t.a
            if n == 'line': return LN
            if n == 'character': return CH
            if b.op == 'elem' and b.a[1] == 'char_indices' and n == '0': return B(0)
            if b.op == 'as' and b.a[0].op == 'app' and b.a[0].a[0] == 'binary_search' and s.istable(b.a[0].a[1]): return LN
            if b.op == 'arg' and s.argk.get(b.a[0]) == 'brange' and n in ('start', 'end'): return B(0)
            if b.op == 'as' and b.a[0].op == 'app' and b.a[0].a[0] in ('find', 'rfind') : return B(0)
            return None
        if o == 'app':
            n = t.a[0]
            if n == 'off': return B(0)
            if n == 'linechar': return CH
            if n == 'len_utf8': return B(0)
            if n == 'len':
                x = t.a[1]
                if x.op == 'coll':
                    it = x.a[1]
                    if it.op == 'it' and it.a[0] == 'chars': return CH
                    return None
                if s.istext(x): return B(0)
                if s.istable(x): return LN
                return None
            if n == 'count':
                it = t.a[1]
                if it.op == 'it':
                    if any(st[0] in ('filter', 'filter_map', 'flat_map', 'flatten') for st in it.a[2]): return None
                    if it.a[0] in ('chars', 'char_indices'): return CH
                    if it.a[0] == 'bytes': return B(0)
                    if it.a[0] in ('ref', 'mut') and s.istable(s.base(it.a[1])): return LN
                    if it.a[0] == 'lines': return LN
                return None
            if n in ('max', 'min', 'saturating_sub', 'saturating_add', 'wrapping_sub', 'wrapping_add'):
                a, b = s.K(t.a[1], seen), s.K(t.a[2], seen)
                if n in ('max', 'min'): return s.meet(a, b)
                return s.arith('Sub' if 'sub' in n else 'Add', a, b)
            if n == 'sum':
                el = t.a[1]
                return None
            if n == 'partition_point' and s.istable(t.a[1]): return LN
            return None
        if o == 'nth':
            if len(t.a) < 4: return None
            k, base = t.a[2], t.a[3]
            if k in ('chars', 'char_indices'): return CH
            if k == 'bytes': return B(0)
            if k in ('ref', 'mut', 'val') and s.istable(s.base(base)): return LN
            return None
        if o == 'idx':
            return B(-1) if s.istable(t.a[0]) else None
        if o == 'elem':
            if t.a[1] in ('ref', 'val') and s.istable(s.base(t.a[2])): return B(-1)
            return None
        if o == 'bin':
            return s.arith(t.a[0], s.K(t.a[1], seen), s.K(t.a[2], seen))
        if o == 'phi':
            ks = [s.K(x, seen) for x in s.E.alts.get(t, ())]
            if any(k is None for k in ks): return None
            ks = [k for k in ks if k != 'bot']
            if not ks: return 'bot'
            r = ks[0]
            for k in ks[1:]: r = s.meet(r, k)
            if r and r[0] == 'N' and r[1] is None and s.counter(t): r = s.counter(t)
            return r
        return None

    def counter(s, t):
        """a phi that only starts at constants and is advanced by constants: it counts what its loop iterates"""
        key = t.a[0]
        try: ctxid = key[0][0]
        except Exception: return None
        if not isinstance(ctxid, int): return None
        steps = set()
        for x in s.E.alts.get(t, ()):
            if x.op == 'bin' and x.a[0] == 'Add':
                a, b = x.a[1], x.a[2]
                steps.add(b.a[0] if b.op == 'const' else a.a[0] if a.op == 'const' else None)
        if steps - {1}: return None
        ks = s.iters.get(ctxid, set())
        if ks == {'chars'}: return CH
        if ks == {'bytes'}: return B(0)
        return None

    def base(s, t):
        return s.E.val(St({}, {}, None), t) if t.op == 'ref' and False else (path_of(t.a[0][0][1], t.a[0][1]) if t.op == 'ref' and t.a[0][0][0] == 'p' else t)

    def meet(s, a, b):
        if a is None or b is None: return None
        if a == 'bot': return b
        if b == 'bot': return a
        if a[0] == 'N' and b[0] == 'N': return a if a == b else N(None)
        if a[0] == 'N': return s.meet(b, a)
        if b[0] == 'N':
            if a[0] == 'B' and b[1] in (0, -1, None): return a     # 0 is the start of the text, -1 the end of nothing
            return a if a[0] in 'CL' else None
        if a[0] != b[0]: return None
        return a if a == b else (a[0], None)

    def arith(s, op, a, b):
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return None
        if op not in ('Add', 'Sub'): return None
        if a is None or b is None: return None
        if a == 'bot': a = N(0)
        if b == 'bot': b = N(0)
        sg = 1 if op == 'Add' else -1
        if a[0] == 'N' and b[0] == 'N': return N(a[1] + sg * b[1] if a[1] is not None and b[1] is not None else None)
        if b[0] == 'N':
            if a[0] != 'B': return a
            return B(a[1] + sg * b[1] if a[1] is not None and b[1] is not None else None)
        if a[0] == 'N':
            if b[0] != 'B': return b
            return B(b[1] * sg + a[1] if a[1] is not None and b[1] is not None else None)
        if a[0] != b[0]: return None
        if a[0] == 'B': return B(a[1] + sg * b[1] if a[1] is not None and b[1] is not None else None)
        return a

    def partition(s, st, E):
        """paths to the first line and to the others stay apart"""
        s.E = E
        z = []
        for t, f in st.facts.items():
            if t.op == 'bin' and t.a[2] in (ZERO, ONE): x = t.a[1]
            elif t.op == 'bin' and t.a[1] in (ZERO, ONE): x = t.a[2]
            elif f[1] and (0 in f[1] or 1 in f[1]): x = t
            else: continue
            if t.op == 'bin' and f[0] != 'in' or s.K(x) != LN: continue
            z.append((t.id, f[0], tuple(sorted(map(str, f[1])))))
        return (E.tags(st), tuple(sorted(z)))

    # -- events
    def nl_known(s, st):
        """the path established that some character is a line break"""
        for t, f in st.facts.items():
            if f[0] == 'in' and len(f[1]) == 1 and next(iter(f[1])) in (10, '10', '\n', "'\\n'"): return True
            if f == ('in', frozenset([True])) and t.op == 'app' and t.a[0] in ('ends_with',): return True
        return False

    def need(s, kind, t, want, where, st, what):
        """a sink: t must have the unit `want`"""
        c = s.c
        if t.op == 'phi' and want[0] == 'B':
            ks = [s.K(x) for x in s.E.alts.get(t, ())]
            ks = [k for k in ks if isinstance(k, tuple) and k[0] == 'B']
            if any(k[1] == want[1] for k in ks): want = B(None)       # chosen between, by a test this rule does not read
        for x in (list(s.E.alts.get(t, ())) if t.op == 'phi' else [t]):
            k = s.K(t) if x.op == 'phi' else s.K(x)
            if k is None or k == 'bot': continue
            c.ob('sink with known unit', where)
            if k[0] == 'N':
                if want[0] == 'B' and k[1] is None and s.counter(x):
                    c.bad('unit:%s:%s' % (kind, s.name), where, '%s is a count of %s; it must be an offset in bytes' % (what, UNITNAME[s.counter(x)[0]])); return
                continue
            if k[0] != want[0]:
                c.bad('unit:%s:%s' % (kind, s.name), where, '%s is measured in %s (%s); it must be in %s' % (what, UNITNAME[k[0]], show(x, 4), UNITNAME[want[0]])); return
            if want[0] == 'B' and k[1] is not None and want[1] is not None and k[1] != want[1]:
                if s.nl_known(st): continue
                c.bad('bound:%s:%s' % (kind, s.name), where, '%s lies %+d byte(s) from %s (%s): with a multi-byte character there it is inside that character' % (
                    what, k[1] - want[1], 'a character boundary' if want[1] == 0 else 'the last byte of a line', show(x, 4))); return

    def event(s, kind, ev, st, E):
        s.E = E
        name = getattr(ev, 'name', '')
        if kind == 'next':
            k = ev.it.a[0]
            if k in ('chars', 'char_indices', 'bytes'): s.iters.setdefault(ev.ctx.id, set()).add('chars' if k == 'char_indices' else k)
        if not E.final: return None
        F = s.F
        if kind == 'bin' and ev.op in ('Add', 'Sub', 'Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            a, b = s.K(ev.a), s.K(ev.b)
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] != 'N' and b[0] != 'N':
                s.c.ob('arithmetic or comparison of known units', ev.where)
                if a[0] != b[0]:
                    s.c.bad('mix:%s:%s' % (s.name, ev.op), ev.where, '%s and %s are mixed: %s %s %s' % (UNITNAME[a[0]], UNITNAME[b[0]], show(ev.a, 3), ev.op, show(ev.b, 3)))
        if kind == 'index' and s.istable(ev.base): s.tabindex(ev, st, ev.idx, True)
        if kind == 'index' and s.istext(ev.base): s.slice_(ev, st, ev.idx)
        if kind == 'call' and name in ('slice::get', 'Vec::get', 'slice::get_mut') and s.istable(ev.args[0]): s.tabindex(ev, st, ev.args[1], False)
        if kind == 'call' and name in ('Source::slice', 'str::get') and s.istext(ev.args[0]): s.slice_(ev, st, ev.args[1])
        if kind == 'call' and name in ('Vec::push', 'Vec::insert'):
            tab = E.val(st, ev.args[0])
            if s.istable(tab) or s.makes_table(ev):
                s.need('entry', ev.args[-1], B(-1), ev.where, st, 'the entry put into the line table')
        if kind == 'call' and name in ('String::replace_range', 'String::drain') and s.istext(E.val(st, ev.args[0])): s.slice_(ev, st, E.val(st, ev.args[1]), 'edited range')
        if kind == 'call' and name in ('String::insert_str', 'String::truncate', 'str::split_at', 'String::split_off', 'str::is_char_boundary') and s.istext(E.val(st, ev.args[0])):
            s.need('cut', ev.args[1], B(0), ev.where, st, 'the offset given to ' + name)
        if kind == 'call' and name in ('Vec::splice', 'Vec::drain', 'Vec::truncate') and s.istable(E.val(st, ev.args[0])):
            r = E.val(st, ev.args[1])
            for n, v in (r.a[2] if r.op == 'agg' else (('', r),)):
                if v.op != 'const': s.need('tabrange', v, LN, ev.where, st, 'the range of table entries given to ' + name)
        if kind == 'call' and name == '<summary>':
            if ev.id == F.pos: s.need('pos-arg', E.val(st, ev.args[1]), B(0), ev.where, st, 'the offset given to byte_to_lsp')
            if ev.id == F.lc: s.need('lc-arg', E.val(st, ev.args[1]), LN, ev.where, st, 'the line given to line_char')
        if kind == 'make' and ev.adt == 'Position':
            fs = dict(ev.val.a[2])
            s.c.ob('position built', ev.where)
            if 'line' in fs: s.need('line', fs['line'], LN, ev.where, st, 'Position::line')
            if 'character' in fs: s.need('character', fs['character'], CH, ev.where, st, 'Position::character')
        if kind == 'store' and ev.loc and ev.loc[1] and ev.loc[1][-1][0] == 'i' and ev.how != 'call':
            b = E.raw(st, (ev.loc[0], ev.loc[1][:-1]))
            if s.istable(b): s.need('entry', ev.val, B(-1), ev.where, st, 'the table entry')
        if kind == 'return' and s.retk:
            v = ev.val
            for x in E.leaves(v):
                if x.op == 'agg' and x.a[0] == 'Position': continue
                s.c.ob('result', ev.where)
            s.need('result', v, s.retk, ev.where, st, 'the result of ' + s.name)
            if s.entry == F.lc:
                for x in E.leaves(v):
                    k = s.K(x)
                    if k == CH: s.c.ob('count of the characters of a line', ev.where)
                    if k and k[0] == 'N' and k[1]: s.c.bad('result:const:' + s.name, ev.where, 'the number of characters of a line is given as %s' % k[1])
        if kind == 'assertfail' and 'overflow' in str(ev.msg).lower() and 'sub' in str(ev.msg).lower() or kind == 'assertfail' and str(ev.msg) == 'Overflow(Sub)': s.under(ev, st)
        if kind == 'panic' and s.total:
            s.panic(ev, st, E)
        return None

    see_make = True
    retk = None
    total = False
    name = ''

    def makes_table(s, ev): return s.entry in s.F.lines and ev.ctx.parent is None

    def slice_(s, ev, st, r, what='slice'):
        if r.op != 'agg': return
        fs = dict(r.a[2])
        s.c.ob('slice of the text', ev.where)
        incl = r.a[0] == 'RangeInclusive'
        if 'start' in fs: s.need('slice', fs['start'], B(0), ev.where, st, 'the start of the ' + what)
        if 'end' in fs: s.need('slice', fs['end'], B(-1) if incl else B(0), ev.where, st, 'the end of the ' + what)
        # one line at a time: from the entry of the line before to the entry of the line
        if 'start' not in fs or 'end' not in fs: return
        A, Bs = s.lines_of(fs['start']), s.lines_of(fs['end'], incl)
        for l in Bs:
            # the first line starts at 0, every other one behind the line break of the line before
            poss, tested = s.small(st, l)
            only0 = bool(tested) and set(s.E.leaves(fs['start'])) == {ZERO}
            z = True if poss == {0} else False if 0 not in poss or only0 else None
            if z is None: continue
            s.c.ob('start of a line', ev.where)
            for x in s.E.leaves(fs['start']):
                if z and x.op == 'const' and x is not ZERO: bad = 'the first line is taken to start at %s' % show(x, 2)
                elif z and x.op == 'bin' and s.lines_of(x): bad = 'the first line is taken to start behind another line'
                elif not z and x.op == 'const': bad = 'a line that is not the first is taken to start at %s' % show(x, 2)
                else: continue
                s.c.bad('line:start:' + s.name, ev.where, bad)
        for k in A:
            for l in Bs:
                s.c.ob('slice of one line', ev.where)
                ls = set(s.E.leaves(l))
                if k.op == 'bin' and k.a[0] == 'Sub' or k.op == 'app' and k.a[0] == 'saturating_sub':
                    good = k.a[2] is ONE and bool(set(s.E.leaves(k.a[1])) & ls)
                elif l.op == 'bin' and l.a[0] == 'Add': good = l.a[2] is ONE and bool(set(s.E.leaves(k)) & set(s.E.leaves(l.a[1])))
                elif k.op == 'bin' and k.a[0] == 'Add' and k.a[2].op == 'const': good = not (set(s.E.leaves(k.a[1])) & ls)
                else: good = not (set(s.E.leaves(k)) & ls)
                if not good:
                    s.c.bad('line:span:' + s.name, ev.where, 'the slice runs from the end of line %s to the end of line %s: not one line' % (show(k, 3), show(l, 3)))

    def small(s, st, l):
        """-> (which of 0, 1, 2 the line can be on this path, was it compared with a constant at all)"""
        poss, tested = {0, 1, 2}, False
        for t, f in st.facts.items():
            if t is l:
                if not all(isinstance(v, int) for v in f[1]): continue
                poss &= set(f[1]) if f[0] == 'in' else {0, 1, 2} - set(f[1])
                if f[1] & {0, 1, 2}: tested = True
            elif t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') and f[0] == 'in' and len(f[1]) == 1:
                k = [x.a[0] for x in t.a[1:] if x.op == 'const' and isinstance(x.a[0], int)]
                if len(k) != 1 or l not in t.a[1:]: continue
                cmp = {'Eq': lambda x, y: x == y, 'Ne': lambda x, y: x != y, 'Lt': lambda x, y: x < y, 'Le': lambda x, y: x <= y, 'Gt': lambda x, y: x > y, 'Ge': lambda x, y: x >= y}[t.a[0]]
                poss &= {n for n in (0, 1, 2) if (cmp(n, k[0]) if t.a[1] is l else cmp(k[0], n)) in f[1]}
                tested = True
        return poss, tested

    def lines_of(s, t, incl=False, plus=0, seen=None):
        """the lines l such that the bound can be `entry of line l, plus one`"""
        if seen is None: seen = set()
        if (t, plus) in seen: return set()
        seen.add((t, plus))
        if t.op == 'phi':
            out = set()
            for x in s.E.alts.get(t, ()): out |= s.lines_of(x, incl, plus, seen)
            return out
        if t.op == 'bin' and t.a[0] == 'Add' and t.a[2] is ONE: return s.lines_of(t.a[1], incl, plus + 1, seen)
        if t.op == 'idx' and s.istable(t.a[0]) and plus == (0 if incl else 1) and t.a[1].op != 'end': return {t.a[1]}
        return set()

    def tabindex(s, ev, st, i, panics):
        if i.op == 'agg': return
        s.c.ob('index into the line table', ev.where)
        s.need('index', i, LN, ev.where, st, 'the index into the line table')
        if not panics or not s.total: return
        if i.op in ('arg',) or (i.op == 'fld' and i.a[1] == 'line' and i.a[0].op == 'arg'):
            s.c.ob('index in range', ev.where)
            L = [x for x in st.facts if x.op == 'bin' and x.a[0] == 'Lt' and x.a[1] is i and x.a[2].op == 'app' and x.a[2].a[0] == 'len' and s.istable(x.a[2].a[1])]
            if not any(st.facts[x] == ('in', frozenset([True])) for x in L):
                s.c.bad('range:' + s.name, ev.where, 'the line table is indexed with %s although it was not found to be a line of the text' % show(i, 3))

    def under(s, ev, st):
        pass

    def panic(s, ev, st, E):
        # only the unwraps of the table itself are decided: last() of a table found non-empty
        t = ev.args[0] if ev.args else None
        if t is None: return
        v, _ = E.variant_key(t, frozenset())
        if v.op == 'app' and v.a[0] == 'get' and v.a[2].op == 'end' and s.istable(v.a[1]):
            s.c.ob('last line of a non-empty text', ev.where)
            if E.fact_bool(st, mk('bin', 'Eq', app('len', v.a[1]), ZERO)) is not False:
                s.c.bad('empty:' + s.name, ev.where, 'the last line is taken although the text was not found to have any')


_cp = {}
def contains_phi(t):
    r = _cp.get(t)
    if r is None:
        _cp[t] = False
        r = any(x.op == 'phi' or contains_phi(x) for x in children(t))
        _cp[t] = r
    return r


class Breaks(Base):
    """the table builder: an entry for every line break and nothing else inside the loop"""
    def init(s): return (None, False)
    see_bin = False

    def nl(s, st, el):
        ch = [el, mk('fld', el, '1'), mk('fld', el, '0')]
        for t in ch:
            f = st.facts.get(t)
            if f is None: continue
            vals = {10, '10', '\n', "'\\n'"}
            if f[0] == 'in': return True if f[1] <= vals else (False if not (f[1] & vals) else None)
            if f[1] & vals: return False
        return None

    def event(s, kind, ev, st, E):
        el, pushed = st.auto
        if kind == 'next' and ev.it.a[0] in ('chars', 'char_indices'):
            return (mk('elem', ev.call.site, ev.it.a[0], ev.it.a[1]), False)
        if kind == 'exhausted': return (None, False)
        name = getattr(ev, 'name', '')
        if kind == 'call' and name in ('Vec::push',) and el is not None:
            if E.final:
                s.c.ob('entry pushed in the loop', ev.where)
                if s.nl(st, el) is not True: s.c.bad('breaks:extra', ev.where, 'an entry is added to the line table although the character was not found to be a line break')
            return (el, True)
        return None


# ---------------------------------------------------------------- C09
def units(c):
    c.rule('units', 'byte offsets, character counts and line numbers are never mixed in LspFile: every operand of + - and comparisons, every slice bound, table index, table entry and Position field has the right unit on every path')
    c.rule('boundaries', 'slice bounds and edited ranges are character boundaries (entry of the line table + 1, or a sum of character lengths), table entries are last bytes of lines; slices of a line run from the entry before it to its own entry')
    c.rule('ranges', 'range conversions map start to start and end to end through the same point conversion')
    P = c.program(UNITS)
    F = Facts(c, P)
    if not F.ok: return
    for fid in F.own:
        f = P.fns[fid]
        argk = {}
        for i in range(1, f['argc'] + 1):
            t = f['locals'][i]['t']
            if re.match(r"^&('\w+ )?(alloc::string::String|str)$", t): argk[i] = 'text'
            if 'core::ops::range::Range<usize>' in t: argk[i] = 'brange'
        if fid == F.pos: argk[2] = B(0)
        if fid == F.lc: argk[2] = LN
        r = Units(c, F, fid, argk)
        r.name = last(f['name'])
        r.retk = {F.off: B(0), F.lc: CH}.get(fid)
        r.total = fid in (F.off, F.pos, F.lc)
        run(c, P, r, fid)
    if F.lc is not None: c.floor('count of the characters of a line', 1)
    for fid, (summ, what) in {F.rto: (F.off, 'off'), F.rfrom: (F.pos, 'pos')}.items():
        if fid is None: c.missing('the range conversions of LspFile'); continue
        r = Ranges(c, F, fid, what)
        run(c, P, r, fid)
        c.floor('range conversion', 1)
    for k, n in (('arithmetic or comparison of known units', 8), ('sink with known unit', 8), ('slice of the text', 2), ('position built', 2), ('index into the line table', 3)): c.floor(k, n)


def run(c, P, r, fid):
    E = Engine(P, r, fid)
    patch_engine(E)
    r.E = E
    E.run()
    c.steps += E.steps
    c.fns.add(fid); c.fns |= E.inlined
    if E.overflow: c.bad('overflow:' + fid, fid, 'the analysis did not converge within its bound on this function')
    return E


class Ranges(Base):
    def __init__(s, c, F, entry, what): super().__init__(c, F, entry); s.what = what

    def event(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        for x in E.leaves(ev.val):
            s.c.ob('range conversion', ev.where)
            x = E.val(st, x)
            for n in ('start', 'end'):
                v = project(x, ('f', n))
                a = strip_pos(v)
                want = mk('fld', mk('arg', 2), n)
                got = None
                if a is not None and a.a[0] == s.what: got = E.val(st, a.a[2])
                if got is None: continue
                if got is not want: s.c.bad('range:' + s.what + n, ev.where, 'the %s of the converted range comes from %s' % (n, show(got, 4)))
            if strip_pos(project(x, ('f', 'start'))) is None and strip_pos(project(x, ('f', 'end'))) is None: s.c.notes.append('range conversion in a form that is not decided')
        return None


def strip_pos(v):
    """off/pos application behind a value"""
    if v.op == 'app' and v.a[0] in ('off', 'pos'): return v
    if v.op == 'agg' and v.a[0] == 'Position':
        x = dict(v.a[2]).get('line')
        if x is not None and x.op == 'fld' and x.a[0].op == 'app' and x.a[0].a[0] == 'pos':
            y = dict(v.a[2]).get('character')
            if y is not None and y.op == 'fld' and y.a[0] is x.a[0]: return x.a[0]
    return None


# ---------------------------------------------------------------- C10
CUT = {'take', 'step_by', 'skip_while', 'take_while', 'filter', 'filter_map', 'map_while', 'zip', 'chain', 'flat_map', 'flatten', 'scan'}
G = lambda n: (('g', n), ())


class Edit(Base):
    """state: (text replaced, table changed, whole replaced, entries after the splice: 0 none | 'open' | 'moving' | 'moved')"""
    see_bin = False
    see_make = True
    def __init__(s, c, F, entry): super().__init__(c, F, entry); s.notes = set()
    def init(s): return (0, 0, 0, 0)

    # ---- the arithmetic of the table, as linear forms over named quantities
    def atoms(s, E, t, n=0):
        """alternatives of the linear form of t: [({name: coefficient}, constant)], None when some part of it is not understood"""
        if n > 6: return None
        return s.alternatives(E, *lin(t), n)

    def alternatives(s, E, d, k, n=0):
        out = [({}, k)]
        for m, v in d.items():
            alts = []
            for x in (E.leaves(m) if m.op == 'phi' else (m,)):
                while x.op == 'cast': x = x.a[0]
                if x.op == 'un' and x.a[0] == 'Neg' and x.a[1].op == 'const': alts.append(({}, -x.a[1].a[0])); continue
                if x.op in ('const', 'lit') or x.op == 'bin':
                    sub = s.atoms(E, x, n + 1)
                    if sub is None: return None
                    alts += sub; continue
                nm = s.name(E, x)
                if nm is None: return None
                alts.append(nm)
            if len(out) * len(alts) > 16: return None
            out = [(addd(a, b, v), c0 + v * c1) for a, c0 in out for b, c1 in alts]
        return out

    def name(s, E, x):
        F, ar = s.F, mk('arg', 2)
        if x.op == 'app' and x.a[0] == 'off':
            old = mk('lspfile', mk('fld', mk('arg', 1), F.text), mk('fld', mk('arg', 1), F.table))
            if x.a[1] is not old: return None
            n = norm_off(x)
            w = {path_of(ar, [('f', 'range'), ('v', 'Some'), ('f', '0'), ('f', k)]): k for k in ('start', 'end')}
            if n is not None and n[1] in w: return {w[n[1]]: 1}, 0
            p = x.a[2]
            if p.op == 'agg' and p.a[0] == 'Position':
                f = dict(p.a[2])
                if f['character'] is ZERO:
                    l = s.atoms(E, f['line'], 3)
                    if l is not None and len(l) == 1: return {'off(%s,0)' % show_form(l[0]): 1}, 0
            return None
        if x.op == 'fld' and x.a[1] == 'line':
            p = x.a[0]
            if p.op == 'app' and p.a[0] == 'pos' and p.a[2].op == 'app' and p.a[2].a[0] == 'off':
                n = s.name(E, p.a[2])
                if n is not None and set(n[0]) <= {'start', 'end'}: return {k + '.line': v for k, v in n[0].items()}, 0
            for k in ('start', 'end'):
                if p is path_of(ar, [('f', 'range'), ('v', 'Some'), ('f', '0'), ('f', k)]): return {k + '.line': 1}, 0
            return None
        if x.op == 'idx' and x.a[1].op == 'end' and x.a[0].op == 'app' and x.a[0].a[0] == 'lines' and x.a[0].a[1] is s.textarg(): return {'text': 1}, -1
        if x is app('len', s.textarg()): return {'text': 1}, 0
        if x is app('len', mk('fld', mk('arg', 1), F.table)): return {'lines': 1}, 0
        if x.op == 'idx': return {'entry@' + ('end' if x.a[1].op == 'end' else 'ix'): 1}, 0
        return None

    def form(s, E, what, t, want, ev, key):
        """every alternative of t has one of the wanted forms"""
        c = s.c
        c.ob(what, ev.where)
        fs = s.atoms(E, t)
        if fs is None:
            if what not in s.notes: s.notes.add(what); c.notes.append('%s has a form that is not decided: %s' % (what, show(t, 5)))
            return
        for f in fs:
            if f not in want: c.bad(key, ev.where, '%s is %s; it must be %s' % (what, show_form(f), ' or '.join(show_form(w) for w in want)))

    def entry_stored(s, ev, st, E):
        """an entry of the table is changed in place after the splice"""
        s.form(E, 'the entry after the edited lines', ev.val, [({'entry@ix': 1, 'start': 1, 'end': -1}, 0), ({'entry@ix': 1, 'start': 1, 'end': -1, 'text': 1}, 0)], ev, 'tail:shift')

    def spliced_table(s, ev, st, E):
        c = s.c
        r = E.val(st, ev.args[1])
        if r.op != 'agg' or r.a[0] != 'Range': return
        f = dict(r.a[2])
        unmin = lambda t: next((x for x in t.a[1:] if not s.islen(x)), t) if t.op == 'app' and t.a[0] == 'min' else t
        s.form(E, 'the first table entry replaced', unmin(f['start']), [({'start.line': 1}, 0), ({'start.line': 1}, -1), ({'lines': 1}, 0)], ev, 'splice:first')
        s.form(E, 'the end of the table entries replaced', unmin(f['end']), [({'end.line': 1}, 1), ({'lines': 1}, 0)], ev, 'splice:last')

    def islen(s, x): return x.op == 'app' and x.a[0] == 'len'

    def walk(s, ev, st, E):
        """the iteration that realigns the entries after the splice reaches all of them, and only them"""
        c, it = s.c, ev.it
        c.ob('walk over the entries after the edit', ev.where)
        for x in it.a[2]:
            if x[0] in CUT: c.bad('tail:partial', ev.where, 'only some of the entries after the edited lines are realigned: the iteration goes through %s' % x[0])
        sp = st.env.get(G('splice'))
        first = [x[1] for x in it.a[2] if x[0] == 'skip']
        if it.a[0] == 'range':
            first = [dict(it.a[1].a[2])['start']]
        elif it.a[1].op == 'ref':
            for x in it.a[1].a[0][1]:
                if x[0] == 'i' and x[1].op == 'agg' and 'start' in dict(x[1].a[2]): first.append(dict(x[1].a[2])['start'])
        if sp is None or len(first) > 1: return
        if not first: c.bad('tail:first', ev.where, 'entries before and inside the edited lines are realigned as well'); return
        sps = [x for x in E.leaves(sp) if x.op == 'spl']
        for f in E.leaves(first[0]): s.first(E, ev, f, sps)

    def first(s, E, ev, f, sps):
        c, off = s.c, None
        for sp in sps:
            d = lsub(lin(f), ({app('len', sp.a[1]): 1}, 0))
            S = sp.a[0]
            cand = [S] + ([x for x in S.a[1:] if not s.islen(x)] if S.op == 'app' and S.a[0] == 'min' else [])
            for x in [y for z in cand for y in {z, *E.leaves(z)}]:
                r = lsub(d, lin(x))
                if not r[0]:
                    if r[1] == 0: return
                    off = r[1]
                r = lsub(lin(f), lin(x))[0]
                if len(r) == 1 and all(y.op == 'app' and y.a[0] in ('min', 'max') and contains(y, app('len', sp.a[1])) for y in r):
                    c.bad('tail:first', ev.where, 'the number of inserted lines is bounded where the realigned entries start: %s' % show(f, 4)); return
        if off is not None: c.bad('tail:first', ev.where, 'the realigned entries start %+d from the first entry after the edited lines' % off)
        elif not any(x.op == 'app' and x.a[0] == 'len' for x in subterms(f)) and s.atoms(E, f) is not None:
            c.bad('tail:first', ev.where, 'the realigned entries start at %s, whatever number of lines was inserted' % show(f, 4))
        else:
            for sp in sps:                    # what is left when the number of inserted lines is taken away is where the edit starts
                for a in s.alternatives(E, *lsub(lin(f), ({app('len', sp.a[1]): 1}, 0))) or ():
                    if a not in [({'start.line': 1}, 0), ({'start.line': 1}, -1), ({'lines': 1}, 0)]: c.bad('tail:first', ev.where, 'the realigned entries start after %s and the inserted lines, not after the start of the edit' % show_form(a))

    def tail_iter(s, E, it):
        """an iteration over the entries of the table, by reference or by index"""
        if it.op != 'it': return False
        b = it.a[1]
        tl = lambda l: l[0][0] == 'p' and l[0][1] is mk('arg', 1) and l[1][:1] == (('f', s.F.table),)
        if it.a[0] == 'mut': return b.op == 'ref' and tl(b.a[0])
        if it.a[0] == 'range':
            f = dict(b.a[2])
            return 'end' in f and any(x.op == 'app' and x.a[0] == 'len' and any(y is mk('fld', mk('arg', 1), s.F.table) for y in subterms(x)) and any(y.op == 'upd' for y in subterms(x)) for z in E.leaves(f['end']) for x in subterms(z))
        return False

    def ran_out(s, st, E):
        """a loop by index ended because its index reached the end of the table"""
        for k, f in st.facts.items():
            if k.op == 'bin' and k.a[0] == 'Lt' and f == ('in', frozenset([False])):
                if any(x.op == 'app' and x.a[0] == 'len' and any(y.op == 'upd' for y in subterms(x)) for z in E.leaves(k.a[2]) for x in subterms(z)): return True
        return False

    def still(s, st, E):
        """the path established that the text keeps its length: nothing to realign"""
        for k, f in st.facts.items():
            if k.op == 'bin' and k.a[0] == 'Eq' and f == ('in', frozenset([True])): x, y = k.a[1], k.a[2]
            elif f == ('in', frozenset([0])): x, y = k, ZERO
            else: continue
            a, b = s.atoms(E, x), s.atoms(E, y)
            if a is None or b is None: continue
            for x in a:
                for y in b:
                    d = addd(x[0], y[0], -1)
                    if abs(d.get('start', 0)) == 1 and d.get('end', 0) == -d['start']: return True
        return False

    def additional(s, ev, st, E):
        """entries of the inserted text, before they are put in the table"""
        i = ev.loc[1][-1][1]
        if i.op == 'ix': s.form(E, 'the entry of an inserted line', ev.val, [({'entry@ix': 1, 'start': 1}, 0)], ev, 'new:shift')
        elif i.op == 'end': s.form(E, 'the last entry of the inserted lines', ev.val, [({'entry@end': 1, 'end': -1, 'off(end.line+1,0)': 1}, 0)], ev, 'new:last')

    def partition(s, st, E):
        a, F = mk('arg', 1), s.F
        return (E.tags(st), E.fact_var(st, mk('fld', mk('arg', 2), 'range')), E.fact_bool(st, mk('bin', 'Eq', app('len', mk('fld', a, F.table)), ZERO)),
                E.fact_bool(st, mk('bin', 'Eq', app('len', s.textarg()), ZERO)), E.fact_bool(st, mk('bin', 'Eq', app('len', app('lines', s.textarg())), ZERO)))

    def event(s, kind, ev, st, E):
        F, c = s.F, s.c
        name = getattr(ev, 'name', '')
        ed, tab, full, lost = st.auto
        if kind == 'store':
            root, path = ev.loc
            base = root[1] if root[0] == 'p' else None
            if base is mk('arg', 1):
                p = [x[1] for x in path if x[0] == 'f']
                if not path:
                    if E.final: s.full(ev, st, E)
                    return (0, 0, 1, lost)
                if p and p[0] == F.text:
                    if ev.how == 'call' and ev.name in ('String::clear',): return (4, tab, full, lost)
                    if ev.how == 'call' and ev.name in ('String::replace_range',):
                        return (min(ed + 1, 2) if ed < 4 else 5, tab, full, lost)
                    if ev.how == 'call' and ev.name.startswith('String::'): return (7, tab, full, lost)
                    return (8, tab, full, lost)
                if p and p[0] == F.table:
                    if len(path) == 1:
                        if ev.how == 'call' and ev.name in ('Vec::clear',): return (ed, 4, full, lost)
                        if ev.how == 'call' and ev.name == 'Vec::splice': return (ed, 1 if tab in (0, 1) else tab, full, 'open')
                        return (ed, 1 if tab in (0, 1) else tab, full, lost if ev.how == 'call' else 0)
                    if lost and path[-1][0] == 'i' and path[-1][1].op != 'end':
                        if E.final: s.entry_stored(ev, st, E)
                        return (ed, tab, full, 'moved') if lost == 'pulled' else (ed, tab, full, 'manual') if lost == 'open' else None
                    return None
            elif root[0] == 'l' and len(path) == 1 and path[0][0] == 'i' and E.final and not lost and s.inserted(E, st, ev): s.additional(ev, st, E)
        if kind == 'call' and name == 'Vec::splice' and E.pointee(ev.args[0]) == ((('p', mk('arg', 1)), (('f', F.table),))):
            st.env[G('splice')] = mk('spl', dict(E.val(st, ev.args[1]).a[2])['start'], E.val(st, ev.args[2])) if E.val(st, ev.args[1]).op == 'agg' and 'start' in dict(E.val(st, ev.args[1]).a[2]) else UNIT
            if E.final: s.spliced_table(ev, st, E)
            return None
        if kind == 'next' and lost and s.tail_iter(E, ev.it):
            if E.final:
                s.walk(ev, st, E)
                if lost == 'pulled': c.bad('tail:entry', ev.where, 'an entry after the edited lines is left as it was')
            return (ed, tab, full, 'pulled')
        if kind == 'exhausted' and lost and s.tail_iter(E, ev.it): return (ed, tab, full, 'done')
        if kind == 'call' and name == 'String::replace_range' and E.final:
            tgt = ev.args[0]
            if tgt.op == 'ref' and tgt.a[0][0][0] == 'p' and tgt.a[0][0][1] is mk('arg', 1): s.replace(ev, st, E)
        if kind == 'return' and E.final: s.ret(ev, st, E)
        return None

    def textarg(s): return mk('fld', mk('arg', 2), 'text')

    def inserted(s, E, st, ev):
        """the vector holds the line table of the event's text"""
        todo, seen = [E.read(st, (ev.loc[0], ()))], set()
        while todo:
            x = todo.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x is app('lines', s.textarg()): return True
            if x.op == 'phi': todo += list(E.leaves(x))
            elif x.op == 'with': todo.append(x.a[0])
            elif x.op == 'upd': todo.append(x.a[2])
        return False

    def full(s, ev, st, E):
        c = s.c
        c.ob('whole text replaced', ev.where)
        rng = mk('fld', mk('arg', 2), 'range')
        none = E.fact_var(st, rng) == frozenset(['None'])
        tb = mk('fld', mk('arg', 1), s.F.table)
        empty = E.fact_bool(st, mk('bin', 'Eq', app('len', tb), ZERO)) is True or E.fact_bool(st, mk('bin', 'Eq', app('len', mk('fld', mk('arg', 1), s.F.text)), ZERO)) is True
        v = ev.val
        if v.op == 'agg':
            fs = dict(v.a[2])
            tx, tl = fs.get(s.F.text), fs.get(s.F.table)
            if tx is not None:
                if tx.op == 'upd' and False: pass
                if s.spliced(tx): return          # a new text spliced elsewhere, with its table
                if tx is not s.textarg() and tx.op != 'phi' and not contains(tx, s.textarg()): c.bad('full:text', ev.where, 'the text is replaced by %s, not by the text of the event' % show(tx, 4))
                elif tx is s.textarg() and not (none or empty): c.bad('full:when', ev.where, 'the whole text is replaced although the event names a range and the text is not empty')
                if tl is not None and tl.op == 'app' and tl.a[0] == 'lines' and tl.a[1] is not tx: c.bad('full:table', ev.where, 'the table of the replaced text is built from %s' % show(tl.a[1], 4))

    def spliced(s, t): return any(x.op in ('upd',) for x in subterms(t))

    def replace(s, ev, st, E):
        c = s.c
        c.ob('text spliced', ev.where)
        r = E.val(st, ev.args[1])
        t = E.val(st, ev.args[2])
        if t is not s.textarg() and t.op in ('fld', 'const', 'arg'): c.bad('splice:text', ev.where, 'the text spliced in is %s, not the text of the event' % show(t, 4))
        if r.op != 'agg': return
        fs = dict(r.a[2])
        for n in ('start', 'end'):
            if n not in fs:
                c.bad('splice:open', ev.where, 'the edited range has no %s' % n); continue
            ps = [norm_off(x) for x in E.leaves(fs[n])]
            if any(p is None for p in ps):
                c.notes.append('the %s of the edited range has a form that is not decided: %s' % (n, show(fs[n], 5)))
            for f, pos in [p for p in ps if p is not None]: s.bound(ev, n, f, pos)

    def bound(s, ev, n, f, pos):
            c = s.c
            c.ob('bound of the edited range', ev.where)
            want = path_of(mk('arg', 2), [('f', 'range'), ('v', 'Some'), ('f', '0'), ('f', n)])
            if pos is not want: c.bad('splice:' + n, ev.where, 'the %s of the edited range is converted from %s, not from the %s of the event\'s range' % (n, show(pos, 5), n))
            old = mk('lspfile', mk('fld', mk('arg', 1), s.F.text), mk('fld', mk('arg', 1), s.F.table))
            if f is not old: c.bad('splice:state', ev.where, 'the %s of the edited range is converted in a text or table that was already changed' % n)

    def ret(s, ev, st, E):
        c = s.c
        c.ob('end of an edit', ev.where)
        ed, tab, full, _ = st.auto
        txt = app('len', s.textarg())
        emp = E.fact_bool(st, mk('bin', 'Eq', txt, ZERO)) is True or E.fact_bool(st, mk('bin', 'Eq', app('len', app('lines', s.textarg())), ZERO)) is True
        if full: 
            return
        if (_ in ('open', 'manual') and not s.ran_out(st, E) or _ in ('pulled', 'moved')) and not s.still(st, E): c.bad('tail:missing', ev.where, 'an edit ends without having realigned the entries after the edited lines')
        if ed == 0 and tab == 0:
            if not emp: c.bad('end:none', ev.where, 'an edit with text to insert can end without changing anything')
        elif ed and not tab: c.bad('end:table', ev.where, 'the text is changed but the line table is not')
        elif tab and not ed: c.bad('end:text', ev.where, 'the line table is changed but the text is not')
        elif (ed == 4) != (tab == 4): c.bad('end:clear', ev.where, 'text and line table are not cleared together')
        elif ed in (2, 5): c.bad('end:twice', ev.where, 'one edit is spliced into the text twice')
        elif ed == 4 and not emp: c.bad('end:cleared', ev.where, 'the text is cleared by an edit with text to insert')


def addd(a, b, k):
    d = dict(a)
    for m, v in b.items(): d[m] = d.get(m, 0) + k * v
    return {m: v for m, v in d.items() if v}


def show_form(f):
    s = ''.join('%s%s%s' % ('+' if v > 0 else '-', '' if abs(v) == 1 else '%d*' % abs(v), m) for m, v in sorted(f[0].items())) + ('%+d' % f[1] if f[1] or not f[0] else '')
    return s[1:] if s[:1] == '+' else s


def norm_off(t):
    """off(p), off(pos(off(p))) -> (state, p)"""
    for _ in range(4):
        if not (t.op == 'app' and t.a[0] == 'off'): return None
        f, p = t.a[1], t.a[2]
        q = strip_pos(p)
        if q is not None and q.a[0] == 'pos' and q.a[1] is f and q.a[2].op == 'app' and q.a[2].a[0] == 'off': t = q.a[2]; continue
        return f, p
    return None


def edits(c):
    c.rule('edit', 'on every path of lazy_add the text and the line table change together: both replaced by the event\'s text (only when the event has no range or the text is empty), both cleared (only for an empty text), or the event\'s text spliced once over [byte of range.start, byte of range.end) of the text before the edit together with a change of the table; nothing changes only when the event\'s text is empty')
    c.rule('realign', 'after the splice of the table every path walks over all entries after the inserted ones (from first line + number of inserted entries, no adaptor that leaves some out) and moves each by length of the text - (end - start), or found that nothing moves; an inserted entry is moved by the start of the range, the last one by the rest of its line; the entries replaced are those of the lines of the range. Forms with parts that are not understood are noted, not reported')
    c.rule('breaks', 'the table builder adds an entry inside its loop only for a line break')
    P = c.program(UNITS)
    F = Facts(c, P)
    if not F.ok: return
    run(c, P, Edit(c, F, F.edit), F.edit)
    for fid in sorted(F.lines):
        r = Breaks(c, F, fid)
        run(c, P, r, fid)
    for k, n in (('end of an edit', 2), ): c.floor(k, n)
