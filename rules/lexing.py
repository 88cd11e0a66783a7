"""The lexer: which text is which token, the values of literals, directives, unexpected text."""
import re, os, json
try: from re import _parser as sre_parse, _constants as SC
except ImportError: import sre_parse, sre_constants as SC
import extract as X
from engine import *
from dispatch import adt, impls
from jsonrpc import method

UNITS = ['analyzer_core']
TEXT = {'}': 'CloseBrace', ']': 'CloseBracket', '>': 'CloseChevron', ')': 'CloseParen', ':': 'Colon', ',': 'Comma', '.': 'Dot', '=': 'Equals', '*': 'Asterisk', '/': 'Slash', '+': 'Plus', '-': 'Minus',
        '{': 'OpenBrace', '[': 'OpenBracket', '<': 'OpenChevron', '(': 'OpenParen', ';': 'Semicolon'}
for k in 'action apply control else header if return state table transition typedef'.split(): TEXT[k] = 'Kw' + k.capitalize()
DIRECTIVE = {'include': 'Include', 'if': 'If', 'elif': 'ElseIf', 'else': 'Else', 'endif': 'EndIf', 'define': 'Define', 'undef': 'Undef', 'pragma': 'Pragma'}
ALPHABET = [chr(i) for i in range(128)] + ['\u00a0', '\u00e9', '\u0661', '\u2028', '\u4e2d']


# ---- regular languages

class Nfa:
    """of a regular expression (the subset that lexers use)"""
    def __init__(s, text):
        s.eps, s.step, s.n = {}, {}, 0
        s.anchored = False
        p = sre_parse.parse(text)
        items = list(p)
        if items and items[0][0] is SC.AT: s.anchored = items[0][1] in (SC.AT_BEGINNING, SC.AT_BEGINNING_STRING); items = items[1:]
        s.start, s.end = s.node(), s.node()
        a = s.seq(items, s.start)
        s.e(a, s.end)

    def node(s): s.n += 1; return s.n
    def e(s, a, b): s.eps.setdefault(a, set()).add(b)

    def seq(s, items, a):
        for op, av in items: a = s.item(op, av, a)
        return a

    def item(s, op, av, a):
        if op is SC.LITERAL: return s.chars(lambda c: ord(c) == av, a)
        if op is SC.NOT_LITERAL: return s.chars(lambda c: ord(c) != av, a)
        if op is SC.ANY: return s.chars(lambda c: c != '\n', a)
        if op is SC.IN: return s.chars(lambda c: inside(av, c), a)
        if op is SC.SUBPATTERN: return s.seq(list(av[3]), a)
        if op is SC.BRANCH:
            b = s.node()
            for x in av[1]: s.e(s.seq(list(x), a), b)
            return b
        if op in (SC.MAX_REPEAT, SC.MIN_REPEAT):
            lo, hi, x = av
            for _ in range(lo): a = s.seq(list(x), a)
            if hi is SC.MAXREPEAT:
                b, d = s.node(), s.node()
                s.e(a, b); z = s.seq(list(x), b); s.e(z, b); s.e(b, d)
                return d
            ends = [a]
            for _ in range(hi - lo): a = s.seq(list(x), a); ends.append(a)
            b = s.node()
            for y in ends: s.e(y, b)
            return b
        raise ValueError('unsupported construct %s' % (op,))

    def chars(s, f, a):
        b = s.node()
        s.step.setdefault(a, []).append((f, b))
        return b

    def close(s, xs):
        todo, seen = list(xs), set(xs)
        while todo:
            for y in s.eps.get(todo.pop(), ()):
                if y not in seen: seen.add(y); todo.append(y)
        return frozenset(seen)
    def move(s, xs, ch): return s.close({b for x in xs for f, b in s.step.get(x, ()) if f(ch)})


def inside(av, c):
    neg, hit = False, False
    for op, v in av:
        if op is SC.NEGATE: neg = True
        elif op is SC.LITERAL: hit |= ord(c) == v
        elif op is SC.RANGE: hit |= v[0] <= ord(c) <= v[1]
        elif op is SC.CATEGORY:
            hit |= {SC.CATEGORY_SPACE: c.isspace(), SC.CATEGORY_NOT_SPACE: not c.isspace(), SC.CATEGORY_DIGIT: c.isdigit(), SC.CATEGORY_NOT_DIGIT: not c.isdigit(),
                    SC.CATEGORY_WORD: c.isalnum() or c == '_', SC.CATEGORY_NOT_WORD: not (c.isalnum() or c == '_')}[v]
    return hit != neg


def differ(a, b, only='both'):
    """a shortest text one of the expressions accepts and the other does not; only: 'missing' (in b, not in a), 'extra' (in a, not in b)"""
    a, b = Nfa(a), Nfa(b)
    s0 = (a.close({a.start}), b.close({b.start}))
    todo, seen = [(s0, '')], {s0}
    while todo:
        (x, y), w = todo.pop(0)
        ia, ib = a.end in x, b.end in y
        if ia and not ib and only != 'missing': return w
        if ib and not ia and only != 'extra': return w
        for ch in ALPHABET:
            n = (a.move(x, ch), b.move(y, ch))
            if (n[0] or n[1]) and n not in seen: seen.add(n); todo.append((n, w + ch))
    return None


def rust_string(lit):
    m = re.match(r'r(#*)"(.*)"\1$', lit, re.S)
    if m: return m.group(2)
    out, i, t = '', 1, lit[:-1]
    while i < len(t):
        if t[i] == '\\':
            i += 1
            if t[i] == 'u': j = t.index('}', i); out += chr(int(t[i + 2:j], 16)); i = j
            elif t[i] == 'x': out += chr(int(t[i + 1:i + 3], 16)); i += 2
            elif t[i] == '\n':
                while i + 1 < len(t) and t[i + 1].isspace(): i += 1
            else: out += {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(t[i], t[i])
        else: out += t[i]
        i += 1
    return out


STR = r'(r#*"(?:.|\n)*?"#*|"(?:\\.|[^"\\])*")'


def token_rules(c):
    """(kind, text, rest of the attribute, variant, line) for every rule of the Logos enum Token"""
    for root, dirs, files in os.walk(os.path.join(X.REPO, 'crates/analyzer-core/src')):
        for f in sorted(files):
            if not f.endswith('.rs'): continue
            src = open(os.path.join(root, f)).read()
            m = re.search(r'derive\([^)]*\bLogos\b[^)]*\)\]\s*((?:#\[[^\n]*\]\s*)*)(?:pub(?:\([a-z]+\))?\s+)?enum\s+Token\b[^{]*\{', src)
            if not m: continue
            return os.path.join(root, f), parse_enum(src, m.end()), m.group(1)
    return None, [], ''


def parse_enum(src, i):
    out, pend = [], []
    ws = re.compile(r'(\s|//[^\n]*|/\*(?:.|\n)*?\*/)*')
    while True:
        i = ws.match(src, i).end()
        if i >= len(src) or src[i] == '}': return out
        if src.startswith('#[', i):
            d, j = 0, i + 1
            while True:
                st = re.compile(STR).match(src, j)
                if st: j = st.end(); continue
                if src[j] == "'" and re.match(r"'(\\.|[^\\'])'", src[j:j + 4]): j += src[j + 1:].index("'") + 2; continue
                d += (src[j] in '[(') - (src[j] in ')]')
                j += 1
                if d == 0: break
            pend.append((src[i:j], src.count('\n', 0, i) + 1)); i = j
            continue
        m = re.compile(r'\w+').match(src, i)
        if not m: return out
        for a, line in pend:
            k = re.match(r'#\[(token|regex|error)\b\s*(?:\(\s*' + STR + r'(.*)\)\s*)?\]$', a, re.S)
            if k: out.append((k.group(1), rust_string(k.group(2)) if k.group(2) else None, k.group(3) or '', m.group(0), line))
        pend, i, d = [], m.end(), 0
        while src[i] not in ',}' or d:
            d += (src[i] in '({[') - (src[i] in ')}]'); i += 1
        if src[i] == ',': i += 1


class Tokens:
    def __init__(s, c):
        f, rules, head = token_rules(c)
        if not rules: c.missing('the token definitions (enum Token)'); return
        w = lambda line: '%s:%d' % (os.path.relpath(f, X.REPO), line)
        got, regs = {}, {}
        for kind, text, rest, var, line in rules:
            c.ob('token rule', w(line))
            if kind == 'token':
                if re.search(r'ignore\s*\(', rest): c.bad('token:case', w(line), 'the token %s is recognised regardless of case' % text)
                if text in got: c.bad('token:twice', w(line), 'the text "%s" names two tokens' % text)
                got[text] = (var, line)
                if 'skip' in rest: c.bad('token:skipped', w(line), 'the token "%s" is skipped' % text)
            elif kind == 'regex': regs.setdefault(var, []).append((text, rest, line))
        if 'skip' in head: c.bad('token:skip', w(rules[0][4]), 'the lexer skips text: tokens no longer say where whitespace and comments are')
        for text, var in sorted(TEXT.items()):
            g, line = got.get(text, (None, 0))
            if g is None:
                r = [v for v, rs in regs.items() for t, _, _ in rs if v == var and not differ(t, re.escape(text), 'missing')]
                if not r: c.bad('token:text:' + var, w(rules[0][4]), '"%s" is no longer the token %s' % (text, var))
            elif g != var: c.bad('token:text:' + var, w(line), '"%s" is the token %s instead of %s' % (text, g, var))
        def lang(var, want, what, mode='both', hook=None):
            rs = [r for r in regs.get(var, ()) if not hook or hook(r)]
            if not rs: c.missing('the rule for ' + what); return
            t, rest, line = rs[0]
            try: d = differ('|'.join('(?:%s)' % r[0] for r in rs), want, mode)
            except (ValueError, re.error) as e: c.bad('token:regex', w(line), 'the rule for %s cannot be read: %s' % (what, e)); return
            if d is not None: c.bad('token:language:' + var, w(line), 'the rule for %s disagrees with its definition on %r' % (what, d))
        lang('Identifier', '[a-zA-Z_][a-zA-Z0-9_]*', 'identifiers')
        lang('Whitespace', r'\s+', 'whitespace')
        comments = regs.get('Comment', [])
        line_c = [r for r in comments if r[0].startswith('//') or not re.search(r'\\?\*', r[0][:4])]
        try: ok = any(differ(r[0], x) is None for r in line_c for x in ('//[^\n]*\n?', '//[^\n]*'))
        except (ValueError, re.error): ok = False
        if not ok: c.bad('token:language:Comment', w(comments[0][2] if comments else 1), 'a line comment is not the rest of its line, also on the last line of a file')
        block = [r for r in comments if r not in line_c]
        if not block: c.missing('the rule for block comments')
        elif differ(block[0][0], r'/\*') is not None and differ(block[0][0], r'/\*([^*]|\*+[^*/])*\*+/') is not None: c.bad('token:language:BlockComment', w(block[0][2]), 'block comments do not start with "/*"')
        lang('PreprocessorDirective', r'#[ \t]*[a-zA-Z]+', 'directives', 'missing')
        lang('PreprocessorDirective', r'#\s*\w+', 'directives', 'extra')
        lang('Integer', r'([0-9]+[ws])?(0[xX][0-9a-fA-F_]+|0[dD][0-9_]+|0[oO][0-7_]+|0[bB][01_]+|[0-9][0-9_]*)', 'integers', 'missing')
        lang('Integer', r'[0-9](.|\n)*', 'integers', 'extra')
        s.rules = rules


# ---- functions of the lexer

def regex_of(P, t):
    """the text of the constant regular expression behind a (lazy) static"""
    t = strip(t)
    if t.op == 'call' and last(t.a[1]) == 'new': 
        v = strip(t.a[2])
        if v.op == 'ok' or v.op == 'const': return v.a[0]
    d = None
    for x in subterms(t):
        if x.op == 'static': d = x.a[0]
    if d is None: return None
    pre = re.sub(r'::deref$', '', d)
    out = set()
    for f in P.fns.values():
        if f['id'] != d and not f['id'].startswith(pre + '::'): continue
        js = json.dumps(f['blocks'])
        if 'Regex::new' in js: out |= {json.loads(x) for x in re.findall(r'"str": ("(?:[^"\\]|\\.)*")', js)}
    return out.pop() if len(out) == 1 else None


class LexRule(Rule):
    def __init__(s, c, P): s.c, s.P, s.stops = c, P, set()
    def init(s): return 0
    def stop(s, fid): return fid in s.stops
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items()))
    def event(s, kind, ev, st, E):
        if kind in ('panic', 'assertfail', 'diverge') and E.final: s.panic(ev, st, E)
        return s.on(kind, ev, st, E)
    def on(s, kind, ev, st, E): return None

    def panic(s, ev, st, E):
        n, w = getattr(ev, 'name', '') or '', ev.where
        a = strip(ev.args[0]) if getattr(ev, 'args', ()) else None
        if last(n, 1) in ('unwrap', 'expect') and a is not None and a.op == 'call':
            if last(a.a[1], 2) == 'Captures::get':
                g = a.a[3] if len(a.a) > 3 else None
                cap = [x for x in subterms(a.a[2]) if x.op == 'call' and last(x.a[1], 2) == 'Regex::captures']
                r = regex_of(s.P, cap[0].a[2]) if cap else None
                if r is not None and g is not None and g.op == 'const' and mandatory(r, g.a[0]): return
            if last(a.a[1], 2) == 'Regex::new': return
        if 'unreachable' in n:
            for k, f in st.facts.items():
                if k.op == 'call' and last(k.a[1], 2) == 'Match::as_str' and f[0] == 'ni':
                    g = [x for x in subterms(k) if x.op == 'call' and last(x.a[1], 2) == 'Captures::get']
                    cap = [x for x in subterms(k) if x.op == 'call' and last(x.a[1], 2) == 'Regex::captures']
                    if not g or not cap: continue
                    r = regex_of(s.P, cap[0].a[2])
                    words = group_words(r, g[0].a[3].a[0]) if r is not None and g[0].a[3].op == 'const' else None
                    if words is not None and words <= set(f[1]): return
        s.c.bad('panic:' + last(s.fid, 1), w, 'the lexer can panic on some text: %s' % (getattr(ev, 'msg', '') or n))


def group(r, k):
    """(parsed contents of group k, mandatory)"""
    def go(items, must):
        for op, av in items:
            if op is SC.SUBPATTERN:
                if av[0] == k: return list(av[3]), must
                x = go(list(av[3]), must)
                if x: return x
            elif op in (SC.MAX_REPEAT, SC.MIN_REPEAT):
                x = go(list(av[2]), must and av[0] > 0)
                if x: return x
            elif op is SC.BRANCH:
                for y in av[1]:
                    x = go(list(y), False)
                    if x: return x
        return None
    try: return go(list(sre_parse.parse(r)), True)
    except re.error: return None


def mandatory(r, k):
    if k == 0: return True
    x = group(r, k)
    return bool(x and x[1])


def group_words(r, k):
    """all texts of group k if it is one character wide"""
    x = group(r, k)
    if not x or len(x[0]) != 1: return None
    op, av = x[0][0]
    if op is SC.LITERAL: return {chr(av)}
    if op is SC.IN: return {ch for ch in ALPHABET if inside(av, ch)}
    return None


def capture(t):
    """(captures call, group) of Match terms: .. get(captures(re, text) as Some .0, k) as Some .0"""
    x = outermost(t, lambda x: x.op == 'call' and last(x.a[1], 2) == 'Captures::get')
    y = outermost(x.a[2], lambda y: y.op == 'call' and last(y.a[1], 2) == 'Regex::captures') if x is not None else None
    return (y, x.a[3].a[0] if x.a[3].op == 'const' else None) if y is not None else (None, None)


def outermost(t, f):
    xs = [x for x in subterms(t) if f(x)]
    return next((x for x in xs if not any(y is not x and contains(y, x) for y in xs)), None)


def is_slice(t): return strip(t).op == 'call' and last(strip(t).a[1], 2) == 'Lexer::slice'


def plain(t):
    """sees through references, conversions"""
    while True:
        t = strip(t)
        if t.op == 'cast' or t.op == 'deref': t = t.a[0]
        elif t.op == 'un' and t.a[0] == 'Deref': t = t.a[1]
        else: return t


class Number(LexRule):
    """the value of an integer literal"""
    def partition(s, st, E): return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items() if not contains_db(k)))
    def on(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        c, w = s.c, ev.where
        for v in E.leaves(ev.val):
            if not is_agg(v, 'Some'): continue
            lit = strip(dict(v.a[2])['0'])
            if lit.op != 'agg': c.bad('integer:value', w, 'the literal read is %s' % show(lit, 3)); continue
            f = dict(lit.a[2])
            c.ob('literal read', w)
            s.literal(f, st, E, w)

    def literal(s, f, st, E, w):
        c = s.c
        val = plain(f['value'])
        call = val.a[0].a[0] if val.op == 'fld' and val.a[0].op == 'as' else None
        if call is None or call.op != 'call' or last(call.a[1], 1) != 'from_str_radix': c.bad('integer:value', w, 'the value of an integer literal is %s' % show(val, 3)); return
        radix, text = plain(call.a[3]), plain(call.a[2])
        base = plain(f['base'])
        # the text
        if text.op in ('call', 'app') and last(text.a[1] if text.op == 'call' else text.a[0], 1) in ('replace',):
            a = text.a[2:] if text.op == 'call' else text.a[1:]
            if [plain(x).a[0] if plain(x).op == 'const' else None for x in a[1:]] not in (['_', ''], [95, '']): c.bad('integer:underscores', w, 'underscores are not removed before the value of a literal is computed')
            text = plain(a[0])
        elif not ('filter' in show(text, 0) and '_' in show(text, 0)): c.bad('integer:underscores', w, 'underscores are not removed before the value of a literal is computed')
        marks = []
        t = text
        for _ in range(6):
            t = plain(t)
            m = [x for x in subterms(t) if x.op == 'call' and last(x.a[1], 2) == 'Match::end']
            if is_slice(t): break
            inner = t
            if t.op in ('idx', 'call', 'app', 'ref') and m:
                end = outermost(t, lambda x: x.op == 'agg' and 'RangeFrom' in str(x.a[0]))
                e = plain(dict(end.a[2])['start']) if end is not None else None
                if e is not None and e.op == 'call' and last(e.a[1], 2) == 'Match::end':
                    cap, g = capture(e)
                    if cap is not None: marks.append((cap, g)); t = plain(cap.a[3]); continue
            marks = None; break
        if marks is None or not is_slice(t): c.bad('integer:text', w, 'the value of a literal is computed from %s, not from the rest of the token behind its width and base' % show(text, 4)); return
        width = base_m = None
        for cap, g in marks:
            r = regex_of(s.P, cap.a[2])
            if r is None: c.bad('integer:regex', w, 'a prefix of integer literals is recognised by an expression that cannot be resolved'); return
            k = role(r)
            if k is None: c.bad('integer:prefix', w, 'the prefix %r of integer literals is not known' % r); return
            if not Nfa(r).anchored: c.bad('integer:anchor', w, 'the prefix %r of integer literals is looked for anywhere in the token: hexadecimal digits are taken for it' % r)
            if not ends(r, g): c.bad('integer:cut', w, 'the value of a literal is not what follows its prefix %r' % r)
            if k == 'width': width = cap
            else: base_m = cap
        if [k for k in marks] and len(marks) == 2 and marks[0][0] is not base_m: c.bad('integer:order', w, 'the base of a literal is looked for before its width')
        if plain(radix) is not base and not (radix.op == 'const' and base.op == 'const' and radix.a[0] == base.a[0]): c.bad('integer:radix', w, 'the value of a literal is computed in base %s although the literal says %s' % (show(radix, 2), show(base, 2)))
        want = {10}
        if base_m is not None:
            ind = s.matched(base_m, 1, st)
            if ind is None: c.bad('integer:base', w, 'the base of a literal does not depend on its prefix'); return
            want = {{'b': 2, 'o': 8, 'd': 10, 'x': 16}[i.lower()[-1]] for i in ind if i.lower()[-1:] in 'bodx' and i}
        if base.op != 'const' or {base.a[0]} != want: c.bad('integer:base', w, 'a literal whose prefix stands for base %s is read in base %s' % (sorted(want), show(base, 2)))
        # signedness and width
        wf, sf = strip(f['width']), plain(f['signed'])
        if width is None:
            if not is_agg(wf, 'None') or sf.op != 'const' or sf.a[0]: c.bad('integer:width', w, 'a literal without a width has the width %s' % show(wf, 3))
            # the prefix has to be looked for
            rs = [role(regex_of(s.P, k.a[0].a[2]) or '') for k in st.facts if k.op == 'var' and k.a[0].op == 'call' and last(k.a[0].a[1], 2) == 'Regex::captures']
            if 'width' not in rs: c.bad('integer:nowidth', w, 'the width of a literal is not looked for')
        else:
            p = pay(wf, 'Some') if is_agg(wf, 'Some') else None
            p = plain(dict(wf.a[2])['0']) if is_agg(wf, 'Some') else None
            ok = False
            if p is not None:
                cp, g = capture(p)
                ok = cp is width and g == 1 and 'parse' in show(p, 1)
            if not ok: c.bad('integer:width', w, 'the width of a literal is %s, not the number in front of "w" or "s"' % show(wf, 3))
            ind = s.matched(width, 2, st)
            if ind is None or len({i for i in ind}) != 1: c.bad('integer:sign', w, 'the signedness of a literal does not depend on its prefix')
            elif sf.op != 'const' or sf.a[0] != (next(iter(ind)) == 's'): c.bad('integer:sign', w, 'a literal with the prefix "%s" is %ssigned' % (next(iter(ind)), '' if sf.op == 'const' and sf.a[0] else 'un'))
        if base_m is None:
            rs = [role(regex_of(s.P, k.a[0].a[2]) or '') for k in st.facts if k.op == 'var' and k.a[0].op == 'call' and last(k.a[0].a[1], 2) == 'Regex::captures']
            if 'base' not in rs: c.bad('integer:nobase', w, 'the base of a literal is not looked for')

    def matched(s, cap, g, st):
        """the texts of a group on this path"""
        for k, f in st.facts.items():
            if k.op == 'call' and last(k.a[1], 2) == 'Match::as_str' and f[0] == 'in':
                cp, gg = capture(k)
                if cp is cap and gg == g: return set(f[1])
        return None


def contains_db(k): return any(x.op == 'fld' and x.a[1] == 'db' for x in subterms(k))


def role(r):
    try:
        if differ(r, '[0-9]+[ws]') is None: return 'width'
        if differ(r, '0[bBdDoOxX]') is None: return 'base'
    except (ValueError, re.error): pass
    return None


def ends(r, g):
    """group g reaches the end of the expression"""
    if g == 0: return True
    items = list(sre_parse.parse(r))
    return bool(items) and items[-1][0] is SC.SUBPATTERN and items[-1][1][0] == g


class Directive(LexRule):
    def __init__(s, c, P, parts):
        LexRule.__init__(s, c, P)
        s.parts = parts; s.stops = set(x for x in parts.values() if x)
    def init(s): return 0
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items()))
    def made(s, t, part):
        return any(x.op == 'call' and s.parts.get(part) and last(x.a[1], 1) == last(s.parts[part], 1) for x in subterms(t))
    def on(s, kind, ev, st, E):
        c, w = s.c, ev.where
        if kind == 'call' and getattr(ev, 'id', None) == s.parts['line']:
            if E.final:
                c.ob('rest of a directive read', w)
                a = E.val(st, ev.args[1])
                if not (plain(a).op == 'call' and last(plain(a).a[1], 2) == 'Lexer::remainder'): c.bad('directive:line', w, 'the rest of a directive is read from %s' % show(a, 3))
            return min(st.auto + 1, 2)
        if kind != 'return' or not E.final: return None
        name = next((f for k, f in st.facts.items() if k.op == 'call' and last(k.a[1], 2) == 'Match::as_str'), None)
        for v in E.leaves(ev.val):
            if name is None:
                if is_agg(v, 'Some'): c.bad('directive:name', w, 'a directive is %s regardless of its name' % show(v, 3))
                continue
            names = set(name[1]) if name[0] == 'in' else {None}
            for n in names:
                want = DIRECTIVE.get(n, 'Other')
                c.ob('directive: %s' % (n or 'other'), w)
                if st.auto != 1: c.bad('directive:rest', w, 'the rest of the line of "#%s" is read %d times' % (n or '..', st.auto))
                if is_agg(v, 'None'):
                    if want in ('Else', 'EndIf', 'Pragma', 'Other'): c.bad('directive:lost:' + want, w, '"#%s" is not recognised: it becomes unexpected text' % (n or '..'))
                    elif want in ('If', 'ElseIf', 'Include', 'Define'):
                        part = {'If': 'expr', 'ElseIf': 'expr', 'Include': 'include', 'Define': 'define'}[want]
                        if s.parts[part] and not any(k.op == 'var' and s.made(k.a[0], part) and f == ('in', frozenset(['None'])) for k, f in st.facts.items()): c.bad('directive:lost:' + want, w, '"#%s" is not recognised although its argument is well formed' % n)
                    continue
                if not is_agg(v, 'Some'):
                    c.bad('directive:unknown', w, '"#%s" is %s' % (n or '..', show(v, 3))); continue
                d = strip(dict(v.a[2])['0'])
                if d.op != 'agg' or d.a[1] != want: c.bad('directive:kind:' + want, w, '"#%s" is read as %s' % (n or '..', show(d, 3))); continue
                f = dict(d.a[2])
                def bad(): c.bad('directive:argument:' + want, w, 'the argument of "#%s" is %s' % (n or '..', show(d, 4)))
                if want in ('If', 'ElseIf'):
                    if not s.made(f['0'], 'expr') or not s.made(f['0'], 'line'): bad()
                elif want in ('Include', 'Define') and s.parts[{'Include': 'include', 'Define': 'define'}[want]]:
                    part = {'Include': 'include', 'Define': 'define'}[want]
                    if [strip(f[k]).a[1] if strip(f[k]).op == 'fld' and s.made(f[k], part) and s.made(f[k], 'line') else None for k in ('0', '1')] != ['0', '1']: bad()
                elif want == 'Undef':
                    if not s.made(f['0'], 'line') and strip(f['0']).op != 'phi' and not any(s.made(x, 'line') for x in E.leaves(f['0'])) and not any(y.op == 'phi' for y in subterms(f['0'])): bad()
                elif want == 'Pragma':
                    if not s.made(f['0'], 'line'): bad()
                elif want == 'Other':
                    if not any(x.op == 'call' and last(x.a[1], 2) == 'Match::as_str' for x in subterms(f['0'])) or not s.made(f['1'], 'line'): bad()
        return None


def code(x): return ord(x) if isinstance(x, str) and len(x) == 1 else x


class Loop(LexRule):
    """a loop that takes characters from the rest of the input one by one; auto: (site of the current character, bumped, prev flag, pushes)"""
    FLAG = None                              # the character that sets the flag for the next one
    def init(s): return ('', 0, False, 0, False)
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op in ('elem', 'prev')))

    def cls(s, st, site):
        """what the current character is known to be: a set, or None"""
        f = next((f for k, f in st.facts.items() if k.op == 'elem' and k.a[0] == site), None)
        if f is None: return ('ni', frozenset())
        return (f[0], frozenset(code(x) for x in f[1]))
    def can(s, st, site, ch):
        k, xs = s.cls(st, site)
        return (ch in xs) == (k == 'in')
    def before(s, st, site, ch):
        """the character before the current one is known to be ch"""
        return any(k.op == 'prev' and k.a[0].op == 'elem' and k.a[0].a[0] == site and f[0] == 'in' and {code(x) for x in f[1]} == {ch} for k, f in st.facts.items())
    def must(s, st, site, ch): return s.cls(st, site) == ('in', frozenset([ch]))

    def on(s, kind, ev, st, E):
        site, bumped, flag, pushes, done = st.auto
        if kind == 'next':
            if site: flag = s.done(ev, st, E)
            return ('', 0, flag, 0, False)
        if kind == 'exhausted': return ('', 0, flag, 0, True)
        n = getattr(ev, 'name', '')
        if kind == 'call' and last(n, 1) == 'len_utf8' and not site:
            e = strip(E.val(st, ev.args[0]))
            if e.op == 'elem': return (e.a[0], bumped, flag, pushes, False)
        if kind == 'call' and last(n, 2) == 'Lexer::bump':
            a = plain(E.val(st, ev.args[1]))
            ok = a.op in ('app', 'call') and last(a.a[0] if a.op == 'app' else a.a[1], 1) == 'len_utf8'
            if E.final:
                s.c.ob('character taken', ev.where)
                if not ok: s.c.bad('bump:width:' + last(s.fid, 1), ev.where, 'the lexer is advanced by %s instead of the length of the character taken' % show(a, 3))
            e = next((x for x in subterms(a) if x.op == 'elem'), None)
            return (e.a[0] if e is not None else site, min(bumped + 1, 2), flag, pushes, False)
        if kind == 'call' and last(n, 2) in ('String::push', 'String::push_str', 'Vec::push'):
            e = strip(E.val(st, ev.args[1]))
            if E.final and e.op != 'elem': s.c.bad('line:pushed', ev.where, 'the text collected is %s' % show(e, 3))
            return (site, bumped, flag, min(pushes + 1, 2), False)
        if kind == 'return' and E.final: s.ended(ev, st, E)
        return None

    def done(s, ev, st, E):
        """the current character has been dealt with; -> flag for the next"""
        site, bumped, flag, pushes, _ = st.auto
        if E.final and bumped != 1: s.c.bad('bump:count:' + last(s.fid, 1), ev.where, 'the lexer is advanced %d times for one character' % bumped)
        return s.char(ev, st, E, site, flag, pushes)


class Comment(Loop):
    def char(s, ev, st, E, site, flag, pushes):
        flag = flag or s.before(st, site, 42)
        if E.final and flag and s.must(st, site, 47): s.c.bad('comment:past', ev.where, 'a block comment does not end at "*/"')
        return s.must(st, site, 42)
    def ended(s, ev, st, E):
        site, bumped, flag, pushes, done = st.auto
        flag = flag or s.before(st, site, 42)
        for v in E.leaves(ev.val):
            s.c.ob('end of a block comment', ev.where)
            if v.op != 'const': s.c.bad('comment:result', ev.where, 'a block comment ends as %s' % show(v, 2)); continue
            if v.a[0] and (done or not flag or not s.must(st, site, 47)): s.c.bad('comment:early', ev.where, 'a block comment can end before "*/"')
            if not v.a[0] and not done: s.c.bad('comment:lost', ev.where, 'a block comment is given up before the end of the text')
            if bumped != 1 and not done: s.c.bad('bump:count:' + last(s.fid, 1), ev.where, 'the lexer is advanced %d times for one character' % bumped)


class Line(Loop):
    def char(s, ev, st, E, site, flag, pushes):
        c = s.c
        esc = not flag and s.must(st, site, 92)
        if E.final:
            c.ob('character of a directive', ev.where)
            if not flag and s.must(st, site, 10): c.bad('line:past', ev.where, 'a directive goes on behind the end of its line')
            if esc and pushes: c.bad('line:escape', ev.where, 'a backslash stays in the text of a directive')
            if not esc and pushes != 1 and not (s.must(st, site, 10) and flag): c.bad('line:kept', ev.where, 'a character of a directive is kept %d times' % pushes)
            if not flag and s.can(st, site, 92) and not esc: c.bad('line:escape', ev.where, 'a backslash stays in the text of a directive')
        return esc
    def ended(s, ev, st, E):
        site, bumped, flag, pushes, done = st.auto
        s.c.ob('end of a directive', ev.where)
        if done: return
        if flag or not s.must(st, site, 10): s.c.bad('line:early', ev.where, 'a directive can end before the end of its line')
        if pushes: s.c.bad('line:newline', ev.where, 'the newline that ends a directive is part of its text')
        if bumped != 1: s.c.bad('bump:count:' + last(s.fid, 1), ev.where, 'the lexer is advanced %d times for one character' % bumped)


class Include(LexRule):
    """the path of an #include"""
    def init(s): return (None, '', False)
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if not contains_db(k)))
    def on(s, kind, ev, st, E):
        opening, site, pushed = st.auto
        n = getattr(ev, 'name', '')
        if kind == 'call' and last(n, 2) == 'String::push':
            e = strip(E.val(st, ev.args[1]))
            if E.final:
                s.c.ob('character of an include path', ev.where)
                if e.op != 'elem': s.c.bad('include:pushed', ev.where, 'the path of an include contains %s' % show(e, 3))
            return None
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                if not is_agg(v, 'Some'): continue
                f = dict(strip(dict(v.a[2])['0']).a[2])
                s.c.ob('include read', ev.where)
                q = strip(f['0'])
                q = q.a[1] if q.op == 'agg' else None
                elems = [(k, frozenset(code(x) for x in g[1])) for k, g in st.facts.items() if k.op == 'elem' and g[0] == 'in']
                o = {'AngleBrackets': (60, 62), 'DoubleQuotes': (34, 34)}.get(q)
                if o is None: s.c.bad('include:style', ev.where, 'the quotation style of an include is %s' % show(f['0'], 2)); continue
                if not any(xs == frozenset([o[0]]) for k, xs in elems): s.c.bad('include:open', ev.where, 'an include is %s although its path need not start with %r' % (q, chr(o[0])))
                eqs = [xs for k, xs in elems if xs == frozenset([o[1]])]
                if not eqs or o[0] == o[1] and len(eqs) < 2: s.c.bad('include:close', ev.where, 'the path of an include need not end with %r' % chr(o[1]))
        return None


class Define(LexRule):
    """the name and the replacement of a macro"""
    def partition(s, st, E): return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items() if not contains_db(k)))
    def on(s, kind, ev, st, E):
        c, w = s.c, ev.where
        n = getattr(ev, 'name', '')
        if kind == 'call' and last(n, 2) == 'String::push' and E.final:
            e = strip(E.val(st, ev.args[1]))
            c.ob('character of a macro', w)
            if e.op != 'elem': c.bad('define:name', w, 'the name of a macro contains %s' % show(e, 3)); return None
            ok = any((k.op == 'call' or k.op == 'app') and contains(k, e) and 'alphanumeric' in show(k, 1) and f == ('in', frozenset([True])) for k, f in st.facts.items()) or any(k is e and f[0] == 'in' and {code(x) for x in f[1]} <= set(map(ord, '_')) for k, f in st.facts.items())
            if not ok: c.bad('define:name', w, 'a character that is neither a letter nor a digit nor "_" is taken into the name of a macro')
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                if not is_agg(v, 'Some'): continue
                f = dict(strip(dict(v.a[2])['0']).a[2])
                c.ob('macro read', w)
                for body in E.leaves(f['1']): s.body(strip(body), w)
        return None

    def body(s, body, w):
                c = s.c
                its = [x for x in subterms(body) if x.op == 'it']
                if body.op == 'coll' and its:
                    ad = [a[0] if isinstance(a, tuple) else a.a[0] for it in its for a in it.a[2]]
                    lossy = [a for a in ad if a in ('filter', 'filter_map', 'take_while', 'take', 'map_while', 'step_by', 'map')]
                    if lossy: c.bad('define:body', w, 'the replacement of a macro is not the whole rest of its line (%s)' % ', '.join(lossy))
                elif not any(x is mk('arg', 2) or x.op == 'elem' for x in subterms(body)): c.bad('define:body', w, 'the replacement of a macro is %s' % show(body, 3))


class Unexpected(LexRule):
    """the scanner that merges unexpected text"""
    def init(s): return 0
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items()))
    def on(s, kind, ev, st, E):
        c, w = s.c, ev.where
        STATE, TK = mk('arg', 2), mk('arg', 3)
        if kind == 'call' and (last(ev.name, 1) == 'push' and 'Diagnostic' in ev.name or last(ev.name, 1) == 'accumulate'):
            d = next((x for x in (strip(E.val(st, a, 6)) for a in ev.args) if x.op == 'agg' and x.a[0].endswith('Diagnostic')), None)
            if d is None: return None
            if E.final and last(ev.name, 1) == 'push':
                f = dict(d.a[2])
                c.ob('unexpected text reported', w)
                was = E.fact_var(st, STATE)
                loc = strip(f['location'])
                if was != frozenset(['Some']) or loc is not strip(project(project(STATE, ('v', 'Some')), ('f', '0'))): c.bad('error:location', w, 'unexpected text is reported at %s' % show(loc, 3))
                if not (strip(f['file']).op == 'fld' and strip(f['file']).a[0] is SELF0): c.bad('error:file', w, 'unexpected text is reported for the file %s' % show(f['file'], 3))
                if strip(f['severity']).a[1] != 'Error': c.bad('error:severity', w, 'unexpected text is reported as %s' % show(f['severity'], 2))
                if 'Error' in (E.fact_var(st, project(TK, ('f', '0'))) or ('Error',)): c.bad('error:early', w, 'unexpected text is reported before it ends')
            return st.auto + (1 if last(ev.name, 1) == 'push' else 0)
        if kind == 'return' and E.final:
            tk = E.fact_var(st, project(TK, ('f', '0')))
            was = E.fact_var(st, STATE)
            for v in E.leaves(ev.val):
                c.ob('token passed on', w)
                if not is_agg(v, 'Some') or strip(dict(v.a[2])['0']) is not TK: c.bad('error:token', w, 'a token is replaced by %s when unexpected text is collected' % show(v, 3))
            now = strip(E.read(st, (('p', STATE), ())))
            if now is STATE or now.op == 'deref': now = None
            span = project(TK, ('f', '1'))
            old = project(project(STATE, ('v', 'Some')), ('f', '0'))
            if tk == frozenset(['Error']):
                if st.auto: c.bad('error:early', w, 'unexpected text is reported before it ends')
                if now is None: c.bad('error:dropped', w, 'unexpected text is not remembered'); return None
                want = span if was == frozenset(['None']) else None
                got = strip(dict(now.a[2])['0']) if is_agg(now, 'Some') else None
                if got is None: c.bad('error:dropped', w, 'unexpected text is not remembered: %s' % show(now, 3)); return None
                r = dict(got.a[2]) if got.op == 'agg' else {}
                lo, hi = (strip(r['start']), strip(r['end'])) if 'start' in r else (project(got, ('f', 'start')), project(got, ('f', 'end')))
                src = span if was == frozenset(['None']) else old
                if lo is not project(src, ('f', 'start')) or hi is not project(span, ('f', 'end')):
                    if not (got is src and was == frozenset(['None'])): c.bad('error:merge', w, 'consecutive unexpected texts are merged into %s' % show(got, 4))
            elif tk is not None and 'Error' not in tk:
                if was == frozenset(['Some']):
                    if st.auto != 1: c.bad('error:report', w, 'unexpected text is reported %d times' % st.auto)
                    if now is None or not is_agg(now, 'None'): c.bad('error:again', w, 'unexpected text stays remembered after it has been reported')
                elif st.auto: c.bad('error:report', w, 'unexpected text is reported although there is none')
            else: c.bad('error:kind', w, 'what happens to a token does not depend on whether it is unexpected text')
        return None


SELF0 = mk('arg', 1)


def lexer(c):
    P = c.program(UNITS)
    c.rule('Every text that names a token names the right one; regular expressions of the lexer accept the right language', 'equivalence of automata')
    Tokens(c)
    ms = [f for f in P.fns.values() if f['unit'] == 'analyzer_core' and f['kind'] == 'method' and f['argc'] and 'lexer' in f['id'] and not re.search(r'\{impl#\d+\}::lex::', f['id'])]
    def find(pred): 
        r = [f['id'] for f in ms if pred(f)]
        return r[0] if len(r) == 1 else None
    ret = lambda f: f['locals'][0]['t']
    lit = find(lambda f: re.match(r'core::option::Option<.*\bLiteral>$', ret(f)))
    parts = {'line': find(lambda f: ret(f).endswith('String') and f['argc'] == 2), 'include': find(lambda f: 'QuotationStyle' in ret(f)),
             'define': find(lambda f: re.match(r'core::option::Option<\(alloc::string::String, alloc::string::String\)>$', ret(f))),
             'expr': next((f['id'] for f in P.fns.values() if f['kind'] == 'fn' and re.match(r'core::option::Option<.*PreprocessorExpression>$', f['locals'][0]['t']) and f['argc'] == 1), None)}
    dire = find(lambda f: re.match(r'core::option::Option<.*\bPreprocessorDirective>$', ret(f)))
    com = find(lambda f: ret(f) == 'bool' and '::eq' not in f['id'] and f['argc'] == 1)
    def run(what, rule, fid):
        if fid is None: c.missing(what); return
        rule.fid = fid
        c.run_engine(P, rule, fid, maxpart=800)
    run('the function that reads integer literals', Number(c, P), lit)
    c.floor('literal read', 4)
    if parts['line'] is None: c.missing('the function that reads the rest of a directive')
    else:
        run('the function that reads directives', Directive(c, P, parts), dire)
        run('', Line(c, P), parts['line'])
    if parts['expr'] is None: c.missing('the parser of conditions')
    run('the function that reads block comments', Comment(c, P), com)
    if parts['include']: run('', Include(c, P), parts['include'])
    if parts['define']: run('', Define(c, P), parts['define'])
    scan = [f['id'] for f in P.fns.values() if f['unit'] == 'analyzer_core' and f['kind'] == 'closure' and f['argc'] == 3 and 'Option<core::ops::range::Range<usize>>' in f['locals'][2]['t'].replace('std::', 'core::') and 'Token' in f['locals'][3]['t']]
    run('the scanner that collects unexpected text', Unexpected(c, P), scan[0] if len(scan) == 1 else None)
    q = [f['id'] for f in P.fns.values() if f['unit'] == 'analyzer_core' and f['kind'] == 'fn' and f['locals'][0]['t'].endswith('LexedBuffer') and '{' not in f['id'] and any('Buffer' in l['t'] for l in f['locals'][1:f['argc'] + 1])]
    run('the query that lexes a buffer', Query(c, P), q[0] if q else None)
    c.floor('text lexed', 1)
    for f in P.fns.values():
        if f['kind'] == 'closure' and 'Position<' in f['locals'][2]['t'] if f['argc'] == 2 else False:
            r = Sentinel(c, P); r.fid = f['id']
            c.run_engine(P, r, f['id'])


class Query(LexRule):
    """lex(db, file, buffer)"""
    def on(s, kind, ev, st, E):
        c, w = s.c, ev.where
        if kind != 'call' or not E.final: return None
        n = last(ev.name, 1)
        if n in ('lexer_with_extras', 'lexer'):
            c.ob('text lexed', w)
            src, ex = E.val(st, ev.args[0]), E.val(st, ev.args[1], 6) if len(ev.args) > 1 else UNIT
            if not contains(src, mk('arg', 3)): c.bad('lex:text', w, 'the text lexed is %s, not that of the buffer' % show(src, 3))
            f = strip(dict(strip(ex).a[2]).get('file_id', UNIT)) if strip(ex).op == 'agg' else UNIT
            if f is not mk('arg', 2): c.bad('lex:file', w, 'errors in the text are reported for the file %s' % show(f, 2))
            db = strip(dict(strip(ex).a[2]).get('db', UNIT)) if strip(ex).op == 'agg' else UNIT
            if not is_agg(db, 'Some'): c.bad('lex:db', w, 'errors in the text are not reported')
        if n == 'process_error_tokens':
            c.ob('unexpected text collected', w)
            if strip(E.val(st, ev.args[2])) is not mk('arg', 2): c.bad('lex:file', w, 'unexpected text is reported for the file %s' % show(ev.args[2], 2))
        return None


class Sentinel(LexRule):
    """the filter that drops the token added at the end"""
    def on(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return None
        for v in E.leaves(ev.val):
            k = E.fact_var(st, mk('arg', 2))
            s.c.ob('token kept or dropped', ev.where)
            if k is None: s.c.bad('sentinel:kind', ev.where, 'whether a token is kept does not depend on its position'); continue
            if is_agg(v, 'None') and not k <= {'Last', 'Only'}: s.c.bad('sentinel:dropped', ev.where, 'a token that is not the last one is dropped')
            if is_agg(v, 'Some') and k & {'Last', 'Only'}: s.c.bad('sentinel:kept', ev.where, 'the token added behind the end of the text is kept')
        return None
