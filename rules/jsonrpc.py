"""JSON-RPC messages: framing written, framing read, message shapes."""
from engine import *
from engine import _strip_generics

UNITS = ['analyzer_host']


def method(P, ty, name, trait=None):
    """the inherent (or trait) method `name` of the type whose last path segment is `ty`"""
    out = []
    for i in P.impls:
        if last(_strip_generics(i['self_ty'])) != ty: continue
        t = i.get('trait')
        if (last(t) if t else None) != trait: continue
        for it in i['items']:
            if it['n'] == name: out.append(it['id'])
    return out[0] if len(out) >= 1 else None


# ---------------------------------------------------------------- byte pieces of a value
def _lit_bytes(s):
    """b"..." as printed by rustc"""
    m = re.match(r'^b"(.*)"$', s, re.S)
    if not m: return None
    out, t, i = bytearray(), m.group(1), 0
    while i < len(t):
        c = t[i]
        if c == '\\':
            n = t[i + 1]
            if n == 'x': out.append(int(t[i + 2:i + 4], 16)); i += 4; continue
            out += {'n': b'\n', 'r': b'\r', 't': b'\t', '0': b'\0', '\\': b'\\', '"': b'"', "'": b"'"}.get(n, n.encode()); i += 2; continue
        out += c.encode(); i += 1
    return bytes(out)


def fmt_pieces(E, st, f):
    """pieces of a format_args value; None when not understood"""
    if f.op != 'fmt': return None
    t = f.a[0]
    if t.op == 'const' and isinstance(t.a[0], str): return [('s', t.a[0])]
    if t.op != 'lit': return None
    b = _lit_bytes(t.a[0])
    if b is None: return None
    args = []
    if len(f.a) > 1:
        av = E.val(st, f.a[1])
        if av.op == 'agg': args = [E.val(st, x) for _, x in av.a[2]]
    out, i, k = [], 0, 0
    while i < len(b):
        n = b[i]
        if n == 0: break
        if n < 0x80: out.append(('s', b[i + 1:i + 1 + n].decode('utf8', 'replace'))); i += 1 + n; continue
        if n == 0xC0:
            if k >= len(args) or args[k].op != 'fmtarg' or args[k].a[0] != 'display': return None
            out += display_pieces(E, st, args[k].a[1], args[k].a[2]); k += 1; i += 1; continue
        return None                   # width, precision, ...: not plain
    return out


INT = re.compile(r'^&*(usize|isize|[iu](8|16|32|64|128))$')


def display_pieces(E, st, t, ty):
    t = E.val(st, t, 5)
    if INT.match(ty): return [('s', str(t.a[0]))] if t.op == 'const' else [('d', t)]
    if re.search(r'\b(str|String|Arguments)\b', ty): return pieces(E, st, t)
    if ty.endswith('char') and t.op == 'const': return [('s', chr(t.a[0]) if isinstance(t.a[0], int) else str(t.a[0]))]
    return [('?', t)]


EMPTY = ('String::new', 'Vec::new', 'String::with_capacity', 'Vec::with_capacity', 'Default::default', 'String::default', 'Vec::default')


def pieces(E, st, t):
    t = E.val(st, t, 5)
    while t.op == 'box': t = t.a[1]
    if t.op == 'const' and isinstance(t.a[0], str): return [('s', t.a[0])] if t.a[0] else []
    if t.op == 'lit':
        b = _lit_bytes(t.a[0])
        if b is not None: return [('s', b.decode('utf8', 'replace'))]
    if t.op == 'app' and t.a[0] == 'format':
        p = fmt_pieces(E, st, t.a[1])
        return p if p is not None else [('?', t)]
    if t.op == 'app' and t.a[0] == 'display' and t.a[1].op in ('app', 'bin') and (t.a[1].op == 'bin' or t.a[1].a[0] == 'len'): return [('d', t.a[1])]
    if t.op == 'app' and t.a[0] in ('from', 'to_vec', 'concat_str') and len(t.a) == 2: return pieces(E, st, t.a[1])
    if t.op == 'app' and t.a[0] == 'default': return []
    if t.op == 'app' and t.a[0] == 'concat' and t.a[1].op == 'agg' and t.a[1].a[0] == 'array':
        return [p for _, x in t.a[1].a[2] for p in pieces(E, st, x)]
    if t.op == 'call' and t.a[1] in EMPTY: return []
    if t.op == 'call' and t.a[1] == 'Add::add': return pieces(E, st, t.a[2]) + pieces(E, st, t.a[3])
    if t.op == 'upd':
        n = t.a[1]
        if n in ('String::push_str', 'Vec::extend_from_slice', 'Write::write_all', 'Extend::extend', 'Write::write_str', 'AddAssign::add_assign'): return pieces(E, st, t.a[2]) + pieces(E, st, t.a[3])
        if n in ('String::push', 'Vec::push', 'Write::write_char') and t.a[3].op == 'const':
            v = t.a[3].a[0]
            return pieces(E, st, t.a[2]) + [('s', chr(v) if isinstance(v, int) else v)]
        if n == 'Write::write_fmt':
            p = fmt_pieces(E, st, t.a[3])
            return pieces(E, st, t.a[2]) + (p if p is not None else [('?', t)])
        if n in ('Vec::append',): return pieces(E, st, t.a[2]) + pieces(E, st, t.a[3])
        if n in ('String::reserve', 'Vec::reserve', 'Write::flush'): return pieces(E, st, t.a[2])
        if n in ('String::clear', 'Vec::clear'): return []
        if n == 'String::insert_str' and t.a[3] is const(0): return pieces(E, st, t.a[4]) + pieces(E, st, t.a[2])
        return [('?', t)]
    return [('b', t)]


def canon(ps):
    out = []
    for k, v in ps:
        if k == 's' and out and out[-1][0] == 's': out[-1] = ('s', out[-1][1] + v)
        elif k == 's' and v == '': pass
        else: out.append((k, v))
    return out


def showp(ps): return ' ++ '.join(repr(v) if k == 's' else ('dec(%s)' % show(v, 4) if k == 'd' else 'bytes(%s)' % show(v, 4)) for k, v in ps)


# ---------------------------------------------------------------- writer
WRAP = ('BufWriter::new', 'LineWriter::new', 'BufWriter::with_capacity', 'Write::by_ref')


class Writer(Rule):
    """state: (pieces written, results of the writes, flushed since the last write)"""
    def __init__(s, c): s.c = c
    def init(s): return ((), (), False)

    def is_sink(s, E, st, t):
        n = 0
        while n < 6:
            n += 1
            if t is mk('arg', 2): return True
            if t.op == 'ref': t = E.read(st, t.a[0]); continue
            if t.op in ('box',): t = t.a[1]; continue
            if t.op == 'upd': t = t.a[2]; continue
            if t.op == 'call' and t.a[1] in WRAP: t = t.a[-1]; continue
            return False
        return False

    def event(s, kind, ev, st, E):
        ps, rs, fl = st.auto
        c = s.c
        if kind == 'call' and not getattr(ev, 'inlined', False) and ev.args and ev.name not in WRAP and s.is_sink(E, st, ev.args[0]):
            n = ev.name
            if n == 'Write::flush': return (ps, rs, True)
            if n == 'Write::write_all': add = pieces(E, st, ev.args[1])
            elif n in ('Write::write_fmt',): add = fmt_pieces(E, st, E.val(st, ev.args[1]))
            elif n.startswith('Write::'):
                add = None
            else: return None
            if add is None:
                if E.final:
                    c.ob('write on the stream', ev.where)
                    c.bad('write:' + n, ev.where, '%s does not put a statically known, complete sequence of bytes on the stream (a short write or an unknown format)' % n)
                add = [('?', const(n))]
            elif E.final: c.ob('write on the stream', ev.where)
            if len(ps) > 20: return None
            return (tuple(canon(list(ps) + add)), rs, False)
        if kind == 'ret' and ev.name.startswith('Write::') and s.is_sink(E, st, ev.args[0]): return (ps, rs + (ev.val,) if len(rs) < 20 else rs, fl)
        if kind == 'return' and E.final:
            for x in E.leaves(ev.val):
                if is_agg(x, 'Err'): continue
                if not is_agg(x, 'Ok'):
                    # `out.flush()` (or another write) as the tail expression: its own Ok is the success
                    if x in rs: tail = x
                    else: c.bad('write:ret', ev.where, 'the outcome %s is not tied to the writes' % show(x)); continue
                else: tail = None
                c.ob('success: complete, flushed frame', ev.where)
                s.frame(E, st, ev, ps)
                if not fl: c.bad('write:flush', ev.where, 'success is reported without flushing the stream after the last write')
                for r in rs:
                    if r is not tail and E.fact_var(st, r) != frozenset(['Ok']):
                        c.bad('write:ignored', ev.where, 'success is reported although the outcome of %s was not checked' % r.a[1])
            return None
        if kind == 'panic' and E.final: c.bad('write:panic', ev.where, 'writing a message can panic (%s)' % ev.name)
        return None

    def frame(s, E, st, ev, ps):
        ps = list(ps)
        text, body, vals = '', None, []
        for i, (k, v) in enumerate(ps):
            if k == 's' and body is None:
                j = (text + v).find('\r\n\r\n')
                if j >= 0:
                    full = text + v
                    text = full[:j]
                    rest = full[j + 4:]
                    body = ([('s', rest)] if rest else []) + ps[i + 1:]
                    break
                text += v
            else:
                text += '\0'; vals.append((k, v))
        if body is None:
            s.c.bad('write:frame', ev.where, 'what is written is not a header block terminated by an empty line followed by the content: %s' % showp(ps)); return
        seen, vi = 0, 0
        for line in text.split('\r\n'):
            if '\n' in line or '\r' in line: s.c.bad('write:eol', ev.where, 'a header line is not terminated by CRLF: %r' % line)
            nm, sep, v = line.partition(': ')
            n0 = line.count('\0')
            if not sep: s.c.bad('write:header', ev.where, 'malformed header line %r' % line)
            elif nm == 'Content-Length':
                seen += 1
                if v != '\0': s.c.bad('write:length', ev.where, 'the Content-Length header is %r, not a plain decimal number' % v)
                else:
                    k, t = vals[vi]
                    good = k == 'd' and t.op == 'app' and t.a[0] == 'len' and canon(pieces(E, st, t.a[1])) == canon(body)
                    if not good: s.c.bad('write:length', ev.where, 'Content-Length is %s, which is not the number of bytes of the content that follows (%s)' % (show(t, 3), showp(body)))
            elif n0: s.c.bad('write:header', ev.where, 'header %r carries a value that is not known to be free of line breaks' % nm)
            vi += n0
        if seen != 1: s.c.bad('write:nolength', ev.where, 'the header block has %d Content-Length fields' % seen)
        if len(body) == 1 and body[0][0] == 'b':
            b = body[0][1]
            ok_ = b.op == 'fld' and b.a[0].op == 'as' and b.a[0].a[1] == 'Ok' and b.a[0].a[0].op == 'call' and b.a[0].a[0].a[1] in ('ser::to_string', 'ser::to_vec')
            v = b.a[0].a[0].a[2] if ok_ else None
            if v is not None: v = E.val(st, v)
            if not ok_ or v.op != 'agg': s.c.bad('write:body', ev.where, 'the content is %s, not the JSON text of the message envelope' % show(b, 3)); return
            s.c.ob('envelope', ev.where)
            fs = dict(v.a[2])
            s.envelope = v.a[0]
            if mk('arg', 1) not in [E.val(st, x) for x in fs.values()]: s.c.bad('write:msg', ev.where, 'the envelope does not carry the message that was given')
            if const('2.0') not in [E.val(st, x) for x in fs.values()]: s.c.bad('write:version', ev.where, 'the envelope does not carry the protocol version "2.0"')
        else: s.c.bad('write:body', ev.where, 'the content is not one JSON text: %s' % showp(body))


class Envelope(Rule):
    """the derived serialiser of the envelope: entries written"""
    def __init__(s): s.entries, s.flat = set(), set()

    def event(s, kind, ev, st, E):
        if kind == 'call' and E.final:
            if ev.name in ('SerializeMap::serialize_entry', 'SerializeStruct::serialize_field') and ev.args[1].op == 'const':
                s.entries.add((ev.args[1].a[0], E.val(st, ev.args[2])))
            elif ev.name == 'Serialize::serialize' and 'FlatMapSerializer' in show(ev.args[1]): s.flat.add(E.val(st, ev.args[0], 4))
        return None


def write_framing(c):
    c.rule('frame-shape', 'on every path on which Message::write succeeds the bytes put on the stream are a CRLF header block with exactly one Content-Length, an empty line, and one JSON text; the length is the byte length of that very text')
    c.rule('no-lost-write', 'every write is complete (write_all/write_fmt), its outcome is known Ok before success is reported, and the stream is flushed after the last one')
    c.rule('envelope', 'the JSON text is the serialisation of {jsonrpc: "2.0"} merged with the message')
    P = c.program(UNITS)
    w = method(P, 'Message', 'write')
    if not w: c.missing('Message::write'); return
    r = Writer(c)
    E = c.run_engine(P, r, w)
    env = getattr(r, 'envelope', None)
    if env:
        f = next((f for i in P.impls if i.get('trait') == 'serde::ser::Serialize' and last(_strip_generics(i['self_ty'])) == env and any(x in i['self_ty'] for x in ('json_rpc',)) for it in i['items'] for f in [it['id']] if it['n'] == 'serialize'), None)
        if not f: c.missing('the serialiser of ' + env)
        else:
            en = Envelope()
            c.run_engine(P, en, f)
            c.ob('envelope serialiser', P.fns[f]['name'])
            if not any(k == 'jsonrpc' and contains(v, mk('arg', 1)) for k, v in en.entries): c.bad('envelope:jsonrpc', f, 'the envelope does not write a "jsonrpc" entry from its version field (entries: %s)' % sorted(k for k, _ in en.entries))
            if len(en.flat) != 1: c.bad('envelope:flatten', f, 'the message is not merged into the envelope object')
    c.floor('write on the stream', 1)
    c.floor('success: complete, flushed frame', 1)
    c.floor('envelope serialiser', 1)


# ---------------------------------------------------------------- reader
ALLOC = {'Vec::resize': 1, 'Vec::resize_with': 1, 'vec::from_elem': 1, 'Vec::with_capacity': 0, 'String::with_capacity': 0, 'Vec::reserve': 1, 'Vec::reserve_exact': 1, 'String::reserve': 1, 'String::reserve_exact': 1, 'slice::repeat': 1, 'str::repeat': 1}
class Reader(Rule):
    """state: (last header line read, size-defining parse seen, body read)"""
    def __init__(s, c): s.c = c
    def init(s): return (None, None)

    def is_src(s, E, st, t):
        n = 0
        while n < 6:
            n += 1
            if t is mk('arg', 1): return True
            if t.op == 'ref': t = E.read(st, t.a[0]); continue
            if t.op == 'upd': t = t.a[2]; continue
            if t.op == 'box': t = t.a[1]; continue
            return False
        return False

    def empty(s, E, st, t):
        """is the buffer value known to be empty"""
        ok_ = True
        for x in E.leaves(t):
            if x.op == 'upd' and x.a[1] in ('String::clear', 'Vec::clear'): continue
            if x.op == 'upd' and x.a[1] in ('String::truncate', 'Vec::truncate') and x.a[3] is const(0): continue
            if x.op == 'call' and x.a[1] in EMPTY: continue
            if x.op == 'app' and x.a[0] == 'default': continue
            if x.op == 'const' and x.a[0] == '': continue
            if x.op == 'agg' and x.a[0] == 'array' and not x.a[2]: continue
            ok_ = False
        return ok_

    def event(s, kind, ev, st, E):
        line, body = st.auto
        c = s.c
        if kind == 'call' and not getattr(ev, 'inlined', False) and ev.args and s.is_src(E, st, ev.args[0]):
            n = ev.name
            if n in ('BufRead::read_line', 'BufRead::read_until'):
                if E.final:
                    c.ob('header line read', ev.where)
                    if not s.empty(E, st, E.val(st, ev.args[-1])):
                        c.bad('read:append', ev.where, 'a header line is appended to a buffer that is not known to be empty: %s' % show(E.val(st, ev.args[-1]), 4))
                    if body is not None: c.bad('read:after', ev.where, 'a line is read after the content')
            elif n == 'Read::read_exact':
                if E.final: s.body(ev, st, E, line)
            elif n.startswith(('Read::', 'BufRead::')) and n not in ('Read::by_ref',):
                if E.final:
                    c.ob('stream read', ev.where)
                    c.bad('read:op:' + n, ev.where, '%s does not read an exact, declared amount of the stream' % n)
        if kind == 'ret' and ev.name in ('BufRead::read_line', 'BufRead::read_until') and s.is_src(E, st, ev.args[0]):
            return (ev.val, body)
        if kind == 'ret' and ev.name == 'Read::read_exact' and s.is_src(E, st, ev.args[0]): return (line, ev.val)
        if kind == 'call' and E.final and ev.name in ALLOC: s.alloc(ev, st, E)
        if kind == 'ret' and ev.name == 'str::parse' and 'usize' in (ev.call.rty or ''):
            if E.final: s.size(ev, st, E)
        if kind == 'return' and E.final: s.ret(ev, st, E, line, body)
        if kind in ('panic',) and E.final: c.ob('panic excluded', ev.where); c.bad('read:panic', ev.where, 'a malformed message can panic the reader (%s)' % ev.name)
        if kind == 'assertfail' and E.final:
            c.ob('arithmetic in range', ev.where)
            x = ev.cond
            if x.op == 'app' and x.a[0] == 'overflow' and s.suffix_sub(E, st, x.a[1]): return None
            c.bad('read:arith', ev.where, 'a malformed message can panic the reader: %s on %s' % (ev.msg, show(ev.cond, 3)))
        if kind == 'index' and E.final:
            c.ob('slice in range', ev.where)
            i = ev.idx
            good = False
            if i.op == 'agg' and i.a[0] == 'RangeTo' and i.a[2]:
                e = i.a[2][0][1]
                good = s.suffix_sub(E, st, e, ev.base)
            if i.op == 'agg' and i.a[0] == 'RangeFull': good = True
            if not good: c.bad('read:slice', ev.where, 'a malformed message can panic the reader: [%s] may be out of range' % show(i, 3))
        return None

    def suffix_sub(s, E, st, t, base=None):
        """len(X)-k with X known to end with an ASCII string of at least k bytes (exactly k for a slice)"""
        if t.op != 'bin' or t.a[0] != 'Sub' or t.a[2].op != 'const' or not (t.a[1].op == 'app' and t.a[1].a[0] == 'len'): return False
        X, k = t.a[1].a[1], t.a[2].a[0]
        if base is not None and X is not base: return False
        for f, v in st.facts.items():
            if v == ('in', frozenset([True])) and f.op == 'app' and f.a[0] == 'ends_with' and f.a[1] is X and f.a[2].op == 'const' and isinstance(f.a[2].a[0], str):
                if len(f.a[2].a[0]) >= k and f.a[2].a[0].isascii(): return True
        return False

    def pos(s, E, st, t, name):
        """(split base, position) of a header name/value string"""
        res = set()
        for x in E.leaves(t):
            base, p = None, None
            for y in subterms(x):
                if y.op == 'app' and y.a[0] in ('part', 'nextpart'): base, p = y.a[1], (y.a[2].a[0]); break
                if y.op == 'app' and y.a[0] == 'split_once':
                    base = y
                    p = None
                    for z in subterms(x):
                        if z.op == 'fld' and z.a[1] in ('0', '1') and z.a[0].op == 'fld' and z.a[0].a[0].op == 'as' and z.a[0].a[0].a[0] is y: p = int(z.a[1])
                    break
                if y.op == 'app' and y.a[0] == 'strip_prefix': base, p = y, 1; break
            res.add((base, p))
        return res

    def size(s, ev, st, E):
        c = s.c
        c.ob('content length parsed from its header', ev.where)
        vp = s.pos(E, st, ev.args[0], 'value')
        for base, p in vp:
            if base is None: c.bad('read:value', ev.where, 'the content length is parsed from %s, not from a header value' % show(E.val(st, ev.args[0]), 4)); continue
            if p != 1: c.bad('read:value', ev.where, 'the content length is parsed from part %s of the header line' % p)
            if base.a[0] == 'strip_prefix':
                if base.a[2] is not const('Content-Length: '): c.bad('read:name', ev.where, 'the content length is taken from a header with prefix %s' % show(base.a[2]))
                continue
            sep = base.a[-1]
            if sep.op == 'const' and str(sep.a[0]) not in (': ', ':'): c.bad('read:sep', ev.where, 'header name and value are separated by %s' % show(sep))
            if base.a[0] == 'splitn' and base.a[2] is not const(2): c.bad('read:sep', ev.where, 'header lines are split into %s parts' % show(base.a[2]))
            named = False
            for f, v in st.facts.items():
                if v != ('in', frozenset([True])) and not (v[0] == 'in' and v[1] == frozenset(['Content-Length'])): continue
                if f.op == 'bin' and f.a[0] == 'Eq': a, b = f.a[1], f.a[2]
                elif f.op == 'app' and f.a[0] == 'eq_ignore_ascii_case': a, b = f.a[1], f.a[2]
                elif v[0] == 'in' and v[1] == frozenset(['Content-Length']): a, b = f, const('Content-Length')
                else: continue
                if a.op == 'const': a, b = b, a
                if b.op == 'const' and str(b.a[0]).lower() == 'content-length' and (b.a[0] == 'Content-Length' or f.a[0] == 'eq_ignore_ascii_case'):
                    np = s.pos(E, st, a, 'name')
                    if (base, 0) in np: named = True
            if not named: c.bad('read:name', ev.where, 'a number is taken as the content length on a path where the name of its header was not found to be Content-Length')

    def alloc(s, ev, st, E):
        """an allocation of a declared size panics when it is too large, unless it was reserved, or bounded, before"""
        def declared(t): return any(x.op == 'app' and x.a[0] == 'parse' for x in subterms(t))
        n = E.val(st, ev.args[ALLOC[ev.name]], 4)
        ns = [x for x in E.leaves(n) if declared(x)]
        if not ns: return
        s.c.ob('allocation of the declared size', ev.where)
        for x in ns:
            good = False
            for f, v in st.facts.items():
                if f.op == 'bin' and f.a[0] == 'Lt' and v == ('in', frozenset([True])) and f.a[1] is x and not declared(f.a[2]): good = True
                if f.op == 'bin' and f.a[0] == 'Lt' and v == ('in', frozenset([False])) and f.a[2] is x and not declared(f.a[1]): good = True
                if f.op == 'var' or f.op == 'call':
                    t = f.a[0] if f.op == 'var' else f
                    if t.op == 'call' and str(t.a[1]).split('::')[-1] in ('try_reserve', 'try_reserve_exact') and v == ('in', frozenset(['Ok'])) and any(y is x or y is n or x in list(E.leaves(y)) for y in t.a[2:]): good = True
            if not good: s.c.bad('read:alloc', ev.where, 'a declared length that cannot be allocated panics the reader (%s of the parsed Content-Length)' % ev.name)

    def capacity(s, E, st, v):
        """the size of the buffer value v, or None"""
        if v.op == 'upd' and v.a[1] == 'Vec::resize': return v.a[3]
        if v.op == 'call' and v.a[1] == 'vec::from_elem': return v.a[3]
        if v.op == 'upd' and v.a[1] in ('Vec::reserve',): return s.capacity(E, st, v.a[2])
        return None

    def body(s, ev, st, E, line):
        c = s.c
        c.ob('content read', ev.where)
        v = E.val(st, ev.args[1], 4)
        n = s.capacity(E, st, v)
        if n is None: c.bad('read:size', ev.where, 'the content is read into %s, whose size is not the declared one' % show(v, 3))
        else:
            for x in E.leaves(n):
                if not (x.op == 'fld' and x.a[0].op == 'as' and x.a[0].a[1] == 'Ok' and x.a[0].a[0].op == 'app' and x.a[0].a[0].a[0] == 'parse'):
                    c.bad('read:size', ev.where, 'the number of content bytes is %s, which is not the parsed Content-Length' % show(x, 4))
        # only after an empty header line
        blank = False
        if line is not None:
            def mentions(t):
                # the buffer the last line was read into
                return any(y.op == 'upd' and y.a[1] == line.a[1] and y.a[0] == line.a[0] for y in subterms(t))
            for f, fv in st.facts.items():
                if fv != ('in', frozenset([True])): 
                    if not (f.op == 'app' and f.a[0] == 'len' and fv == ('in', frozenset([0]))): continue
                if f.op == 'app' and f.a[0] == 'len' and mentions(f.a[1]): blank = True
                if f.op == 'bin' and f.a[0] == 'Eq' and f.a[2].op == 'const' and f.a[2].a[0] in (0, '', '\r\n', 2) and mentions(f.a[1]):
                    blank = f.a[2].a[0] != 2 or any(g.op == 'app' and g.a[0] == 'ends_with' for g in st.facts)
                    if blank: break
            for f, fv in st.facts.items():
                if fv in (('in', frozenset([0])),) and f.op == 'app' and f.a[0] == 'len' and mentions(f): blank = True
                if fv in (('in', frozenset([''])), ('in', frozenset(['\r\n']))) and mentions(f): blank = True
        if not blank: c.bad('read:blank', ev.where, 'the content is read on a path where the last header line was not found to be empty')

    def ret(s, ev, st, E, line, body):
        c = s.c
        for x in E.leaves(ev.val):
            if is_agg(x, 'Err'): c.ob('error outcome', ev.where); continue
            if not is_agg(x, 'Ok'):
                if x.op == 'call' and x.a[1] == 'FromResidual::from_residual': continue
                c.bad('read:ret', ev.where, 'the outcome %s cannot be resolved' % show(x, 4)); continue
            for y in E.leaves(x.a[2][0][1]):
                if is_agg(y, 'None'):
                    c.ob('end of stream outcome', ev.where)
                    n = pay(line, 'Ok') if line is not None else None
                    zero = n is not None and (st.facts.get(n) == ('in', frozenset([0])) or E.fact_bool(st, mk('bin', 'Eq', n, const(0))) is True)
                    if not zero: c.bad('read:none', ev.where, 'end of stream is reported on a path where the stream was not at its end')
                elif is_agg(y, 'Some'):
                    c.ob('message outcome', ev.where)
                    v = y.a[2][0][1]
                    for z in E.leaves(v): s.decoded(ev, st, E, z, body)
                else: c.bad('read:ret', ev.where, 'the outcome %s cannot be resolved' % show(y, 4))

    def decoded(s, ev, st, E, z, body):
        c = s.c
        if not (z.op == 'fld' and z.a[0].op == 'as' and z.a[0].a[1] == 'Ok' and z.a[0].a[0].op == 'call' and z.a[0].a[0].a[1] in ('de::from_str', 'de::from_slice')):
            c.bad('read:decode', ev.where, 'the message is %s, not the decoded content' % show(z, 4)); return
        src = z.a[0].a[0].a[2]
        def chk(t, d=0):
            """the text is the (strictly decoded) content buffer"""
            t = E.val(st, t, 5)
            for x in E.leaves(t):
                x = E.val(st, x, 5)
                if x.op == 'fld' and x.a[0].op == 'as' and d < 4:
                    yy = x.a[0].a[0]
                    if yy.op == 'app' and yy.a[0] == 'from_utf8' and x.a[0].a[1] == 'Ok': yield from chk(yy.a[1], d + 1); continue
                    ls = list(E.leaves(yy))
                    if ls != [yy]:
                        for l in ls:
                            q = project(project(l, ('v', x.a[0].a[1])), ('f', x.a[1]))
                            if q.op != 'bot': yield from chk(q, d + 1)
                        continue
                if x.op == 'upd' and x.a[1] == 'Read::read_exact': yield True; continue
                yield x
        for r in chk(src):
            c.ob('decoded text is the content', ev.where)
            if r is not True: c.bad('read:text', ev.where, 'the decoded text is %s, not exactly the content that was read' % show(r, 4))
        if body is None or E.fact_var(st, body) not in (frozenset(['Ok']),): c.bad('read:short', ev.where, 'a message is delivered although the content was not read completely')


def read_framing(c):
    c.rule('declared-length', 'the content is read with read_exact into a buffer whose size is, on every path, the number parsed from the value of the Content-Length header of this header block')
    c.rule('header-block', 'each header line is read into an empty buffer; the content is read only after an empty line; nothing else touches the stream')
    c.rule('outcomes', 'Ok(None) only at end of stream; Ok(Some(m)) only with m decoded from exactly the content; no feasible panic')
    P = c.program(UNITS)
    r = method(P, 'Message', 'read')
    if not r: c.missing('Message::read'); return
    c.run_engine(P, Reader(c), r)
    for k in ('header line read', 'content read', 'content length parsed from its header', 'end of stream outcome', 'message outcome', 'decoded text is the content'): c.floor(k, 1)


# ---------------------------------------------------------------- message shapes
class SerRule(Rule):
    """collects, for a derived serialiser, the conditions under which each key is written.  state: keys written so far"""
    def __init__(s): s.ret, s.first = [], None
    def init(s): return ()

    def event(s, kind, ev, st, E):
        if kind == 'call' and ev.name in ('SerializeStruct::serialize_field', 'SerializeMap::serialize_entry', 'SerializeStructVariant::serialize_field') and ev.args[1].op == 'const':
            return st.auto + ((ev.args[1].a[0], E.val(st, ev.args[2])),)
        if kind == 'call' and ev.name in ('Serializer::serialize_newtype_variant', 'Serializer::serialize_struct_variant', 'Serializer::serialize_tuple_variant', 'Serializer::serialize_unit_variant'):
            return st.auto + (('#variant', UNIT),)
        if kind == 'call' and ev.name in ('SerializeStruct::end', 'SerializeMap::end') and E.final:
            s.ret.append((st.auto, dict(st.facts), st))
        return None


class DeRule(Rule):
    def __init__(s): s.missing = set()
    def event(s, kind, ev, st, E):
        if kind == 'call' and E.final and ev.name.endswith('missing_field') and ev.args and ev.args[0].op == 'const':
            s.missing.add((ev.args[0].a[0], ev.call.rty))
        return None


class KeyRule(Rule):
    def __init__(s): s.keys, s.unknown = set(), False
    def event(s, kind, ev, st, E):
        if kind == 'call' and E.final:
            if ev.name == 'Error::unknown_field': s.unknown = True
            if ev.name == 'PartialEq::eq':
                for a in ev.args:
                    if a.op == 'const' and isinstance(a.a[0], str): s.keys.add(a.a[0])
        return None


class UntaggedRule(Rule):
    """the order in which the alternatives of an untagged enum are tried. state: types tried"""
    def __init__(s): s.res = {}
    def init(s): return ()
    def stop(s, fid): return True

    def event(s, kind, ev, st, E):
        if kind == 'call' and ev.name == 'Deserialize::deserialize' and not getattr(ev, 'inlined', False):
            m = re.match(r'^core::result::Result<(.*), .*>$', ev.call.rty)
            t = last(_strip_generics(m.group(1))) if m else ev.call.rty
            return st.auto + (t,) if t not in st.auto else None
        if kind == 'return' and E.final:
            for x in E.leaves(ev.val):
                if is_agg(x, 'Ok'):
                    for y in E.leaves(x.a[2][0][1]):
                        if is_agg(y) and y.a[1]: s.res.setdefault(y.a[1], set()).add(st.auto)
        return None


def derived(P, ty, trait, fname):
    for i in P.impls:
        if i.get('trait') == trait and last(_strip_generics(i['self_ty'])) == ty and 'json_rpc' in i['self_ty']:
            for it in i['items']:
                if it['n'] == fname: return it['id']


def shape_of(c, P, ty):
    """(always written, conditionally written {key: field term}, required, known keys, rejects unknown)"""
    f = derived(P, ty, 'serde::ser::Serialize', 'serialize')
    if not f: c.missing('the serialiser of ' + ty); return None
    r = SerRule()
    E = c.run_engine(P, r, f)
    if not r.ret: c.missing('the object written by the serialiser of ' + ty); return None
    sets = [frozenset(k for k, _ in a) for a, _, _ in r.ret]
    always = frozenset.intersection(*sets); some_ = frozenset.union(*sets)
    cond = {}
    for k in some_ - always:
        # the written condition must be exactly "present": Some / not null
        okc = True
        for a, facts, st in r.ret:
            w = [v for kk, v in a if kk == k]
            fld = next((v for a2, _, _ in r.ret for kk, v in a2 if kk == k), None)
            fv = E.fact_var(st, fld)
            isnull = facts.get(app('is_null', fld))
            if w and not (fv == frozenset(['Some']) or isnull == ('in', frozenset([False]))): okc = False
            if not w and not (fv == frozenset(['None']) or isnull == ('in', frozenset([True]))): okc = False
        cond[k] = okc
    fieldmap = {}
    for a, _, _ in r.ret:
        for k, v in a: fieldmap[k] = v
    # decoder
    vm = ke = None
    for fid, fn in P.fns.items():
        st_ = fn.get('self_ty') or ''
        if 'json_rpc' in st_ and re.search(r'for ([\w:]+::)?%s>::deserialize::__Visitor' % ty, st_) and fid.endswith('visit_map'): vm = fid
        if 'json_rpc' in st_ and re.search(r'for ([\w:]+::)?%s>::deserialize::__FieldVisitor' % ty, st_) and fid.endswith('visit_str'): ke = fid
    if not vm or not ke: c.missing('the decoder of ' + ty); return None
    d = DeRule(); c.run_engine(P, d, vm, maxpart=24)
    req = {k for k, t in d.missing if 'Option<' not in t.split(',')[0]}
    k = KeyRule(); c.run_engine(P, k, ke)
    c.ob('shape of ' + ty, P.fns[f]['name'])
    return always, cond, req, k.keys, k.unknown, fieldmap


SPEC = {'Request': ({'id', 'method'}, {'params'}), 'Response': ({'id'}, {'result', 'error'}), 'Notification': ({'method'}, {'params'}), 'ResponseError': ({'code', 'message'}, {'data'})}


def shapes(c):
    c.rule('written keys', 'the derived serialisers write exactly the JSON-RPC members; the optional ones exactly when present')
    c.rule('decoded kinds', 'in the order in which the alternatives of Message are tried, no alternative accepts what the serialiser of a later one can write, and each accepts everything its own serialiser writes')
    P = c.program(UNITS)
    sh = {}
    for ty, (a, o) in SPEC.items():
        x = shape_of(c, P, ty)
        if x is None: return
        sh[ty] = x
        always, cond, req, keys, unk, fm = x
        if always != a: c.bad('shape:always:' + ty, ty, 'a serialised %s always carries the members %s; JSON-RPC wants %s' % (ty, sorted(always), sorted(a)))
        if set(cond) != o: c.bad('shape:opt:' + ty, ty, 'the optional members of a serialised %s are %s; JSON-RPC wants %s' % (ty, sorted(cond), sorted(o)))
        for k, good in cond.items():
            if not good: c.bad('shape:cond:%s.%s' % (ty, k), ty, 'the member "%s" of %s is not written exactly when it is present' % (k, ty))
        for k in always | set(cond):
            v = fm.get(k)
            if v is not None and not (v.op == 'fld' and v.a[1] == k): c.bad('shape:field:%s.%s' % (ty, k), ty, 'the member "%s" of %s is written from %s' % (k, ty, show(v)))
        if not (always | set(cond)) <= keys: c.bad('shape:keys:' + ty, ty, 'the decoder of %s knows the members %s but the serialiser writes %s' % (ty, sorted(keys), sorted(always | set(cond))))
        if not req <= always: c.bad('shape:req:' + ty, ty, 'the decoder of %s requires %s, which its serialiser does not always write' % (ty, sorted(req - always)))
        if unk: c.bad('shape:unknown:' + ty, ty, 'the decoder of %s rejects unknown members (such as "jsonrpc")' % ty)
    f = derived(P, 'Message', 'serde::de::Deserialize', 'deserialize')
    if not f: c.missing('the decoder of Message'); return
    u = UntaggedRule()
    c.run_engine(P, u, f)
    order = sorted(u.res, key=lambda v: min(len(t) for t in u.res[v]))
    c.ob('alternatives of Message: ' + ' < '.join(order), P.fns[f]['name'])
    if set(order) != {'Request', 'Response', 'Notification'}: c.bad('untagged:set', f, 'Message decodes to the alternatives %s' % order); return
    for i, A in enumerate(order):
        for B in order[i + 1:]:
            c.ob('%s is not accepted as %s' % (B, A), 'Message')
            wrote = sh[B][0] | set(sh[B][1])
            if sh[A][2] <= wrote: c.bad('untagged:%s<%s' % (A, B), 'Message', 'a %s is decoded as a %s: %s is tried first and requires only %s' % (B, A, A, sorted(sh[A][2])))
    # serialiser of the enum writes no tag
    f = derived(P, 'Message', 'serde::ser::Serialize', 'serialize')
    r = SerRule(); E = c.run_engine(P, r, f, max_depth=1)
    c.ob('Message is written without a tag', f)
    for fid in [f]:
        for b in P.fns[fid]['blocks']:
            t = b['t']
            if t['k'] == 'call' and 'fn' in t['fn'].get('c', {}) and short(t['fn']['c']['fn']).endswith('_variant'): c.bad('tag', loc_str(t['s']), 'Message is written with a variant tag')
    ids(c, P)
    codes(c, P)


class IdRule(Rule):
    def __init__(s): s.calls = set()
    def event(s, kind, ev, st, E):
        if kind == 'call' and E.final and not getattr(ev, 'inlined', False) and ev.name.startswith(('Serializer::', 'Serialize::')): s.calls.add((ev.name, ev.args[1] if ev.name.startswith('Serializer::') and len(ev.args) > 1 else ev.args[0], str(E.fact_var(st, E.val(st, mk('arg', 1))))))
        return None


def ids(c, P):
    f = derived(P, 'RequestId', 'serde::ser::Serialize', 'serialize')
    if not f: c.missing('the serialiser of RequestId'); return
    r = IdRule(); E = c.run_engine(P, r, f)
    c.ob('request id is written as the bare number or string', P.fns[f]['name'])
    for n, a, _ in r.calls:
        if n not in ('Serialize::serialize', 'Serializer::serialize_i32', 'Serializer::serialize_str', 'Serializer::serialize_i64'): c.bad('id:ser', f, 'a request id is written with %s instead of as a bare number or string' % n)


STD = {'ParseError': -32700, 'InvalidRequest': -32600, 'MethodNotFound': -32601, 'InvalidParams': -32602, 'InternalError': -32603, 'ServerNotInitialized': -32002, 'UnknownErrorCode': -32001,
       'RequestFailed': -32803, 'ServerCancelled': -32802, 'ContentModified': -32801, 'RequestCancelled': -32800}


def codes(c, P):
    a = next((a for a in P.adts.values() if last(a['name']) == 'ErrorCode' and 'json_rpc' in a['name']), None)
    if not a: c.missing('the ErrorCode enum'); return
    for v in a['variants']:
        n = v['name']
        c.ob('error code value', n)
        d = int(v.get('discr', 0))
        d = d - 2 ** 128 if d >= 2 ** 127 else d
        for w in (32, 64):
            if d >= 2 ** (w - 1) and d < 2 ** w: d -= 2 ** w
        if n in STD and STD[n] != d: c.bad('code:' + n, n, 'ErrorCode::%s is %d; the protocol defines %d' % (n, d, STD[n]))


class CtorRule(Rule):
    def __init__(s, c, want, what): s.c, s.want, s.what = c, want, what

    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            for x in E.leaves(ev.val):
                s.c.ob('constructed message', ev.where)
                fs = dict(x.a[2]) if x.op == 'agg' else {}
                for k, f in s.want.items():
                    if k not in fs: s.c.bad('ctor:%s.%s' % (s.what, k), ev.where, '%s builds %s' % (s.what, show(x, 4))); continue
                    if not all(f(E, st, y) for y in E.leaves(fs[k])): s.c.bad('ctor:%s.%s' % (s.what, k), ev.where, '%s sets %s to %s' % (s.what, k, show(fs[k], 4)))
        return None


def _json(n):
    def f(E, st, t):
        return t.op == 'fld' and t.a[0].op == 'as' and t.a[0].a[1] == 'Ok' and t.a[0].a[0].op == 'call' and t.a[0].a[0].a[1] == 'value::to_value' and E.val(st, t.a[0].a[0].a[2]) is mk('arg', n)
    return f


def _some(g): return lambda E, st, t: is_agg(t, 'Some') and all(g(E, st, y) for y in E.leaves(t.a[2][0][1]))
def _arg(n): return lambda E, st, t: E.val(st, t) is mk('arg', n) or (t.op == 'app' and t.a[0] == 'from' and t.a[1] is mk('arg', n))
def _none(E, st, t): return is_agg(t, 'None')


class Made(Rule):
    pass


def exclusive(c):
    c.rule('exactly one outcome', 'every construction of a Response in the workspace sets exactly one of result and error')
    c.rule('constructors', 'Request::new, Response::new, Response::new_error and Notification::new put each argument in its own member')
    P = c.program(['analyzer_abstractions', 'analyzer_core', 'analyzer_host', 'p4_analyzer', 'p4analyzer', 'lsif_p4', 'p4_analyzer_wasm', 'tester'])
    W = {('Request', 'new'): {'id': _arg(1), 'method': _arg(2), 'params': _json(3)},
         ('Response', 'new'): {'id': _arg(1), 'result': _some(_json(2)), 'error': _none},
         ('Response', 'new_error'): {'id': _arg(1), 'result': _none,
                                     'error': _some(lambda E, st, t: t.op == 'agg' and _arg(2)(E, st, dict(t.a[2]).get('code', UNIT)) and _arg(3)(E, st, dict(t.a[2]).get('message', UNIT)))},
         ('Notification', 'new'): {'method': _arg(1), 'params': _json(2)}}
    for (ty, n), w in W.items():
        f = method(P, ty, n)
        if not f or 'json_rpc' not in f: c.missing('%s::%s' % (ty, n)); continue
        c.run_engine(P, CtorRule(c, w, '%s::%s' % (ty, n)), f)
    adt = next((a['id'] for a in P.adts.values() if a['name'].endswith('json_rpc::message::Response')), None)
    if adt is None: c.missing('the Response type'); return
    for f in P.fns.values():
        for b in f['blocks']:
            for s in b['s']:
                if s['k'] == '=' and s['r']['k'] == 'agg' and s['r'].get('ak') == 'adt' and (s['r'].get('adt') or '').endswith('json_rpc::message::Response'):
                    macs = s['s'].get('m') or []
                    if any('derive' in str(m) or m in ('Serialize', 'Deserialize', 'Clone', 'Debug') for m in macs) or 'deserialize' in f['id'] or f['id'].endswith('::clone'): continue
                    c.ob('construction of a Response', loc_str(s['s']))
                    c._resp = getattr(c, '_resp', set()) | {f['id']}
    for fid in sorted(getattr(c, '_resp', ())):
        class Site(Rule):
            see_make = True
            def event(s, kind, ev, st, E):
                if kind == 'make' and E.final and ev.adt == 'Response':
                    fs = dict(ev.val.a[2])
                    def tag(t): return {('S' if is_agg(y, 'Some') else 'N' if is_agg(y, 'None') else '?') for y in E.leaves(t)}
                    r, e = tag(fs.get('result', UNIT)), tag(fs.get('error', UNIT))
                    if not ((r == {'S'} and e == {'N'}) or (r == {'N'} and e == {'S'})):
                        c.bad('resp:' + ev.fn, ev.where, 'a Response is built with result=%s and error=%s; exactly one of them must be present' % (show(fs.get('result', UNIT), 4), show(fs.get('error', UNIT), 4)))
        c.run_engine(P, Site(), fid)
    c.floor('construction of a Response', 2)
    c.floor('constructed message', 4)
