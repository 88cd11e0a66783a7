"""Loading the facts and basic views of a MIR body."""
import json, re, os


def pstr(p, fn=None):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e == '*': s = '(*%s)' % s
        elif e == 'cast': pass
        elif 'f' in e and 'n' in e: s += '.' + e['n']
        elif 'v' in e: s = '(%s as %s)' % (s, e['v'])
        elif 'i' in e: s += '[_%d]' % e['i']
        elif 'ci' in e: s += '[%s%d]' % ('-' if e['fe'] else '', e['ci'])
        elif 'sub' in e: s += '[%s]' % e['sub']
    return s


def ostr(o):
    if 'cp' in o: return pstr(o['cp'])
    if 'mv' in o: return 'move ' + pstr(o['mv'])
    c = o['c']
    if 'fn' in c: return fnname(c['fn'])
    if 'int' in c: return str(c['int'])
    if 'str' in c: return json.dumps(c['str'])
    return c.get('disp', '?')


def fnname(f):
    n = f.get('rname') or f['name']
    return n


def rstr(r):
    k = r['k']
    if k == 'use': return ostr(r['o'])
    if k == 'ref': return ('&mut ' if r['mut'] else '&') + pstr(r['p'])
    if k == 'rawptr': return '&raw ' + pstr(r['p'])
    if k == 'bin': return '%s(%s, %s)' % (r['op'], ostr(r['a']), ostr(r['b']))
    if k == 'un': return '%s(%s)' % (r['op'], ostr(r['a']))
    if k == 'cast': return '%s as %s [%s]' % (ostr(r['o']), r['t'], r['ck'])
    if k == 'discr': return 'discr(%s)' % pstr(r['p'])
    if k == 'repeat': return '[%s; %s]' % (ostr(r['o']), r['n'])
    if k == 'agg':
        n = r['ak'] if r['ak'] != 'adt' else r['adt'] + '::' + r['v']
        if r['ak'] in ('closure', 'coroutine'): n = r['ak'] + ' ' + r['id']
        return '%s{%s}' % (n, ', '.join((r['fields'][i] + ': ' if i < len(r.get('fields', [])) else '') + ostr(o) for i, o in enumerate(r['ops'])))
    return k


def tstr(t):
    k = t['k']
    if k == 'call': return '%s = %s(%s) -> bb%s' % (pstr(t['d']), ostr(t['fn']), ', '.join(ostr(a) for a in t['args']), t['t'])
    if k == 'switch': return 'switch %s {%s, else bb%s}' % (ostr(t['o']), ', '.join('%s: bb%s' % (a, b) for a, b in t['cases']), t['otherwise'])
    if k == 'drop': return 'drop %s -> bb%s' % (pstr(t['p']), t['t'])
    if k == 'assert': return 'assert %s == %s [%s] -> bb%s' % (ostr(t['o']), t['exp'], t['msg'], t['t'])
    if k == 'goto': return 'goto bb%s' % t['t']
    if k == 'yield': return '%s = yield -> bb%s' % (pstr(t['d']), t['t'])
    return k


def dump(fn):
    print('== %s [%s] %s' % (fn['name'], fn['kind'], fn['id']))
    for i, l in enumerate(fn['locals']): print('   _%d: %s' % (i, l['t']))
    for v in fn['vars']: print('   var %s = %s' % (v['n'], pstr(v['p'])))
    for i, b in enumerate(fn['blocks']):
        if b.get('cleanup'): continue
        print('  bb%d:' % i)
        for s in b['s']:
            if s['k'] == '=': print('     %s = %s   @%s' % (pstr(s['p']), rstr(s['r']), s['s']['l']))
        print('     %s   @%s' % (tstr(b['t']), b['t']['s']['l']))


class Program:
    def __init__(self, paths):
        self.fns, self.adts, self.impls, self.traits = {}, {}, [], {}
        self.crates = {}
        self.tainted, self.errors = {}, {}
        for u, p in paths.items():
            n = 0; end = None
            for line in open(p):
                r = json.loads(line)
                k = r['rec']
                if k == 'fn': self.fns[r['id']] = r; n += 1; r['unit'] = u
                elif k == 'adt': self.adts[r['name']] = r
                elif k == 'impl': self.impls.append(r)
                elif k == 'trait': self.traits[r['name']] = r
                elif k == 'end': end = r
                elif k == 'tainted': self.tainted[r['id']] = r
            if os.path.exists(p[:-6] + '.errors'): self.errors[u] = open(p[:-6] + '.errors').read()
            assert end is not None and end['bodies'] == n, 'truncated facts for ' + u
            self.crates[u] = n


if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(__file__))
    import extract
    P = Program(extract.extract([sys.argv[1]]))
    for f in P.fns.values():
        if re.search(sys.argv[2], f['name']) or re.search(sys.argv[2], f['id']): dump(f)
