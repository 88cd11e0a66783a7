#!/usr/bin/env python3
"""debugging aid: print the events of the engine in the final pass.  trace.py UNIT ENTRY-REGEX [STOP-REGEX]"""
import re, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/rules']
import check, engine
from engine import show, Rule
c = check.Check('X'); P = c.program([sys.argv[1]])
ids = [f for f in P.fns if re.search(sys.argv[2], f)]
stop = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None


class R(Rule):
    def init(s): return 0
    def stop(s, fid): return bool(stop and stop.search(fid))
    def event(s, k, ev, st, E):
        if not E.final or k in ('deref', 'enter', 'leave', 'drop', 'call') and (k != 'call' or ev.name != '<x>'): return None
        d = ''
        if hasattr(ev, 'args'): d += ' ' + ', '.join(show(E.val(st, a), 5)[:110] for a in ev.args)
        for n in ('val', 'fut'):
            if hasattr(ev, n): d += ' %s=%s' % (n, show(getattr(ev, n), 3)[:110])
        if hasattr(ev, 'loc') and ev.loc: d += ' loc=' + engine.showloc(ev.loc, 4)[:110]
        print('%-8s %-22s %s%s' % (k, ev.where.split('/')[-1], getattr(ev, 'name', ''), d))
        if k in ('return',): print('    facts', [(show(a, 4)[:80], f[0], set(f[1])) for a, f in st.facts.items()][:12])
        return None


for i in ids:
    print('##', i)
    E = c.run_engine(P, R(), i)
    print('steps', E.steps, 'inlined', len(E.inlined), 'overflow', E.overflow)
