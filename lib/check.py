"""Common runner of the checks: facts, obligations, violations, known findings, evidence."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import extract as X, mir, engine


def callees(P, f):
    out = set(g for g in P.tainted if g.startswith(f + '::'))
    for b in P.fns[f]['blocks'] if f in P.fns else ():
        t = b['t']
        fr = ((t.get('fn') or {}).get('c') or {}).get('fn') if t['k'] == 'call' else None
        if fr: out |= {x for x in (fr.get('rid'), fr['id']) if x}
    return out | {g + '::{closure#0}' for g in out}


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.viol, self.known = [], []
        self.obl, self.sites = {}, []
        self.notes = []
        self.fns = set()
        self.t0 = time.time()
        self.steps = 0
        self.rules = []

    def rule(self, name, text): self.rules.append({'rule': name, 'text': text})

    def ob(self, kind, where=None, n=1):
        """one obligation examined"""
        self.obl[kind] = self.obl.get(kind, 0) + n
        if where and len(self.sites) < 400: self.sites.append('%s @ %s' % (kind, where))

    def bad(self, key, where, msg):
        """key: stable, without line numbers"""
        for v in self.viol:
            if v['key'] == key and v['where'] == where: return
        self.viol.append({'key': key, 'where': where, 'msg': msg})

    def floor(self, kind, n, msg=''):
        if self.obl.get(kind, 0) < n:
            self.bad('floor:' + kind, '-', 'only %d instance(s) of "%s" found, at least %d expected: the construct this rule decides is missing %s' % (self.obl.get(kind, 0), kind, n, msg))

    def missing(self, what):
        self.bad('missing:' + what, '-', 'cannot find %s in the current source; the rule has nothing to hold on to' % what)

    def program(self, units):
        paths = X.extract(units)
        p = mir.Program(paths)
        self.units = dict(p.crates)
        self.broken = p.tainted
        for u, t in p.errors.items():
            self.notes.append('%s has compile errors; the bodies without errors were analysed: %s' % (u, t[:1500]))
            print('note: the crate %s does not type-check; %d bodies are left out' % (u, len(p.tainted)))
        return p

    def run_engine(self, prog, rule, entry, **kw):
        E = engine.Engine(prog, rule, entry, **kw).run()
        self.steps += E.steps
        self.fns.add(entry); self.fns |= E.inlined
        if prog.tainted:
            for f in {entry} | E.inlined:
                for g in callees(prog, f) & set(prog.tainted):
                    self.bad('build:' + prog.tainted[g]['name'], '%s:%d' % (prog.tainted[g]['span']['f'], prog.tainted[g]['span']['l']), 'a function this rule has to follow does not type-check:\n' + '\n'.join('\n'.join(prog.errors.values()).splitlines()[:30]))
        if E.overflow: self.bad('overflow:' + entry, entry, 'the analysis did not converge within its bound on this function')
        return E

    def finish(self):
        kf = []
        p = os.path.join(V, 'known_findings.txt')
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if line.startswith('finding: property=%s ' % self.pid):
                    kf.append(line.split(' key=', 1)[1].split(' :: ')[0])
        new = []
        for v in self.viol:
            (self.known if v['key'] in kf else new).append(v)
        tier = os.environ.get('VERIF_TIER', 'quick')
        EV = os.environ.get('P4_EVIDENCE') or os.path.join(V, 'evidence')
        os.makedirs(EV, exist_ok=True)
        total = sum(self.obl.values())
        cov = {'explanation': 'static analysis of the type-checked MIR of /repo\'s current tree; rules: ' + '; '.join(r['text'] for r in self.rules),
               'units_analysed': getattr(self, 'units', {}), 'functions_analysed': sorted(self.fns)[:300], 'obligations': total,
               'discharged': total if not self.viol else max(0, total - len(self.viol)), 'obligations_by_kind': self.obl, 'sites': self.sites[:200],
               'rules': self.rules, 'dataflow_steps': self.steps, 'violations': new, 'known_findings': self.known, 'notes': self.notes}
        ev = {'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2)}
        json.dump(ev, open(os.path.join(EV, self.pid + '.json'), 'w'), indent=1)
        seen = set()
        for v in self.known:
            if v['key'] in seen: continue
            seen.add(v['key'])
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.pid, v['key'], v['msg']))
        rp = os.path.join(EV, self.pid + '.violations.json')
        if new:
            json.dump({'property': self.pid, 'violations': new, 'rerun': './check ' + self.pid}, open(rp, 'w'), indent=1)
            for v in new: print('  %s: %s [%s]' % (v['where'], v['msg'], v['key']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if os.path.exists(rp): os.remove(rp)
        print('%s: held; %d obligations in %d functions, %d dataflow steps, %.1f s' % (self.pid, total, len(self.fns), self.steps, time.time() - self.t0))
        for k, n in sorted(self.obl.items()): print('   %-60s %d' % (k, n))
        return 0


def run(pid, fn):
    c = Check(pid)
    try:
        fn(c)
    except X.BuildError as e:
        c.bad('build:' + e.unit, 'crate ' + e.unit, 'does not type-check:\n' + '\n'.join(e.text.splitlines()[:30]))
    except KeyError as e:
        # a function the rule starts from has no body because it does not type-check
        t = getattr(c, 'broken', {}).get(e.args[0] if e.args else None)
        if t is None: raise
        c.bad('build:' + t['name'], '%s:%d' % (t['span']['f'], t['span']['l']), 'a function this rule starts from does not type-check')
    return c.finish()
