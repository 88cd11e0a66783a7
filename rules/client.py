"""What the server tells its client: abilities, progress and traces."""
from engine import *
from requests import Base
from jsonrpc import method
from server import handlers, derived, strip, is_agg, last
from dispatch import registered, fields, adt
from files import Names

UNITS = ['analyzer_host', 'analyzer_core']

# capability -> messages whose handling it announces
NEEDS = {
    'text_document_sync.open_close': ('DidOpenTextDocument', 'DidCloseTextDocument'),
    'text_document_sync.change': ('DidChangeTextDocument',),
    'text_document_sync.save': ('DidSaveTextDocument',),
    'text_document_sync.will_save': ('WillSaveTextDocument',),
    'text_document_sync.will_save_wait_until': ('WillSaveWaitUntil',),
    'hover_provider': ('HoverRequest',),
    'completion_provider': ('Completion',),
    'completion_provider.resolve_provider': ('ResolveCompletionItem',),
    'signature_help_provider': ('SignatureHelpRequest',),
    'declaration_provider': ('GotoDeclaration',),
    'definition_provider': ('GotoDefinition',),
    'type_definition_provider': ('GotoTypeDefinition',),
    'implementation_provider': ('GotoImplementation',),
    'references_provider': ('References',),
    'document_highlight_provider': ('DocumentHighlightRequest',),
    'document_symbol_provider': ('DocumentSymbolRequest',),
    'workspace_symbol_provider': ('WorkspaceSymbol',),
    'code_action_provider': ('CodeActionRequest',),
    'code_lens_provider': ('CodeLensRequest',),
    'document_formatting_provider': ('Formatting',),
    'document_range_formatting_provider': ('RangeFormatting',),
    'document_on_type_formatting_provider': ('OnTypeFormatting',),
    'rename_provider': ('Rename',),
    'document_link_provider': ('DocumentLinkRequest',),
    'color_provider': ('DocumentColor', 'ColorPresentationRequest'),
    'folding_range_provider': ('FoldingRangeRequest',),
    'selection_range_provider': ('SelectionRangeRequest',),
    'execute_command_provider': ('ExecuteCommand',),
    'call_hierarchy_provider': ('CallHierarchyPrepare', 'CallHierarchyIncomingCalls', 'CallHierarchyOutgoingCalls'),
    'semantic_tokens_provider': ('SemanticTokensFullRequest',),
    'moniker_provider': ('MonikerRequest',),
    'linked_editing_range_provider': ('LinkedEditingRange',),
    'inlay_hint_provider': ('InlayHintRequest',),
    'workspace.workspace_folders.change_notifications': ('DidChangeWorkspaceFolders',),
}
ANNOUNCED_BY = {m: k for k, ms in NEEDS.items() for m in ms}
REGISTERED = {'workspace/didChangeWatchedFiles': 'DidChangeWatchedFiles', 'workspace/didChangeConfiguration': 'DidChangeConfiguration'}
ALWAYS = ('Initialize', 'Initialized', 'Shutdown', 'Exit', 'SetTrace', 'Cancel', 'WorkDoneProgressCancel')


def truth(t):
    t = strip(t)
    if t is TRUE or t.op == 'const' and t.a[0] is True: return True
    if t is FALSE or t.op == 'const' and t.a[0] is False: return False
    return None


def known(E, st, t):
    """a truth value as the facts of the path decide it"""
    b = E.fact_bool(st, t) if t.op in ('isvar', 'un', 'bin') else None
    return t if b is None else TRUE if b else FALSE


def on(t):
    """is an ability announced? None: it depends"""
    t = strip(t)
    if t.op == 'phi': return None
    if t.op == 'fld' and strip(t.a[0]).op == 'call' and strip(t.a[0]).a[1] == 'Default::default': return False
    if t.op == 'call' and t.a[1] == 'Default::default': return False
    if is_agg(t, 'None'): return False
    if is_agg(t, 'Some'): return on(t.a[2][0][1])
    if t.op == 'agg':
        if t.a[1] in ('Simple', 'Left', 'Supported', 'Kind') and len(t.a[2]) == 1: return on(t.a[2][0][1])
        return True
    if t.op == 'const':
        if isinstance(t.a[0], bool): return t.a[0]
        if isinstance(t.a[0], int): return t.a[0] != 0
        return True
    return truth(t)


def inside(t):
    t = strip(t)
    while t.op == 'agg' and (t.a[1] in ('Some', 'Options', 'SaveOptions', 'ServerCapabilities') and len(t.a[2]) == 1): t = strip(t.a[2][0][1])
    return t


def at(t, path):
    """the value of a member of the capabilities; UNIT if it is not given"""
    for p in path.split('.'):
        t = inside(t)
        if t.op != 'agg': return t if t.op == 'phi' else None
        t = fields(t).get(p)
        if t is None: return None
    return t


class Facts:
    """what is known about the workspace folders and the abilities of the client"""
    def __init__(s, P):
        a = adt(P, 'State')
        for a in P.adts.values():
            if last(a['name']) == 'State' and 'lsp_impl' in a['name']: break
        s.member = next((f['n'] for v in a['variants'] for f in v['fields'] if 'WorkspaceManager' in f['t']), None)
    def folders(s, st, t=None):
        """do the facts say that there are workspace folders? None: they do not tell"""
        for k, (io, vs) in st.facts.items():
            if io != 'in' or len(vs) != 1: continue
            b = k.a[0] if k.op == 'var' else k
            if not any(x.op == 'fld' and x.a[1] == s.member for x in subterms(b)): continue
            v = next(iter(vs))
            if k.op == 'var':
                if strip(b).op == 'fld' and strip(b).a[1] == s.member: continue
                if v in ('Some', 'None'): return v == 'Some'
            elif k.op in ('call', 'app') and any(str(x).endswith(('is_empty', 'is_none')) for x in k.a[:2]): return not v
            elif isinstance(v, bool): return v
        return None


def partition(st, E, names):
    return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if any(x.op == 'fld' and x.a[1] in names for x in subterms(k))))


class Init(Base):
    """the answer to "initialize" """
    def __init__(s, c, P, F): Base.__init__(s, c, P); s.F, s.out, s.prog, s.trace = F, [], 0, 0
    def init(s): return frozenset()
    def stop(s, fid): return fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid
    def partition(s, st, E): return partition(st, E, ('capabilities', 'has_workspaces', 'trace', s.F.member))
    def event(s, kind, ev, st, E):
        name, c = getattr(ev, 'name', ''), s.c
        if kind == 'call' and name == 'TraceValueAccessor::set' and any(x.op == 'fld' and x.a[1] == 'trace' for x in subterms(E.val(st, ev.args[1], 6))): st.auto = st.auto | {'trace'}
        if not E.final: return st.auto
        if kind == 'call' and name == 'ProgressManager::new' and len(ev.args) == 2:
            s.prog += 1
            c.ob('use of progress decided', ev.where)
            for v in E.leaves(E.val(st, ev.args[1], 6)):
                w = strip(v)
                said = s.said(st, ('window', 'work_done_progress'))
                w, pol = E.norm(w)
                w = mk('const', bool(w.a[0]) == pol) if w.op == 'const' else w if pol else mk('un', 'Not', w)
                if w.op == 'bin' and w.a[0] == 'Eq':
                    for x, y in (w.a[1:], w.a[:0:-1]):
                        if is_agg(y, 'Some') and truth(y.a[2][0][1]) is True: w = strip(x); break
                if w.op == 'fld' or w.op == 'as':
                    ok = any(x.op == 'fld' and x.a[1] == 'work_done_progress' for x in subterms(w))
                else: ok = truth(w) is not None and said is not None and truth(w) == said
                if not ok: c.bad('progress', ev.where, 'progress is %s when the client %s' % ('used' if truth(w) else 'not used' if truth(w) is False else show(w, 3), {True: 'supports it', False: 'does not support it', None: 'may or may not support it'}[said]))
        if kind == 'call' and name == 'WorkspaceManager::new':
            c.ob('workspace folders taken over', ev.where)
            if not any(x.op == 'fld' and x.a[1] == 'workspace_folders' for a in ev.args for x in subterms(E.val(st, a, 6))): c.bad('folders', ev.where, 'the workspace folders of the client are not the ones that are used')
        if kind == 'return':
            for v in E.leaves(ev.val):
                v = E.val(st, v, 9)
                if not is_agg(v, 'Ok'):
                    if is_agg(v, 'Err'):
                        c.ob('refusal of a client', ev.where)
                        if s.F.folders(st) is False: c.bad('refused', ev.where, 'a client without workspace folders is refused')
                        elif s.watches(st) is True: c.bad('refused', ev.where, 'a client that can watch files is refused')
                    continue
                c.ob('answer to initialize', ev.where)
                if s.F.folders(st) is not False and s.watches(st) is not True:
                    c.bad('unwatched', ev.where, 'a client with workspace folders that cannot watch files is accepted: changes on disk would go unnoticed')
                s.out.append((ev.where, v.a[2][0][1], s.F.folders(st)))
        return st.auto
    def said(s, st, names):
        """has the client set an optional boolean ability?"""
        deep = None
        for k, (io, vs) in st.facts.items():
            b = k.a[0] if k.op == 'var' else k
            b0 = strip(b)
            if io != 'in': continue
            if k.op == 'var' and b0.op == 'fld' and b0.a[1] in names and vs == frozenset(['None']): return False
            if k.op != 'var' and any(x.op == 'fld' and x.a[1] == names[-1] for x in subterms(b)) and len(vs) == 1: deep = next(iter(vs))
        return deep if isinstance(deep, bool) else None
    def watches(s, st):
        for k, (io, vs) in st.facts.items():
            if k.op == 'var' and io == 'in' and len(vs) == 1:
                b = strip(k.a[0])
                if b.op == 'fld' and b.a[1] == 'did_change_watched_files': return vs == frozenset(['Some'])
        for k, (io, vs) in st.facts.items():
            if k.op == 'var' and io == 'in' and vs == frozenset(['None']):
                b = strip(k.a[0])
                if b.op == 'fld' and b.a[1] == 'workspace': return False
        return None


class Reg(Base):
    """the "initialized" notification: registration for changes of files, then indexing. state: messages registered for"""
    def __init__(s, c, P, F): Base.__init__(s, c, P); s.F, s.methods, s.globs, s.index = F, {}, [], []
    def init(s): return frozenset()
    def stop(s, fid): return fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid
    def partition(s, st, E): return partition(st, E, ('has_workspaces', s.F.member, 'request_manager'))
    def event(s, kind, ev, st, E):
        name, c, au = getattr(ev, 'name', ''), s.c, st.auto
        if kind == 'call' and name == 'RequestManager::send' and any('RegisterCapability' in str(a) and 'Unregister' not in str(a) for a in (ev.fr or {}).get('args') or ()):
            v = E.val(st, ev.args[1], 10)
            regs = [x for x in subterms(v) if x.op == 'agg' and last(x.a[0]) == 'Registration']
            if E.final:
                c.ob('registration', ev.where)
                if not regs: c.bad('registration', ev.where, 'what is registered cannot be determined: ' + show(v, 3))
            for r in regs:
                f = fields(r)
                m = f.get('method')
                m = m.a[0] if m is not None and m.op == 'const' else None
                au = au | {m}
                if not E.final: continue
                s.methods[m] = ev.where
                if m is None: c.bad('registration', ev.where, 'the method that is registered cannot be determined')
                if m == 'workspace/didChangeWatchedFiles':
                    ws = [x for x in subterms(f['register_options']) if x.op == 'agg' and last(x.a[0]) == 'FileSystemWatcher']
                    if not ws: c.bad('watch:none', ev.where, 'no files are watched')
                    for w in ws:
                        g, k = fields(w).get('glob_pattern'), fields(w).get('kind')
                        s.globs.append((ev.where, g))
                        k0 = strip(k.a[2][0][1]) if is_agg(k, 'Some') else None
                        if not is_agg(k, 'None') and not (k0 is not None and (k0.op == 'const' and k0.a[0] == 7 or k0.op == 'call' and k0.a[1] == 'WatchKind::all')): c.bad('watch:kind', ev.where, 'not every kind of change is watched: ' + show(k, 3))
        if kind == 'ret' and name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] == 'RequestManager::send' and au: au = au | {('answered', ev.val)}
        if kind == 'call' and name.endswith('::enumerate_folder') and E.final and len(ev.args) > 2:
            c.ob('indexing', ev.where)
            s.index.append((ev.where, E.val(st, ev.args[2], 6)))
            if not s.ok(st, E): c.bad('order', ev.where, 'workspace folders are indexed before the client has agreed to watch them: changes in between go unnoticed')
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                if is_agg(E.val(st, v, 3), 'Err'): continue
                c.ob('end of the initialisation', ev.where)
                if s.F.folders(st) is not False and not s.ok(st, E): c.bad('unregistered', ev.where, 'the server is initialised with workspace folders, but is not told of changes in them (facts: %s)' % s.F.folders(st))
        return au
    def ok(s, st, E):
        if 'workspace/didChangeWatchedFiles' not in st.auto: return False
        ans = [x[1] for x in st.auto if isinstance(x, tuple)]
        return any(E.fact_var(st, a) == frozenset(['Ok']) for a in ans)


class Reads(Base):
    """does a handler use a member of its message?"""
    def __init__(s, c, P, n): Base.__init__(s, c, P); s.n, s.hit = n, False
    def init(s): return 0
    def stop(s, fid): return fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid
    def event(s, kind, ev, st, E):
        if any(k.op == 'var' and strip(k.a[0]).op == 'fld' and strip(k.a[0]).a[1] == s.n for k in st.facts): s.hit = True


class Mgr(Base):
    """WorkspaceManager::new: its truth members say whether there are workspace folders"""
    def __init__(s, c, P, names): Base.__init__(s, c, P); s.names = names
    def init(s): return 0
    def partition(s, st, E): return (E.tags(st), frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and k.a[0].op == 'arg'))
    def event(s, kind, ev, st, E):
        if kind != 'return' or not E.final: return
        for v in E.leaves(ev.val):
            f = {k: known(E, st, x) for k, x in fields(E.val(st, v, 4)).items()}
            has = None
            for k, (io, vs) in st.facts.items():
                if k.op == 'var' and k.a[0].op == 'arg' and io == 'in' and len(vs) == 1 and vs <= {'Some', 'None'}: has = vs == frozenset(['Some'])
            for n in s.names:
                if n not in f: continue
                s.c.ob('folders noted', ev.where)
                if truth(f[n]) is None or has is None or truth(f[n]) != has: s.c.bad('noted', ev.where, '%s is %s when the client %s workspace folders' % (n, show(f[n], 3), {True: 'has', False: 'has no', None: 'may have'}[has]))


def units_of_columns(c, P):
    """how analyzer_core counts the characters of a position"""
    out = set()
    for i, f in P.fns.items():
        if f['unit'] != 'analyzer_core' or 'lsp_file' not in f['span']['f']: continue
        for b in f['blocks']:
            t = b['t']
            fr = ((t.get('fn') or {}).get('c') or {}).get('fn') if t['k'] == 'call' else None
            n = (fr or {}).get('name') or ''
            if n.endswith(('len_utf16', 'encode_utf16')): out.add('utf-16')
            elif n.endswith(('::chars', '::char_indices')): out.add('characters')
    return out


def capabilities(c):
    c.rule('capabilities', 'an ability is announced exactly if the messages it announces are handled once the server is initialised')
    c.rule('features', 'files are watched before they are indexed, and features of the client are used exactly if the client announced them')
    P = c.program(UNITS)
    F = Facts(P)
    reg = registered(c, P)
    have = reg.get('ActiveInitialized', {})
    if not have: c.missing('the handlers of the initialised server'); return
    hs = {h.msg: h for h in handlers(c, P)}
    if 'Initialize' not in hs or 'Initialized' not in hs: c.missing('the handlers of initialize and initialized'); return
    r = Init(c, P, F)
    c.run_engine(P, r, hs['Initialize'].body)
    for m, w in have.items(): c.ob('message handled', '%s %s' % (w, m))
    seen = {}
    for where, res, folders in r.out:
        caps = fields(res).get('capabilities')
        if caps is None or strip(caps).op != 'agg': c.bad('answer', where, 'the capabilities that are announced cannot be determined: ' + show(res, 3)); continue
        for k, ms in NEEDS.items():
            v = at(caps, k)
            o = False if v is None else on(v)
            if o is not False:
                c.ob('ability announced', '%s %s' % (where, k))
                for m in ms:
                    if m not in have: c.bad('unhandled:' + k, where, 'the server announces %s but does not handle %s' % (k, m))
            seen.setdefault(k, []).append((where, o))
        if folders is True:
            c.ob('workspace folders announced', where)
            v = at(caps, 'workspace.workspace_folders.supported')
            if v is None or on(v) is False: c.bad('folders:unsupported', where, 'the workspace folders of the client are used, but not announced to be supported')
        v = at(caps, 'text_document_sync.save')
        if v is not None and on(v) is True and 'DidSaveTextDocument' in hs:
            q = Reads(c, P, 'text'); c.run_engine(P, q, hs['DidSaveTextDocument'].body)
            x = at(caps, 'text_document_sync.save.include_text')
            if q.hit and (x is None or on(x) is not True): c.bad('save:text', where, 'the text of a saved document is used but not asked for')
    for m, w in have.items():
        k = ANNOUNCED_BY.get(m)
        if k and k in seen and m not in ('ResolveCompletionItem',):
            for where, o in seen[k]:
                if o is not True: c.bad('unannounced:' + k, where, 'the server handles %s (%s) but does not announce %s' % (m, w, k))
    q = Reg(c, P, F)
    c.run_engine(P, q, hs['Initialized'].body)
    for m, w in q.methods.items():
        if m and REGISTERED.get(m) not in have: c.bad('unhandled:' + m, w, 'the server registers for %s but does not handle it' % m)
    if 'DidChangeWatchedFiles' not in have: c.bad('unhandled:watched', hs['Initialized'].where, 'changes of files are not handled')
    for w, g in q.globs:
        for w2, g2 in q.index:
            c.ob('files watched are the ones indexed', w)
            if strip(g) is not strip(g2): c.bad('watch:files', w, 'the files that are watched (%s) are not the ones that are indexed (%s, %s)' % (show(g, 3), show(g2, 3), w2))
    a = adt(P, 'WorkspaceManager')
    new = method(P, 'WorkspaceManager', 'new')
    if a is None or new is None: c.missing('WorkspaceManager::new')
    else:
        ns = [f['n'] for v in a['variants'] for f in v['fields'] if f['t'] == 'bool']
        if ns: c.run_engine(P, Mgr(c, P, ns), new)
    u = units_of_columns(c, P)
    for where, res, folders in r.out[:1]:
        c.ob('unit of positions', where)
        if u != {'utf-16'} and on(at(fields(res)['capabilities'], 'position_encoding') or FALSE) is not True: c.bad('encoding', where, 'positions are counted in %s, but nothing but UTF-16 is agreed with the client' % ' and '.join(sorted(u)))
    for k, n in (('message handled', 8), ('ability announced', 6), ('answer to initialize', 1), ('use of progress decided', 1), ('workspace folders taken over', 1), ('registration', 1), ('indexing', 1), ('end of the initialisation', 1)): c.floor(k, n)


# ---------------------------------------------------------------- progress and traces
SENDS = ('RequestManager::send', 'RequestManager::send_notification')
SELF = mk('arg', 1)
ARG = lambda i: mk('arg', i)


def bools(P, ty):
    a = adt(P, ty)
    return [f['n'] for v in a['variants'] for f in v['fields'] if f['t'] == 'bool'] if a else []


class Notify(Base):
    """one step of a progress. state: what has been sent, as (kind, token, awaited answer)"""
    def __init__(s, c, P, want, flag): Base.__init__(s, c, P); s.want, s.flag = want, mk('fld', SELF, flag)
    def init(s): return ()
    def stop(s, fid): return '::lsp::request::' in fid
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k is s.flag or k.op == 'var'))
    def sent(s, E, st, ev):
        types = [last(str(a)) for a in (ev.fr or {}).get('args') or ()]
        v = E.val(st, ev.args[1], 8)
        tok = next((fields(x)['token'] for x in subterms(v) if x.op == 'agg' and 'token' in fields(x)), None)
        if 'WorkDoneProgressCreate' in types: return 'Create', tok, v
        if 'Progress' in types: return next((x.a[1] for x in subterms(v) if x.op == 'agg' and last(x.a[0]) == 'WorkDoneProgress'), None), tok, v
        return ','.join(types), tok, v
    def event(s, kind, ev, st, E):
        name, c, au = getattr(ev, 'name', ''), s.c, st.auto
        if kind == 'call' and name in SENDS:
            k, tok, v = s.sent(E, st, ev)
            if E.final:
                c.ob('message about progress', ev.where)
                if E.fact_bool(st, s.flag) is not True: c.bad('unsupported', ev.where, '%s is sent to a client that may not support progress' % k)
                i = len(au)
                if i >= len(s.want) or s.want[i] != k: c.bad('step', ev.where, 'sends %s where %s is due' % (k, s.want[i] if i < len(s.want) else 'nothing'))
                if au and not s.answered(st, E, au[-1]): c.bad('order', ev.where, '%s is sent although %s has not been answered or has failed' % (k, au[-1][0]))
                if strip(ev.args[0]) is not strip(ev.args[0]) or not contains(E.val(st, ev.args[0], 6), SELF): c.bad('manager', ev.where, 'not sent by the request manager of this progress')
                if tok is None or (s.want[0] != 'Create' and not (strip(tok).op == 'fld' and strip(tok).a[0] is SELF)) or (au and tok is not au[0][1]): c.bad('token', ev.where, '%s carries the token %s' % (k, show(tok, 3) if tok is not None else 'nothing'))
                if ev.args[1] is not None and k in ('Begin', 'Report', 'End') and not contains(v, ARG(2)) and E.fact_var(st, ARG(2)) != frozenset(['None']): c.bad('text', ev.where, '%s does not carry the text it was given' % k)
            au = au + ((k, tok, None),)
        if kind == 'ret' and name == 'await' and ev.args[0].op == 'call' and ev.args[0].a[1] in SENDS and au: au = au[:-1] + (au[-1][:2] + (ev.val,),)
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val):
                v = E.val(st, v, 6)
                if is_agg(v, 'Err'): continue
                c.ob('end of a step of progress', ev.where)
                sup = E.fact_bool(st, s.flag)
                if sup is not False and (tuple(x[0] for x in au) != s.want or not all(s.answered(st, E, x, v) for x in au)): c.bad('unsent', ev.where, 'succeeds having sent %s, not %s' % ([x[0] for x in au if s.answered(st, E, x)], list(s.want)))
                p = next((x for x in subterms(v) if x.op == 'agg' and last(x.a[0]) == 'Progress'), None)
                if s.want[0] == 'Create':
                    if p is None: c.bad('result', ev.where, 'the progress that is returned cannot be determined: ' + show(v, 3)); continue
                    for n, x in fields(p).items():
                        if n in s.flags:
                            if x is not s.flag and (sup is None or truth(x) != sup): c.bad('result', ev.where, 'the progress that is returned has %s = %s' % (n, show(x, 3)))
                        elif n == s.tokname and au and x is not au[0][1]: c.bad('result', ev.where, 'the progress that is returned has another token: ' + show(x, 3))
        return au
    def answered(s, st, E, x, v=None):
        if x[2] is None: return False
        if E.fact_var(st, x[2]) == frozenset(['Ok']): return True
        return v is not None and (contains(v, x[2]) or v is x[2])


class Index(Base):
    """WorkspaceManager::index. state: 'begun', 'ended', 'pending' (a folder that is not indexed yet)"""
    def __init__(s, c, P): Base.__init__(s, c, P); s.begun = None
    def init(s): return frozenset()
    def stop(s, fid): return s.mod(fid) or '::lsp::request::' in fid
    def mod(s, fid): return any(fid == m or fid.startswith(m + '::') for m in s.opaque)
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and any(x.op == 'call' and str(x.a[1]) == 'ProgressManager::begin' for x in subterms(k)) or k.op == 'fld'))
    def event(s, kind, ev, st, E):
        name, c, au = getattr(ev, 'name', ''), s.c, st.auto
        if kind == 'call' and name == 'ProgressManager::begin':
            if E.final:
                c.ob('progress begun', ev.where)
                if 'begun' in au: c.bad('begin:twice', ev.where, 'progress is begun twice with the same token')
            au = au | {'begun'}
        if kind == 'call' and name in ('Progress::end', 'Progress::report') and E.final and 'ended' in au: c.bad('after:end', ev.where, '%s of a progress that has ended' % name.split('::')[1])
        if kind == 'call' and name == 'Progress::end': au = au | {'ended'}
        if kind == 'call' and name == 'Workspace::index':
            if E.final:
                c.ob('folder indexed', ev.where)
                if 'ended' in au: c.bad('index:late', ev.where, 'a folder is indexed after the progress has ended')
            au = au - {'pending'}
        if kind in ('next', 'exhausted') and s.over(ev):
            some = [str(o[0] if isinstance(o, tuple) else o) for o in (ev.it.a[2] if len(ev.it.a) > 2 else ())]
            if E.final and any(o in ('take', 'skip', 'filter', 'filter_map', 'take_while', 'skip_while', 'step_by', 'map_while') for o in some): c.bad('index:some', ev.where, 'not all workspace folders are indexed: ' + show(ev.it, 3))
            # asking for the next folder happens before it is known that there is one
            if E.final and kind == 'next' and 'pending' in au: c.bad('index:skipped', ev.where, 'a workspace folder is passed over')
            au = (au - {'pending'}) | ({'pending'} if kind == 'next' else {'all'})
        if kind == 'return' and E.final:
            c.ob('end of indexing', ev.where)
            got = next((f for k, f in st.facts.items() if k.op == 'var' and f == ('in', frozenset(['Err'])) and any(x.op == 'call' and str(x.a[1]) == 'ProgressManager::begin' for x in subterms(k))), None)
            if 'begun' in au and 'ended' not in au and got is None: c.bad('unended', ev.where, 'the progress of the indexing is not ended: the client shows it for ever')
            no = any(k.op == 'fld' and f == ('in', frozenset([False])) and strip(k.a[0]) is SELF for k, f in st.facts.items())
            if 'all' not in au and not no: c.bad('index:partial', ev.where, 'indexing ends before all workspace folders are indexed')
        return au
    def over(s, ev):
        return any(x.op == 'fld' and x.a[1] in s.folders for x in subterms(ev.it))


class Layer(Base):
    """the tracing layer"""
    def __init__(s, c, P, cell): Base.__init__(s, c, P); s.cell, s.sends = cell, 0
    def init(s): return frozenset()
    def level(s, st, E):
        for k, f in st.facts.items():
            if k.op == 'var' and any(x.op == 'fld' and x.a[1] == s.cell for x in subterms(k)) and k.a[0].op == 'fld': yield f
    def can(s, st, E, v):
        """may the level be v?"""
        return all((v in vs) == (io == 'in') for io, vs in s.level(st, E))
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var'))
    def event(s, kind, ev, st, E):
        name, c, au = getattr(ev, 'name', ''), s.c, st.auto
        if kind == 'call' and name in ('Sender::send_blocking', 'Sender::try_send', 'Sender::send'):
            au = au | {'sent'}
            if E.final:
                s.sends += 1
                c.ob('trace sent', ev.where)
                if s.can(st, E, 'Off'): c.bad('trace:off', ev.where, 'a trace is sent to a client that has turned traces off')
                if name == 'Sender::send': c.bad('trace:lost', ev.where, 'the message is never sent: the future is not awaited')
                v = E.val(st, ev.args[1], 10)
                p = next((x for x in subterms(v) if x.op == 'agg' and last(x.a[0]) == 'LogTraceParams'), None)
                m = next((fields(x).get('method') for x in subterms(v) if x.op == 'agg' and last(x.a[0]) == 'Notification' and 'method' in fields(x)), None)
                if m is None or m.op != 'const' or m.a[0] != '$/logTrace' or p is None: c.bad('trace:message', ev.where, 'what is sent is not a trace: ' + show(v, 3)); return au
                f = fields(p)
                if strip(f['message']).op != 'fld' or strip(f['message']).a[1] not in s.texts: c.bad('trace:text', ev.where, 'the message of the trace is ' + show(f['message'], 3))
                for x in E.leaves(f['verbose']):
                    x = E.val(st, x, 6)
                    some = is_agg(x, 'Some')
                    if some and (s.can(st, E, 'Messages') or s.can(st, E, 'Off')) or is_agg(x, 'None') and s.can(st, E, 'Verbose'):
                        c.bad('trace:verbose', ev.where, 'details are %s at a level that may be %s' % ('sent' if some else 'left out', ', '.join(l for l in ('Off', 'Messages', 'Verbose') if s.can(st, E, l))))
                    if some and (strip(x.a[2][0][1]).op != 'fld' or strip(x.a[2][0][1]).a[1] not in s.details): c.bad('trace:details', ev.where, 'the details of the trace are ' + show(x, 3))
        if kind == 'return' and E.final:
            c.ob('event traced', ev.where)
            if 'sent' not in au and (s.can(st, E, 'Messages') or s.can(st, E, 'Verbose')): c.bad('trace:dropped', ev.where, 'an event is not sent although the client wants traces')
        return au


class Visit(Base):
    """record_debug: the text of the event goes into one member, everything else into the other"""
    def __init__(s, c, P): Base.__init__(s, c, P); s.texts, s.details = set(), set()
    def init(s): return frozenset()
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'bin'))
    def event(s, kind, ev, st, E):
        name, au = getattr(ev, 'name', ''), st.auto
        if kind == 'call' and name in ('Write::write_fmt', 'Write::write_str', 'String::push_str'):
            t = strip(ev.args[0])
            m = t.a[0][1][-1][1] if t.op == 'ref' and t.a[0][1] else t.a[1] if t.op == 'fld' else None
            eq = s.is_text(st)
            if E.final:
                s.c.ob('part of a trace recorded', ev.where)
                if eq is None or m is None: s.c.bad('trace:part', ev.where, 'a part of an event is recorded in %s whether or not it is its text' % m)
                elif m is not None: (s.texts if eq else s.details).add(m)
                if not contains(E.val(st, ev.args[1], 8), ARG(3)): s.c.bad('trace:part', ev.where, 'a part of an event is recorded without its value')
            au = au | {'w'}
        if kind == 'return' and E.final and 'w' not in au: s.c.bad('trace:part', ev.where, 'a part of an event is not recorded')
        return au
    def is_text(s, st):
        for k, f in st.facts.items():
            if k.op == 'bin' and k.a[0] == 'Eq' and f[0] == 'in' and len(f[1]) == 1 and any(x.op == 'const' and x.a[0] == 'message' for x in k.a[1:]): return next(iter(f[1]))
            if f[0] in ('in', 'ni') and f[1] == frozenset(['message']) and contains(k, ARG(2)): return f[0] == 'in'
        return None


class Level(Base):
    """a message that sets the level of traces. state: 'set'"""
    def __init__(s, c, P, member): Base.__init__(s, c, P); s.member, s.cell = member, None
    def init(s): return frozenset()
    def stop(s, fid): return fid.startswith('analyzer_core') or 'futures_extensions' in fid or '::lsp::request::' in fid or '::lsp::workspace::' in fid or '::lsp::progress::' in fid
    def partition(s, st, E): return (E.tags(st), st.auto, frozenset((k.id, f) for k, f in st.facts.items() if k.op == 'var' and k.a[0].op == 'fld' and k.a[0].a[1] in ('trace', 'trace_value')))
    def event(s, kind, ev, st, E):
        name, au = getattr(ev, 'name', ''), st.auto
        if kind == 'call' and name == 'TraceValueAccessor::set':
            v = strip(E.val(st, ev.args[1], 6))
            while v.op == 'as' or v.op == 'fld' and v.a[1] == '0': v = strip(v.a[0])
            if E.final:
                s.c.ob('level of traces set', ev.where)
                if not (v.op == 'fld' and v.a[1] == s.member and any(x.op == 'arg' for x in subterms(v))): s.c.bad('level:value', ev.where, 'the level of traces becomes %s, not the one of the message' % show(v, 3))
                if 'set' in au: s.c.bad('level:twice', ev.where, 'the level is set twice')
            au = au | {'set'}
        if kind == 'return' and E.final:
            no = any(k.op == 'var' and k.a[0].op == 'fld' and k.a[0].a[1] in ('trace', 'trace_value') and f == ('in', frozenset(['None'])) for k, f in st.facts.items())
            if 'set' not in au and not no: s.c.bad('level:kept', ev.where, 'the message leaves the level of traces as it was')
            s.c.ob('end of a message that sets the level', ev.where)
        return au


class Cell(Base):
    """TraceValueAccessor::set stores what it is given"""
    def init(s): return frozenset()
    def event(s, kind, ev, st, E):
        au = st.auto
        if kind == 'store' and E.final:
            s.c.ob('level stored', ev.where)
            if strip(ev.val) is not ARG(2): s.c.bad('level:store', ev.where, 'what is stored is not the level that was given: ' + show(ev.val, 3))
        if kind == 'store': au = au | {'s'}
        if kind == 'return' and E.final and 's' not in au: s.c.bad('level:store', ev.where, 'the level that was given is not stored')
        return au


class New(Base):
    def __init__(s, c, P): Base.__init__(s, c, P); s.vals = []
    def init(s): return 0
    def event(s, kind, ev, st, E):
        if kind == 'return' and E.final:
            for v in E.leaves(ev.val): s.vals.append((ev.where, E.val(st, v, 8)))


def tells(c):
    c.rule('progress', 'a progress is created, begun, reported and ended in this order under one token, and only for a client that supports it')
    c.rule('traces', 'events are sent to the client as traces at the level that the client has set')
    P = c.program(['analyzer_host', 'analyzer_core'])
    flags = {t: bools(P, t) for t in ('ProgressManager', 'Progress')}
    if any(len(v) != 1 for v in flags.values()): c.missing('the member of ProgressManager and Progress that tells whether the client supports progress'); return
    tok = next((f['n'] for v in adt(P, 'Progress')['variants'] for f in v['fields'] if 'NumberOrString' in f['t'] or 'Token' in f['t']), None)
    for ty, n, want in (('ProgressManager', 'begin', ('Create', 'Begin')), ('Progress', 'report', ('Report',)), ('Progress', 'end', ('End',))):
        f = method(P, ty, n)
        if f is None: c.missing('%s::%s' % (ty, n)); continue
        r = Notify(c, P, want, flags[ty][0]); r.flags, r.tokname = flags['Progress'], tok
        c.run_engine(P, r, f + '::{closure#0}')
    f = method(P, 'WorkspaceManager', 'index')
    a = adt(P, 'WorkspaceManager')
    if f is None or a is None: c.missing('WorkspaceManager::index')
    else:
        r = Index(c, P)
        r.opaque = [m for m in (method(P, t, n) for t, n in (('Workspace', 'index'), ('ProgressManager', 'begin'), ('Progress', 'report'), ('Progress', 'end'))) if m]
        r.folders = [x['n'] for v in a['variants'] for x in v['fields'] if re.search(r'(Map|Vec)<.*Workspace', x['t'])]
        c.run_engine(P, r, f + '::{closure#0}')
    # traces
    a = adt(P, 'LspTracingLayer')
    cell = next((x['n'] for v in (a or {'variants': ()})['variants'] for x in v['fields'] if 'TraceValue' in x['t']), None)
    on_event = next((i for i, f in P.fns.items() if i.endswith('::on_event') and f['unit'] == 'analyzer_host'), None)
    rec = next((i for i, f in P.fns.items() if i.endswith('::record_debug') and f['unit'] == 'analyzer_host'), None)
    new, acc, setter = method(P, 'LspTracingLayer', 'new'), method(P, 'LspTracingLayer', 'trace_value'), method(P, 'TraceValueAccessor', 'set')
    if None in (cell, on_event, rec, new, acc, setter): c.missing('the tracing layer'); return
    v = Visit(c, P); c.run_engine(P, v, rec)
    if v.texts & v.details: c.bad('trace:part', rec, 'the text of an event and its details are recorded in one place')
    r = Layer(c, P, cell); r.texts, r.details = v.texts, v.details
    c.run_engine(P, r, on_event)
    n = New(c, P); c.run_engine(P, n, new)
    for where, x in n.vals:
        c.ob('initial level', where)
        if not any(y.op == 'agg' and y.a[1] == 'Off' for y in subterms(fields(x).get(cell, UNIT))): c.bad('level:initial', where, 'a client that has not asked for traces gets them: ' + show(fields(x).get(cell, UNIT), 3))
        if not any(ch is ARG(1) for y in fields(x).values() for ch in subterms(y)): c.bad('trace:channel', where, 'traces are not sent to the channel of the client')
    n = New(c, P); c.run_engine(P, n, acc)
    for where, x in n.vals:
        c.ob('shared level', where)
        if not any(y.op == 'fld' and y.a[1] == cell and y.a[0] is SELF for y in map(strip, fields(x).values())): c.bad('level:shared', where, 'the level that can be set is not the one of the layer')
    c.run_engine(P, Cell(c, P), setter)
    hs = {h.msg: h for h in handlers(c, P)}
    for m, member in (('SetTrace', 'value'), ('Initialize', 'trace')):
        if m not in hs: c.missing('the handler of ' + m); continue
        c.run_engine(P, Level(c, P, member), hs[m].body)
    for i, f in P.fns.items():
        if f['unit'] != 'analyzer_host': continue
        for b in f['blocks']:
            t = b['t']
            fr = ((t.get('fn') or {}).get('c') or {}).get('fn') if t['k'] == 'call' else None
            if fr and str(fr.get('name')).startswith('async_channel::') and 'bounded' in str(fr['name']) and 'Message' in str(fr.get('args')):
                c.ob('channel of messages', loc_str(t['s']))
                if not str(fr['name']).endswith('unbounded'): c.bad('channel', loc_str(t['s']), 'a channel of messages that can be full: a trace that is sent while it is full blocks the server for ever')
    for k, m in (('message about progress', 4), ('end of a step of progress', 3), ('folder indexed', 1), ('progress begun', 1), ('trace sent', 1), ('event traced', 2), ('level of traces set', 2), ('part of a trace recorded', 2), ('initial level', 1), ('shared level', 1), ('level stored', 1)): c.floor(k, m)
