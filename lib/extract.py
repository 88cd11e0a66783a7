"""Runs the fact extractor on the crates of /repo's working tree.  Results are cached by content hash."""
import hashlib, json, os, shutil, subprocess, sys, tempfile, fcntl

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, 'build')
REPO = os.environ.get('P4_REPO', '/repo')

# unit -> (crate dir, root file, crate name, crate type, third-party externs, workspace externs)
UNITS = {
    'analyzer_abstractions': ('analyzer-abstractions', 'src/lib.rs', 'rlib',
        'async_channel async_rwlock async_trait cancellation lsp_types tracing thiserror event_listener futures serde serde_json', ''),
    'analyzer_core': ('analyzer-core', 'src/lib.rs', 'rlib',
        'anyhow itertools lazy_static logos nom parking_lot regex salsa', ''),
    'analyzer_host': ('analyzer-host', 'src/lib.rs', 'rlib',
        'async_channel async_rwlock cancellation dyn_clonable dyn_clone itertools serde serde_json thiserror tracing_subscriber',
        'analyzer_abstractions analyzer_core'),
    'p4_analyzer': ('p4-analyzer', 'src/lib.rs', 'rlib',
        'xflags tokio thiserror cancellation async_channel serde serde_json ctrlc tracing_appender queues async_std glob',
        'analyzer_abstractions analyzer_host'),
    'p4analyzer': ('p4-analyzer', 'src/main.rs', 'bin',
        'xflags tokio thiserror cancellation async_channel serde serde_json ctrlc tracing_appender queues async_std glob',
        'analyzer_abstractions analyzer_host p4_analyzer'),
    'lsif_p4': ('lsif-p4', 'src/main.rs', 'bin',
        'xflags lsp_types serde serde_json cancellation tokio queues', 'analyzer_host p4_analyzer'),
    'p4_analyzer_wasm': ('p4-analyzer-wasm', 'src/lib.rs', 'rlib',
        'cancellation async_trait async_channel serde serde_json js_sys wasm_bindgen wasm_bindgen_futures futures console_error_panic_hook',
        'analyzer_abstractions analyzer_host'),
    'tester': ('tester', 'src/lib.rs', 'rlib',
        'lazy_static async_channel async_std serde_json queues', 'p4_analyzer analyzer_host analyzer_abstractions'),
}


class BuildError(Exception):
    def __init__(self, unit, text):
        super().__init__(unit)
        self.unit, self.text = unit, text


def closure(units):
    out = []
    def go(u):
        if u in out: return
        for d in UNITS[u][4].split(): go(d)
        out.append(u)
    for u in units: go(u)
    return out


def tree_hash(units):
    h = hashlib.sha256()
    for p in ['lib/extract.py']: h.update(open(os.path.join(V, p), 'rb').read())
    h.update(open(os.path.join(B, 'stamp'), 'rb').read())
    h.update(REPO.encode())
    for u in units:
        d = os.path.join(REPO, 'crates', UNITS[u][0])
        for root, dirs, files in os.walk(d):
            dirs[:] = sorted(x for x in dirs if x not in ('target', 'node_modules'))
            for f in sorted(files):
                p = os.path.join(root, f)
                if f.endswith(('.rs', '.toml')):
                    h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def setup():
    r = subprocess.run([os.path.join(V, 'tools/setup.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:]); sys.exit(3)


def extract(units):
    """-> {unit: path of facts}; raises BuildError when a crate does not type-check."""
    setup()
    units = closure(units)
    os.makedirs(os.path.join(B, 'facts'), exist_ok=True)
    key = tree_hash(units)
    out = os.path.join(B, 'facts', key)
    with open(os.path.join(B, 'facts', '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(out, 'done')):
            if os.path.exists(out): shutil.rmtree(out)
            # keep the cache small
            old = sorted((os.path.join(B, 'facts', x) for x in os.listdir(os.path.join(B, 'facts')) if not x.startswith('.')), key=os.path.getmtime)
            for x in old[:-12]: shutil.rmtree(x, ignore_errors=True)
            os.makedirs(out)
            ext = json.load(open(os.path.join(B, 'externs.json')))
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True).stdout.strip()
            for u in units:
                d, rootf, ctype, deps, wdeps = UNITS[u]
                cd = os.path.join(REPO, 'crates', d)
                args = [os.path.join(B, 'p4facts'), '--crate-name', u, '--edition=2021', os.path.join(cd, rootf),
                        '--crate-type', ctype, '--emit=metadata', '--cap-lints', 'allow', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on',
                        '--sysroot', sysroot, '--out-dir', out, '-L', 'dependency=' + os.path.join(B, 'deps/debug/deps'), '-L', 'dependency=' + out]
                for dep in deps.split():
                    args += ['--extern', '%s=%s' % (dep, os.path.join(B, ext[dep][-1][1]))]
                for dep in wdeps.split():
                    args += ['--extern', '%s=%s' % (dep, os.path.join(out, 'lib%s.rmeta' % dep))]
                env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, 'lib'), P4FACTS_OUT=os.path.join(out, u + '.jsonl'),
                           CARGO_PKG_VERSION='0.0.0', CARGO_PKG_NAME=d, CARGO_MANIFEST_DIR=cd, CARGO_CRATE_NAME=u, RUSTC_BOOTSTRAP='1')
                env.pop('RUSTUP_TOOLCHAIN', None)
                r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=cd)
                ok = r.returncode == 0 and os.path.exists(os.path.join(out, u + '.jsonl'))
                if not ok:
                    txt = r.stderr
                    # errors elsewhere in the crate do not keep the sound bodies from being analysed
                    last = not any(u in UNITS[w][4].split() for w in units)
                    if last: subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(env, P4FACTS_TOLERANT='1'), cwd=cd)
                    if not last or not os.path.exists(os.path.join(out, u + '.jsonl')):
                        shutil.rmtree(out, ignore_errors=True)
                        raise BuildError(u, txt)
                    open(os.path.join(out, u + '.errors'), 'w').write(txt)
            open(os.path.join(out, 'done'), 'w').close()
        os.utime(out)
    return {u: os.path.join(out, u + '.jsonl') for u in units}


if __name__ == '__main__':
    try:
        r = extract(sys.argv[1:] or list(UNITS))
        for u, p in r.items(): print(u, p, os.path.getsize(p))
    except BuildError as e:
        print('does not type-check:', e.unit); print(e.text[-6000:]); sys.exit(1)
