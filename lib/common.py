"""Shared helpers: locations, freshness of build products, process running."""
import hashlib, json, os, re, signal, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
os.makedirs(BUILD, exist_ok=True)
PATHCRATES = ('hacspec', 'secret_integers', 'abstract_integers', 'hacspec-examples', 'hacspec_examples', 'hacspec_attributes', 'contracts', 'replay', 'expand_host')

def env():
    e = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
    for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC_WRAPPER'): e.pop(k, None)
    e['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + e.get('PATH', '')
    return e

def run(cmd, cwd, timeout, extra_env=None):
    """(rc or None on timeout, output, seconds)"""
    e = env(); e.update(extra_env or {})
    t = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True, errors='replace')
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err, time.time() - t
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err, time.time() - t
    finally:
        # a solver of a timed out harness outlives its parent
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass

def source_files():
    for crate in ('hacspec', 'secret-integers', 'abstract-integers', 'spec-examples', 'attributes'):
        for d, ds, fs in os.walk(os.path.join(REPO, crate)):
            ds[:] = sorted(x for x in ds if x not in ('target', 'tests', '.git'))
            for f in sorted(fs):
                if f.endswith('.rs') or f == 'Cargo.toml': yield os.path.join(d, f)

def source_hash():
    h = hashlib.sha256()
    for f in source_files():
        h.update(os.path.relpath(f, REPO).encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()

def freshen(target, stamp_name='source.hash', own=()):
    """Make cargo rebuild the path crates in `target` when /repo's sources differ
    from those the target was built from (cargo itself compares time stamps, which
    a checkout of older or newer files can defeat)."""
    h = source_hash()
    for f in own: h += hashlib.sha256(open(f, 'rb').read()).hexdigest()
    h = hashlib.sha256(h.encode()).hexdigest()
    stamp = os.path.join(target, stamp_name)
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h and os.path.isdir(target):
        for d, ds, fs in os.walk(target):
            if os.path.basename(d) == '.fingerprint':
                for x in ds:
                    if re.sub(r'-[0-9a-f]{16}$', '', x) in PATHCRATES:
                        subprocess.call(['rm', '-rf', os.path.join(d, x)])
                ds[:] = []
    os.makedirs(target, exist_ok=True)
    open(stamp, 'w').write(h)

def kani_sources():
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(ROOT, 'kani', 'src')) for f in fs)

LITS = os.path.join(ROOT, 'lib', 'literals.json')
def literals():
    """{file: {integer literal: count}} of /repo's sources, comments dropped"""
    out = {}
    for f in source_files():
        if not f.endswith('.rs'): continue
        t = re.sub(r'//[^\n]*', '', open(f, errors='replace').read())
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', t)
        d = {}
        for m in re.findall(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?=(?:[ui](?:8|16|32|64|128|size))?(?![\w]))', t):
            try: v = str(int(m.replace('_', ''), 0)) if not m.isdigit() else str(int(m))
            except ValueError: continue
            d[v] = d.get(v, 0) + 1
        for m in re.findall(r"b'(.)'", t): d[str(ord(m) & 255)] = d.get(str(ord(m) & 255), 0) + 1
        out[os.path.relpath(f, REPO)] = d
    return out
def new_literals():
    """integer literals that occur more often in a file than on the committed tree:
    likely thresholds, offered to the search as lengths and values (none on that tree)"""
    base = json.load(open(LITS)) if os.path.exists(LITS) else None
    if base is None: return []
    out = set()
    for f, d in literals().items():
        for v, n in d.items():
            if n > base.get(f, {}).get(v, 0): out.add(int(v))
    return sorted(x for x in out if x < 1 << 128)[:40]
if __name__ == '__main__': json.dump(literals(), open(LITS, 'w'), indent=0, sort_keys=True)
