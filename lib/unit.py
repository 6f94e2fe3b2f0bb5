"""Builds a Verus unit from a template and the current sources of /repo."""
import json, os, re
from . import common as c, extract as x

EXP = os.path.join(c.BUILD, 'expanded')
HOST = os.path.join(c.ROOT, 'verus', 'host')

def expand():
    """Compiler-expanded text of the crates, keyed by content hash."""
    os.makedirs(EXP, exist_ok=True)
    h = c.source_hash() + __import__('hashlib').sha256(open(os.path.join(HOST, 'src', 'lib.rs'), 'rb').read()).hexdigest()
    stamp = os.path.join(EXP, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == h: return
    tgt = os.path.join(c.BUILD, 'expand-target')
    c.freshen(tgt)
    for name, pkg, cwd in (('secret_integers', 'secret_integers', c.REPO), ('abstract_integers', 'abstract_integers', c.REPO), ('hacspec', 'hacspec', c.REPO), ('host', 'expand_host', HOST)):
        cmd = ['cargo', '+nightly', 'rustc', '--offline', '-p', pkg, '--lib', '--profile', 'check', '--target-dir', tgt, '--', '-Zunpretty=expanded']
        rc, out, err, t = c.run(cmd, cwd, 600)
        if rc != 0 or len(out) < 1000: raise x.Lost('expanding %s failed: %s' % (pkg, err[-1500:]))
        open(os.path.join(EXP, name + '.rs'), 'w').write(out)
    open(stamp, 'w').write(h)

_cache = {}
def source(key, subst):
    k = (key, tuple(subst))
    if k not in _cache:
        if key.startswith('ex:'): t = open(os.path.join(c.REPO, 'spec-examples', 'src', key[3:])).read()
        elif key.startswith('src:'): t = open(os.path.join(c.REPO, key[4:])).read()
        else: t = open(os.path.join(EXP, key + '.rs')).read()
        _cache[k] = x.Source(t, subst)
    return _cache[k]

class Fn:
    def __init__(s, loc): s.loc, s.spec, s.loops, s.hints, s.rw, s.name, s.ret, s.attrs, s.mod, s.keep = loc, [], {}, [], [], None, 'r', [], None, None

RESERVED = ('int', 'nat', 'spec', 'proof', 'exec', 'ghost', 'tracked', 'open', 'closed')
def emit_fn(src, f, enums, stub=False, known=(), attrs=()):
    it = src.find(f.loc, f.mod)
    if known: it = x.inline(src, it, f.mod, known)
    if not stub: f.attrs = f.attrs + list(attrs)
    pre, ps, ret, wh = x.fn_parts(it)
    body = [t + '_' if t in RESERVED else t for t in it.body]      # R9
    # R6
    lets = []
    newps = []
    for p in ps:
        if p and p[0] == 'mut':
            nm = p[1]
            if nm == 'self':
                newps.append(['self']); lets += ['let', 'mut', 'self_', '=', 'self', ';']
                body = ['self_' if t == 'self' else t for t in body]
            else:
                newps.append(p[1:]); lets += ['let', 'mut', nm, '=', nm, ';']
        elif p and p[0] == '(':                                   # R10: a tuple pattern
            e = x.close(p, 0); nm = 'p%d_' % len(newps)
            newps.append([nm] + p[e + 1:]); lets += ['let'] + p[:e + 1] + ['=', nm, ';']
        else: newps.append(p)
    body = lets + list(body)
    body = x.r2(body)
    body = secret_macros(r7(body, enums))
    sig = pre + ['('] + [t for i, p in enumerate(newps) for t in ((['@COMMA@'] if i else []) + p)] + [')']
    sig = [',' if t == '@COMMA@' else t for t in sig]
    sig += ['->'] + (['('] + [f.ret, ':'] + ret + [')']) if ret else []
    sig += wh
    for must, a, b in f.rw:
        body, n1 = x.rewrite(body, a, b)
        sig, n2 = x.rewrite(sig, a, b)
        if must and n1 + n2 == 0 and not stub: raise x.Lost('%s: rewrite pattern not found: %s' % (f.loc, a))
    body = x.r3(body)
    body = x.r4(body)
    if f.name:
        i = sig.index('fn'); sig[i + 1] = f.name
    sig = [t for t in sig if t not in ('unsafe',)]
    if sig[0] != 'pub' and not f.loc.startswith('<') and not f.keep: sig = ['pub'] + sig
    if sig[0] == 'pub' and sig[1] == '(':
        sig = ['pub'] + sig[x.close(sig, 1) + 1:]
    if stub:                                    # not within reach on this tree: its contract is assumed, and the run says undecided
        return '\n'.join(['#[verifier::external_body]'] + [t for t in f.attrs if 'external_body' not in t] + [x.show(sig)] + f.spec + ['{ unimplemented!() }']), x.skeleton(it)
    # insertion points
    ins = []   # (index, order, text)
    lp = x.loops(body)
    for n, text in f.loops.items():
        if n >= len(lp): raise x.Lost('%s: loop %d not found' % (f.loc, n))
        ins.append((lp[n][1], 0, text))
    def tail(lo, hi):
        st = x.stmt_starts(body, lo, hi)
        return st[-1] if st else hi
    for where, text in f.hints:
        w = where.split()
        if w == ['start']: ins.append((0, 1, text))
        elif w == ['end']: ins.append((tail(0, len(body)) if body and body[-1] not in (';', '}') or not (ret == []) else len(body), 1, text))
        elif w == ['ret']:
            i = tail(0, len(body))
            ins.append((i, 2, 'let ret_ = ')); ins.append((len(body), 3, ';\n' + text + '\nret_'))
        elif w[0] == 'loop':
            n = int(w[1])
            if n >= len(lp): raise x.Lost('%s: loop %d not found' % (f.loc, n))
            a, b = lp[n]; e = x.close(body, b)
            if w[2] == 'start': ins.append((b + 1, 1, text))
            elif w[2] == 'end': ins.append((e, 1, text))
            elif w[2] == 'before': ins.append((a, 1, text))
            elif w[2] == 'after': ins.append((e + 1, 1, text))
            elif w[2] == 'tail': ins.append((tail(b + 1, e), 1, text))
        elif w[0] in ('before', 'after', 'before*', 'after*'):
            pat = x.plex(where.split(None, 1)[1])
            hits = []
            for i in range(len(body)):
                r = x.match_at(body, i, pat, {})
                if r is not None: hits.append((i, r))
            if not hits or (len(hits) > 1 and not w[0].endswith('*')): raise x.Lost('%s: %d matches of hint anchor: %s' % (f.loc, len(hits), where))
            for i, r in hits: ins.append((i if w[0].startswith('before') else r, 1, text))
        else: raise ValueError(where)
    out, k = [], 0
    for i, o, text in sorted(ins, key=lambda t: (t[0], t[1])):
        out += body[k:i] + [x.Raw(text)]; k = i
    out += body[k:]
    txt = '\n'.join(f.attrs + [x.show(sig)] + f.spec + ['{', x.show(out, 1), '}'])
    return txt, x.skeleton(it)

_macro_ok = []
MACROS = {'secret_array': '( $ int_type : ident , [ $ ( $ x : expr ) , + ] ) => { [ $ ( $ int_type ( $ x ) ) , + ] }', 'secret_bytes': '( [ $ ( $ x : expr ) , + ] ) => { secret_array ! ( U8 , [ $ ( $ x ) , + ] ) }'}
def secret_macros(ts):
    """secret_array!(T, [a, b]) is [T(a), T(b)], secret_bytes!([a]) is [U8(a)]: the definitions in hacspec are compared with this reading"""
    out, i = [], 0
    ts = list(ts)
    while i < len(ts):
        if ts[i] in MACROS and ts[i + 1] == '!':
            if not _macro_ok:
                t = x.lex(open(os.path.join(c.REPO, 'hacspec', 'src', 'array.rs')).read())
                for k, v in MACROS.items():
                    p = x.lex('macro_rules ! ' + k)
                    q = [j for j in range(len(t)) if t[j:j + 3] == p]
                    if len(q) != 1: raise x.Lost('macro %s not found' % k)
                    body = t[q[0] + 4:x.close(t, q[0] + 3)]
                    if norm_(body) != norm_(x.lex(v)): raise x.Lost('macro %s has another definition' % k)
                _macro_ok.append(1)
            e = x.close(ts, i + 2)
            ar = x.args(ts[i + 3:e])
            ty = ['U8'] if ts[i] == 'secret_bytes' else ar[0]
            xs = x.args(ar[-1][1:-1])
            out.append('[')
            for k, a in enumerate(xs): out += ([','] if k else []) + ty + ['('] + a + [')']
            out.append(']'); i = e + 1
        elif ts[i] == 'from_hex' and ts[i - 1] == '::' and ts[i + 1] == '(' and ts[i + 3] == ')' and re.fullmatch(r'"[0-9a-fA-F]{6,64}"', ts[i + 2]):
            h = ts[i + 2].strip('"').rjust(64, '0')     # a long literal: four words
            out += ['from_hex_', '('] + [t for k in range(4) for t in ('0x%su64' % h[16 * k:16 * k + 16], ',')] + [')']; i += 4
        else: out.append(ts[i]); i += 1
    return out
def norm_(ts): return ''.join(ts).rstrip(';')
def r7(ts, enums):
    for (e, v), d in enums.items():
        ts, _ = x.rewrite(ts, '%s :: %s as usize' % (e, v), d)
    return ts

def foreach(lines, sfx):
    """//@foreach a=x,b=y;a=z,b=w ... //@endfor: the block once per binding, @a@ replaced"""
    out, i = [], 0
    while i < len(lines):
        m = re.match(r'\s*//@foreach%s (.*)$' % sfx, lines[i])
        if not m: out.append(lines[i]); i += 1; continue
        j = i
        while lines[j].strip() != '//@endfor' + sfx: j += 1
        for alt in m.group(1).split(';'):
            b = dict(kv.split('=', 1) for kv in alt.split(','))
            for l in lines[i + 1:j]:
                for k, v in b.items(): l = l.replace('@%s@' % k, v)
                out.append(l)
        i = j + 1
    return out

ARR = {'bytes': 'U8', 'array': None, 'public_bytes': 'u8', 'public_array': None}
def build(name, tdir=None, skip=(), known=None, flat=()):
    """-> (text, [(first line, last line, locator)], {locator: skeleton}, {locator: why})
    A function whose annotations no longer fit, or that is in skip, is left as a stub
    with its contract (last result); the rest of the unit is still decided.
    known: names that are never inlined (R11); flat: functions whose loops are
    verified with the facts of their surroundings."""
    tdir = tdir or os.path.join(c.ROOT, 'verus')
    lines = []
    used = set()
    def load(fn):
        for l in open(os.path.join(tdir, fn)):
            l = l.rstrip('\n')
            m = re.match(r'\s*//@(include|use) (\S+)', l)
            if m:                                   # use: once only
                if m.group(1) == 'include' or m.group(2) not in used: used.add(m.group(2)); load(m.group(2))
            else: lines.append(l)
    load(name + '.vu')
    lines = foreach(foreach(lines, ''), '2')
    if known: known = known | {w for l in lines for w in re.findall(r'\bfn (\w+)|//@fn \S*?(\w+)\s*$|as-name (\w+)', l) for w in w if w} | {'vpanic', 'Some', 'Ok', 'Err'}
    out, spans, skel, stubs = [], [], {}, {}
    src, mod, srckey = None, None, ''
    i = 0
    def cur(): return sum(t.count('\n') + 1 for t in out)
    enums = {}
    while i < len(lines):
        l = lines[i]; i += 1
        m = re.match(r'\s*//@(\w+)(?:\s+(.*))?$', l)
        if not m: out.append(l); continue
        d, a = m.group(1), (m.group(2) or '').strip()
        if d == 'source':
            parts = a.split(' subst ', 1)
            subst = [tuple(s.strip() for s in p.split('=>')) for p in parts[1].split(';;')] if len(parts) > 1 else []
            srckey = parts[0].split()[0]
            mod = parts[0].split()[1] if len(parts[0].split()) > 1 else None
            src = source(srckey, subst)
            enums = src.enums(mod)
        elif d == 'const':
            cp = a.split(' as-name ')
            it = src.const(cp[0].strip(), mod)
            h = r7(it.head, enums)
            if len(cp) > 1: h = list(h); h[h.index('const') + 1] = cp[1].strip()
            if h[0] != 'pub': h = ['pub'] + h
            for p, q in ((':: std :: vec', 'vec'),): h, _ = x.rewrite(h, p, q)
            out.append(x.show(h) + ';')
            spans.append((cur(), cur(), srckey + ' const ' + a))
        elif d == 'table':                              # a constant or static with a contract
            it = src.const(a, mod)
            h = secret_macros(r7(it.head, enums))
            e = h.index('=')
            ty, val = h[h.index(':') + 1:e], h[e + 1:]
            spec = []
            while True:
                l = lines[i]; i += 1
                if l.strip() == '//@end': break
                m2 = re.match(r'\s*//@rewrite (.*)$', l)
                if m2:
                    p, q = m2.group(1).split('==>')
                    val, n1 = x.rewrite(val, p.strip(), q.strip()); ty, n2 = x.rewrite(ty, p.strip(), q.strip())
                    if n1 + n2 == 0: raise x.Lost('%s: rewrite pattern not found: %s' % (a, p))
                else: spec.append(l)
            out.append('// extracted: %s %s' % (srckey, a))
            a0 = cur() + 1
            out.append('pub exec const %s: %s\n%s\n{\n%s\n}' % (a, x.show(ty), '\n'.join(t for t in spec if not t.startswith('@')), 'let tab_ = ' + x.show(val) + ';\n' + '\n'.join(t[1:] for t in spec if t.startswith('@')) + '\ntab_'))
            spans.append((a0, cur(), srckey + ' const ' + a))
        elif d == 'natmod':                             # public_nat_mod!(NAME, CANVAS, BITS, "hex"): types and modulus
            nm, sp, ident = a.split()
            its = [x.args(it.body) for it in src.macros('public_nat_mod', mod)]
            its = [p for p in its if p[0] == [nm]]
            if len(its) != 1 or len(its[0]) != 4: raise x.Lost('public_nat_mod!(%s, ..) not found' % nm)
            _, cv, bits, hx = its[0]
            bits, v = int(''.join(bits).replace('_', ''), 0), int(hx[0].strip('"'), 16)
            nb = (bits + 7) // 8
            ds = []
            w = v
            while w: ds.append(w & (2**64 - 1)); w >>= 64
            e = '0'
            for q in reversed(ds): e = '(%s * 0x1_0000_0000_0000_0000int + 0x%xint)' % (e, q) if e != '0' else '0x%xint' % q
            out.append('pub type %s = PubFe<%d, %d, %s>;\npub type %s = PubFeCanvas<%d, %d>;' % (nm, bits, nb, ident, ''.join(cv), bits, nb))
            out.append('/// the declared modulus\npub open spec fn %s() -> int { %s }\npub open spec fn text_%s() -> VSeq<u8> { seq![%s] }\npub axiom fn axiom_text_%s() ensures modtext_(%d, %d, %s) == text_%s();\npub proof fn axiom_%s() ensures modulus_(%d, %d, %s) == %s() { axiom_text_%s(); assert(hexval(text_%s()) == %s()) by (compute); }' % (sp, e, sp, ', '.join('%du8' % b for b in hx[0].strip('"').encode()), sp, bits, nb, ident, sp, sp, bits, nb, ident, sp, sp, sp, sp))
        elif d == 'absint':                             # abstract_unsigned_public_integer!(NAME, BITS)
            its = [p for p in (x.args(it.body) for it in src.macros('abstract_unsigned_public_integer', mod)) if p[0] == [a]]
            if len(its) != 1 or len(its[0]) != 2: raise x.Lost('abstract_unsigned_public_integer!(%s, ..) not found' % a)
            bits = int(''.join(its[0][1]).replace('_', ''), 0)
            out.append('pub type %s = PubU<%d, %d>;' % (a, bits, (bits + 7) // 8))
        elif d == 'absent':                             # a default method that must not be overridden
            try: src.find(a, mod)
            except x.Lost: pass
            else: raise x.Lost('%s exists: the default method is overridden' % a)
        elif d == 'aliases':
            for k, el in ARR.items():
                for it in src.macros(k, mod):
                    p = x.args(it.body)
                    t = el or ''.join(p[2])
                    if len(p) > 3 or (el and len(p) > 2): raise x.Lost('array macro with more arguments: %s' % it)
                    out.append('pub type %s = Arr<%s, {%s}>;' % (''.join(p[0]), t, ' '.join(p[1])))
        elif d == 'galiases':
            for it in src.macros('generic_array', mod):
                p = x.args(it.body)
                out.append('pub type %s<T> = ArrG<T, {%s}>;' % (''.join(p[0]), ' '.join(p[1])))
        elif d == 'fn':
            p = a.split(' as-name ')
            f = Fn(p[0].strip()); f.mod = mod
            if len(p) > 1: f.name = p[1].strip()
            sec = f.spec
            while True:
                if i >= len(lines): raise ValueError('unterminated fn ' + a)
                l = lines[i]; i += 1
                m2 = re.match(r'\s*//@(rewrite\?|\w+)(?:\s+(.*))?$', l)
                if not m2: sec.append(l); continue
                d2, a2 = m2.group(1), (m2.group(2) or '').strip()
                if d2 == 'end': break
                elif d2 == 'spec': sec = f.spec
                elif d2 == 'ret': f.ret = a2
                elif d2 == 'attr': f.attrs.append(a2)
                elif d2 == 'keep': f.keep = True
                elif d2 == 'loop': sec = []; f.loops[int(a2)] = sec
                elif d2 == 'at': sec = []; f.hints.append((a2, sec))
                elif d2 in ('rewrite', 'rewrite?'):
                    q = a2.split('==>')
                    f.rw.append((d2 == 'rewrite', q[0].strip(), q[1].strip()))
                else: raise ValueError(l)
            f.loops = {k: '\n'.join(v) for k, v in f.loops.items()}
            f.hints = [(w, '\n'.join(v)) for w, v in f.hints]
            key = srckey + ' ' + (mod + '::' if mod else '') + f.loc
            if key in skip: txt, sk = emit_fn(src, f, enums, True); stubs[key] = 'outside the verifier'
            else:
                try: txt, sk = emit_fn(src, f, enums, False, known or (), ['#[verifier::loop_isolation(false)]'] if key in flat else [])
                except x.Lost as e: txt, sk = emit_fn(src, f, enums, True); stubs[key] = str(e)
            out.append('// extracted: ' + key)
            a0 = cur() + 1
            out.append(txt)
            spans.append((a0, cur(), key))
            skel[key] = sk
        else: raise ValueError('unknown directive ' + l)
    return '\n'.join(out) + '\n', spans, skel, stubs
