"""Mechanical extraction of functions from /repo into Verus units.

A unit template (verus/*.vu) is Verus text with directives (lines starting with
`//@`).  A directive `fn` copies one function out of a source of /repo (compiler
expanded text of a crate, or a source file) and puts contracts around it:
signature and body come from the source, token for token, except for the
rewrites below, which are applied to every function and are all this extraction
changes:

  R1  attributes, comments and doc comments are dropped
  R2  panics (core::panicking::*, std::rt::begin_panic*, panic!, unimplemented!,
      the match of an expanded assert_eq!) become a call of vpanic(), whose
      precondition is false: a verified function never panics where its
      precondition holds.  assert!/debug_assert! that are not expanded become
      if !(c) { vpanic(); }
  R3  `a op= b` becomes `a = a op (b)`   (S01 shows both forms agree)
  R4  `for x in (a..b).rev()` and `(a..b).step_by(k)` become the while loop of
      the same iteration sequence; the variable of `for _ in` is named it_
  R5  `T::default()` of a type parameter and `vec![e; n]` become calls of
      functions with the obvious contract
  R6  a `mut` parameter `p` becomes `let mut p_ = p` with p renamed in the body
  R7  `Enum::Variant as usize` becomes the discriminant written in the enum
  R11 a call of a closure bound by `let f = |x| e;`, or of a free function of the
      same file that no contract and no recorded body mentions (a helper that was
      extracted), is replaced by its body: { let x = arg; e }
  R9  local names that are reserved words of Verus (int, nat, ..) get a trailing _
  R8  the rewrites a template lists for one function (`rewrite:`), each of which
      must still match
"""
import re

class Lost(Exception):
    """An anchor of a template is not in the source any more."""

TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>b?r(?P<h>\#*)".*?"(?P=h)|b?"(?:\\.|[^"\\])*")
 |(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
 |(?P<life>'[A-Za-z_][A-Za-z0-9_]*)
 |(?P<num>(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?)(?:[iuf](?:8|16|32|64|128|size))?)
 |(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><<=|>>=|\.\.\.|\.\.=|=>|->|::|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|>>|\.\.|.)
''', re.X | re.S)

def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        i = m.end()
        k = m.lastgroup if m.lastgroup != 'h' else 'str'
        if m.group('str') is not None: k = 'str'
        if k in ('ws', 'lc', 'bc'): continue
        t = m.group(0)
        if k == 'num' and i < len(s): pass
        out.append(t)
    # 0..n lexes as 0. .n in some regexes; ours requires a digit after the dot.
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
def close(ts, i):
    """index of the bracket matching ts[i]"""
    d = 0
    for j in range(i, len(ts)):
        t = ts[j]
        if t in OPEN: d += 1
        elif t in (')', ']', '}'):
            d -= 1
            if d == 0: return j
    raise Lost('unbalanced brackets')

def drop_attrs(ts):
    out, i = [], 0
    while i < len(ts):
        if ts[i] == '#' and i + 1 < len(ts) and (ts[i + 1] == '[' or (ts[i + 1] == '!' and ts[i + 2] == '[')):
            i = close(ts, i + 1 if ts[i + 1] == '[' else i + 2) + 1
            continue
        out.append(ts[i]); i += 1
    return out

KW = {'fn', 'impl', 'struct', 'enum', 'trait', 'mod', 'const', 'static', 'type', 'use', 'macro_rules', 'extern', 'union'}
class Item:
    inlined = 0
    def __init__(s, kind, head, body, sub=None): s.kind, s.head, s.body, s.sub = kind, head, body, sub
    def __repr__(s): return '<%s %s>' % (s.kind, ' '.join(s.head)[:80])

def items(ts):
    """Top-level items of a token list."""
    out, i = [], 0
    while i < len(ts):
        if ts[i] == ';': i += 1; continue
        j = i
        # visibility, qualifiers
        k = j
        while True:
            if ts[k] == 'pub':
                k += 1
                if ts[k] == '(': k = close(ts, k) + 1
            elif ts[k] in ('unsafe', 'async', 'default') : k += 1
            elif ts[k] == 'const' and ts[k + 1] == 'fn': k += 1
            else: break
        kind = ts[k]
        # find end: first '{...}' or ';' at depth 0 (skip parens, brackets)
        e = k
        body = None
        if kind == 'macro_rules' or (kind not in KW and k + 1 < len(ts) and ts[k + 1] == '!'):
            while ts[e] not in OPEN: e += 1
            c = close(ts, e)
            out.append(Item('macro', ts[j:e], ts[e + 1:c]))
            i = c + 1
            continue
        while e < len(ts):
            t = ts[e]
            if t == '{' and kind in ('const', 'static', 'type', 'use'):
                e = close(ts, e) + 1; continue
            if t == '{': body = (e, close(ts, e)); break
            if t == ';': break
            if t in ('(', '['): e = close(ts, e) + 1; continue
            e += 1
        if body:
            it = Item(kind, ts[j:body[0]], ts[body[0] + 1:body[1]])
            if kind in ('impl', 'trait', 'mod'): it.sub = items(it.body)
            out.append(it); i = body[1] + 1
        else:
            out.append(Item(kind, ts[j:e], None)); i = e + 1
    return out

def norm(s): return ''.join(lex(s) if isinstance(s, str) else s)

def strip_generics(ts):
    """`impl<...> X` -> `X` tokens after the generics, without where clause"""
    i = 1
    if ts[i] == '<':
        d = 0
        while True:
            if ts[i] == '<': d += 1
            elif ts[i] == '>': d -= 1
            elif ts[i] == '>>': d -= 2
            i += 1
            if d == 0: break
    out = ts[i:]
    if 'where' in out: out = out[:out.index('where')]
    return out

class Source:
    def __init__(s, text, subst=None):
        ts = drop_attrs(lex(text))
        for a, b in (subst or []): ts = replace(ts, lex(a), lex(b))
        s.root = items(ts)
        s.mods = {'': s.root}
        def walk(pre, its):
            for it in its:
                if it.kind == 'mod' and it.sub is not None:
                    nm = it.head[it.head.index('mod') + 1]
                    p = (pre + '::' if pre else '') + nm
                    s.mods[p] = it.sub
                    walk(p, it.sub)
        walk('', s.root)

    def all(s, mod=None):
        if mod is not None:
            if mod not in s.mods: raise Lost('module %s not found' % mod)
            return s.mods[mod]
        return [it for m in s.mods.values() for it in m]

    def fns(s, its, name):
        for it in its:
            if it.kind == 'fn' and it.head[it.head.index('fn') + 1] == name: yield it

    def find(s, loc, mod=None):
        """locator: `name` | `Type::name` | `<Type as Trait>::name` | `trait T::name`"""
        its = s.all(mod)
        if loc.startswith('trait '):
            tn, fn = loc[6:].split('::')
            r = [f for it in its if it.kind == 'trait' and it.head[it.head.index('trait') + 1] == tn for f in s.fns(it.sub, fn)]
        elif loc.startswith('<'):
            h, fn = loc.rsplit('>::', 1)
            ty, tr = h[1:].split(' as ')
            want = norm(tr) + 'for' + norm(ty)
            r = [f for it in its if it.kind == 'impl' and norm(strip_generics(it.head[it.head.index('impl'):])) == want for f in s.fns(it.sub, fn)]
        elif '::' in loc:
            ty, fn = loc.rsplit('::', 1)
            r = [f for it in its if it.kind == 'impl' and norm(strip_generics(it.head[it.head.index('impl'):])) == norm(ty) for f in s.fns(it.sub, fn)]
        else:
            r = list(s.fns(its, loc))
        if len(r) != 1: raise Lost('%d functions match %s' % (len(r), loc))
        return r[0]

    def const(s, name, mod=None):
        """`NAME`, or `<Type as Trait>::NAME` for an associated constant"""
        if name.startswith('<'):
            h, nm = name.rsplit('>::', 1)
            ty, tr = h[1:].split(' as ')
            want = norm(tr) + 'for' + norm(ty)
            r = [c for it in s.all(mod) if it.kind == 'impl' and norm(strip_generics(it.head[it.head.index('impl'):])) == want
                 for c in it.sub if c.kind == 'const' and c.head[c.head.index('const') + 1] == nm]
            if len(r) != 1: raise Lost('%d consts match %s' % (len(r), name))
            return Item('const', [ty if t == 'Self' else t for t in r[0].head], None)
        r = [it for it in s.all(mod) if it.kind in ('const', 'static', 'type') and name in it.head[:6] and it.head[it.head.index(it.kind) + 1] == name]
        if len(r) != 1: raise Lost('%d consts match %s' % (len(r), name))
        return r[0]

    def macros(s, name, mod=None):
        return [it for it in s.all(mod) if it.kind == 'macro' and it.head[0] == name]

    def enums(s, mod=None):
        d = {}
        for it in s.all(mod):
            if it.kind == 'enum' and it.body:
                nm = it.head[it.head.index('enum') + 1]
                b = it.body
                for i in range(len(b) - 2):
                    if b[i + 1] == '=' and re.match(r'[A-Za-z_]', b[i]): d[(nm, b[i])] = b[i + 2]
        return d

def replace(ts, pat, rep):
    if not pat: return ts
    out, i, n = [], 0, len(pat)
    while i < len(ts):
        if ts[i:i + n] == pat: out += rep; i += n
        else: out.append(ts[i]); i += 1
    return out

def match_at(ts, i, pat, env):
    """Pattern match of token list: $x matches one balanced non-empty token sequence (lazily), $x:id one identifier."""
    if not pat: return i
    p = pat[0]
    if p.startswith('$'):
        nm = p[1:]
        if nm.endswith(':id'):
            if i < len(ts) and re.match(r'[A-Za-z_0-9]', ts[i]):
                e = dict(env); e[nm[:-3]] = [ts[i]]
                r = match_at(ts, i + 1, pat[1:], e)
                if r is not None: env.clear(); env.update(e if not isinstance(r, tuple) else e); return r
            return None
        j = i
        while j < len(ts):
            if ts[j] in OPEN: j = close(ts, j) + 1
            elif ts[j] in (')', ']', '}'): return None
            else: j += 1
            e = dict(env)
            if nm in e and e[nm] != ts[i:j]: continue
            e[nm] = ts[i:j]
            r = match_at(ts, j, pat[1:], e)
            if r is not None: env.clear(); env.update(e); return r
        return None
    if i < len(ts) and ts[i] == p: return match_at(ts, i + 1, pat[1:], env)
    return None

def plex(s):
    """lex a pattern: $name and $name:id are single tokens"""
    out = []
    ts = lex(s)
    i = 0
    while i < len(ts):
        if ts[i] == '$':
            n = '$' + ts[i + 1]; i += 2
            if i + 1 < len(ts) and ts[i] == ':' and ts[i + 1] == 'id': n += ':id'; i += 2
            out.append(n)
        else: out.append(ts[i]); i += 1
    return out

def rewrite(ts, pat, rep, count=None):
    """Replace every match of pattern; returns (tokens, n)."""
    pat, rep = plex(pat), plex(rep)
    out, i, n = [], 0, 0
    while i < len(ts):
        e = {}
        r = match_at(ts, i, pat, e)
        if r is not None and (count is None or n < count):
            for t in rep:
                if t.startswith('$'): out += e[t[1:].replace(':id', '')]
                else: out.append(t)
            i = r; n += 1
        else: out.append(ts[i]); i += 1
    return out, n

ASSIGN = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '^=': '^', '&=': '&', '|=': '|', '<<=': '<<', '>>=': '>>'}
def r3(ts):
    out = list(ts)
    i = 0
    while i < len(out):
        if out[i] in ASSIGN:
            # lhs: back to statement start
            j, d = i - 1, 0
            while j >= 0:
                if out[j] in (')', ']'): d += 1
                elif out[j] in ('(', '['): d -= 1
                elif d == 0 and out[j] in ('{', '}', ';'): break
                j -= 1
            lhs = out[j + 1:i]
            k, d = i + 1, 0
            while k < len(out):
                if out[k] in OPEN: k = close(out, k) + 1; continue
                if out[k] in (';', '}'): break
                k += 1
            rhs = out[i + 1:k]
            new = lhs + ['='] + lhs + [ASSIGN[out[i]]] + ['('] + rhs + [')']
            out[j + 1:k] = new
            i = j + 1 + len(new)
        else: i += 1
    return out

def r2(ts):
    P = 'vpanic ( )'
    for pat in (':: core :: panicking :: panic ( $a )', ':: std :: rt :: begin_panic ( $a )', ':: std :: rt :: panic_fmt ( $a )', ':: std :: rt :: panic_display ( $a )', ':: core :: panicking :: panic_fmt ( $a )',
                ':: core :: panicking :: panic_display ( $a )', ':: core :: panicking :: unimplemented_default_msg ( )', 'panic ! ( $a )', 'unimplemented ! ( )', 'unreachable ! ( )'):
        ts, _ = rewrite(ts, pat, P)
    ts, _ = rewrite(ts, '''match (& $a, & $b) { (left_val, right_val) => { if !(*left_val == *right_val) { $c } } }''', 'if !(($a) == ($b)) { vpanic() }')
    ts, _ = rewrite(ts, '''match ($a, $b) { (left_val, right_val) => { if !(*left_val == *right_val) { $c } } }''', 'if !(*($a) == *($b)) { vpanic() }')
    for m in ('assert', 'debug_assert'):
        ts, _ = rewrite(ts, m + ' ! ( $a , $m )', 'if !($a) { vpanic() }') if False else (ts, 0)
        out, i = [], 0
        while i < len(ts):
            if ts[i] == m and i + 2 < len(ts) and ts[i + 1] == '!' and ts[i + 2] == '(':
                c = close(ts, i + 2)
                a = args(ts[i + 3:c])
                out += ['if', '!', '('] + a[0] + [')', '{', 'vpanic', '(', ')', '}']
                i = c + 1
            elif ts[i] == m + '_eq' and ts[i + 1] == '!':
                c = close(ts, i + 2)
                a = args(ts[i + 3:c])
                out += ['if', '!', '(', '('] + a[0] + [')', '==', '('] + a[1] + [')', ')', '{', 'vpanic', '(', ')', '}']
                i = c + 1
            elif ts[i] == m + '_ne' and ts[i + 1] == '!':
                c = close(ts, i + 2)
                a = args(ts[i + 3:c])
                out += ['if', '(', '('] + a[0] + [')', '==', '('] + a[1] + [')', ')', '{', 'vpanic', '(', ')', '}']
                i = c + 1
            else: out.append(ts[i]); i += 1
        ts = out
    return ts

def args(ts):
    """split at top-level commas"""
    out, cur, i = [], [], 0
    while i < len(ts):
        if ts[i] in OPEN:
            c = close(ts, i); cur += ts[i:c + 1]; i = c + 1; continue
        if ts[i] == ',': out.append(cur); cur = []
        else: cur.append(ts[i])
        i += 1
    if cur: out.append(cur)
    return out

def r4(ts):
    n = [0]
    i = 0
    out = list(ts)
    while i < len(out):
        if out[i:i + 3] == ['for', '_', 'in']: out[i + 1] = 'it_'
        if out[i] == 'for' and i + 2 < len(out) and 'in' in out[i:i + 8]:
            k = i
            while out[k] != 'in': k += 1
            var = out[i + 1:k]
            j = k + 1
            while out[j] != '{':
                if out[j] in ('(', '['): j = close(out, j)
                j += 1
            it = out[k + 1:j]
            e = {}
            b0, b1 = j, close(out, j)
            if match_at(it, 0, plex('( $a .. $b ) . rev ( )'), e) == len(it):
                it_ = 'it%d_' % n[0]; n[0] += 1
                new = lex('{ let lo_ : _ = ') if False else []
                hdr = ['let', 'mut', it_, '='] + e['b'] + [';', 'while', it_, '>'] + ['('] + e['a'] + [')'] + ['{', it_, '=', it_, '-', '1', ';', 'let'] + var + ['=', it_, ';']
                out[i:b0 + 1] = hdr
            elif match_at(it, 0, plex('( $a .. $b ) . step_by ( $c )'), e) == len(it):
                it_ = 'it%d_' % n[0]; n[0] += 1
                hdr = ['let', 'mut', it_, '='] + e['a'] + [';', 'while', it_, '<'] + ['('] + e['b'] + [')'] + ['{', 'let'] + var + ['=', it_, ';']
                inc = [it_, '=', 'step_', '(', it_, ','] + e['c'] + [',' ] + e['b'] + [')', ';']
                out[b1:b1] = inc
                out[i:b0 + 1] = hdr
        i += 1
    return out

def fn_parts(it):
    """head tokens -> (before params, params list, ret tokens, where tokens)"""
    h = it.head
    i = h.index('fn') + 2
    if h[i] == '<':
        d = 0
        while True:
            if h[i] == '<': d += 1
            elif h[i] == '>': d -= 1
            elif h[i] == '>>': d -= 2
            elif h[i] == '->': pass
            i += 1
            if d == 0: break
    assert h[i] == '('
    c = close(h, i)
    pre, ps, rest = h[:i], args(h[i + 1:c]), h[c + 1:]
    wh = []
    if 'where' in rest:
        w = rest.index('where'); wh = rest[w:]; rest = rest[:w]
    ret = rest[1:] if rest and rest[0] == '->' else []
    return pre, ps, ret, wh

NOSP_BEFORE = {',', ';', ')', ']', '.', '?', ':', '::', '('}
def show(ts, ind=0):
    """readable text of a token list"""
    out, line, d = [], [], ind
    def flush():
        nonlocal line
        if line: out.append('    ' * d + ' '.join(line)); line = []
    depth = 0
    for i, t in enumerate(ts):
        if t == '{' and depth == 0:
            line.append(t); flush(); d += 1
        elif t == '}' and depth == 0:
            flush(); d -= 1; line.append(t)
            if not (i + 1 < len(ts) and ts[i + 1] in ('else', ';', ',', ')', '.', '?', '==', 'as')): flush()
        elif t == ';' and depth == 0:
            line.append(t); flush()
        else:
            if t in ('(', '['): depth += 1
            elif t in (')', ']'): depth -= 1
            if isinstance(t, Raw):
                flush(); out.append(str(t)); continue
            line.append(t)
    flush()
    s = '\n'.join(out)
    s = re.sub(r' (?=[,;)\].?])', '', s)
    s = re.sub(r'(?<=[(\[.!&]) ', '', s)
    s = re.sub(r'\. ?\. ?', '..', s)
    s = re.sub(r' ?:: ?', '::', s)
    return s

class Raw(str): pass

def loops(ts):
    """indices of the '{' of each loop body, in order"""
    out = []
    for i, t in enumerate(ts):
        if t in ('for', 'while', 'loop'):
            if t == 'for' and i + 1 < len(ts) and ts[i + 1] == '<': continue
            j = i + 1
            while ts[j] != '{':
                if ts[j] in ('(', '['): j = close(ts, j)
                j += 1
            out.append((i, j))
    return out

def skeleton(it):
    """callee multiset and loop headers of a function: what a proof is tied to"""
    ts = it.body or []
    calls = sorted(ts[i - 1] for i in range(1, len(ts)) if ts[i] == '(' and re.match(r'[A-Za-z_]\w*$', ts[i - 1]) and ts[i - 1] not in ('if', 'while', 'for', 'match', 'in', 'return'))
    lp = [' '.join(ts[i:j]) for i, j in loops(ts)]
    return dict(**({'inlined': it.inlined} if it.inlined else {}), toks=' '.join(ts), calls=calls, loops=lp, lets=sorted(ts[i + 1] if ts[i + 1] != 'mut' else ts[i + 2] for i in range(len(ts) - 2) if ts[i] == 'let' and ts[i + 1] != '_'))

def stmt_starts(ts, lo, hi):
    """statement start indices at depth 0 inside ts[lo:hi]"""
    out, i, new = [], lo, True
    while i < hi:
        if new: out.append(i); new = False
        t = ts[i]
        if t in OPEN:
            c = close(ts, i)
            if t == '{' and c + 1 < hi and ts[c + 1] not in ('else', ';', '.', ')', ',', '?', '==', 'as', '+', '-', '*', '^', '&', '|'):
                new = True
            i = c + 1; continue
        if t == ';': new = True
        i += 1
    return out

def inline(src, it, mod, known):
    """R11. A failed obligation of a function this applies to is never reported as a violation."""
    ts, n = list(it.body or []), 0
    def simple(ps):
        return all(len(p) >= 1 and re.match(r'[a-z_]\w*$', p[1] if p[0] == 'mut' and len(p) > 1 else p[0]) and p[0] != 'self' and p[-1] != 'self' and (len(p) == 1 or ':' in p) for p in ps)
    def expand(i, ps, body):
        """the call at ts[i] ( .. )"""
        e = close(ts, i + 1); a = args(ts[i + 2:e])
        if len(a) != len(ps): return False
        new = ['{']
        for j, x in enumerate(a): new += ['let', 'inl%d_%d_' % (n, j), '='] + x + [';']
        for j, p in enumerate(ps): new += ['let'] + p + ['=', 'inl%d_%d_' % (n, j), ';']
        ts[i:e + 1] = new + body + ['}']
        return True
    # closures
    i = 0
    while i + 4 < len(ts):
        if ts[i] == 'let' and re.match(r'[a-z_]\w*$', ts[i + 1]) and ts[i + 2] == '=' and ts[i + 3] == '|':
            nm, k = ts[i + 1], i + 4
            while ts[k] != '|':
                k = close(ts, k) + 1 if ts[k] in OPEN else k + 1
            ps = args(ts[i + 4:k]); b = k + 1; e = b
            while ts[e] != ';':
                e = close(ts, e) + 1 if ts[e] in OPEN else e + 1
            body = ts[b:e]
            uses = [j for j in range(len(ts)) if ts[j] == nm and j != i + 1]
            free = {t for t in body if re.match(r'[a-z_]\w*$', t)} - {q for p in ps for q in p}
            lets = [ts[j + 1] if ts[j + 1] != 'mut' else ts[j + 2] for j in range(len(ts) - 2) if ts[j] == 'let']
            if simple(ps) and all(j > e and ts[j + 1] == '(' and ts[j - 1] != '.' for j in uses) and not {'return', '?', 'move', '->'} & set(body) and all(lets.count(v) <= 1 for v in free):
                for j in reversed(uses): n += 1 if expand(j, ps, ['('] + body + [')'] if body[0] != '{' else body) else 0
                ts[i:e + 1] = []
                continue
        i += 1
    # helpers
    i = 0
    while i + 1 < len(ts) and n < 40:
        t = ts[i]
        if ts[i + 1] == '(' and re.match(r'[a-z_]\w*$', t) and t not in known and (i == 0 or ts[i - 1] not in ('.', '::', 'fn')):
            r = [h for h in src.all(mod) if h.kind == 'fn' and h.head[h.head.index('fn') + 1] == t]
            if len(r) == 1 and r[0].body and '<' not in r[0].head[:r[0].head.index('fn') + 3]:
                pre, ps, ret, wh = fn_parts(r[0])
                if simple(ps) and not {'return', '?'} & set(r[0].body) and t not in r[0].body and expand(i, ps, list(r[0].body)): n += 1; continue
        i += 1
    if not n: return it
    r = Item(it.kind, it.head, ts); r.inlined = n
    return r
