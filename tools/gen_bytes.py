#!/usr/bin/env python3
"""Writes verus/bytes.vu (byte order specifications and contracts, one copy per width)."""
o = []
w = o.append
W = [('U8','u8',8),('U16','u16',16),('U32','u32',32),('U64','u64',64),('U128','u128',128)]
def from_to(U, t, b, ut, panic=False):
    """from/to_le/be_bytes of one type; t is its representation, ut the unsigned one"""
    n = b // 8
    sg = t != ut
    w('//@source secret_integers')
    w('impl %s {' % U)
    for e in ('le', 'be'):
        w('''//@fn %(U)s::from_%(e)s_bytes%(asn)s
//@rewrite? unsafe { $b } ==> $b
//@rewrite std::mem::transmute::<[u8; %(b)d / 8], %(t)s>($a).to_%(e)s() ==> to_%(e)s_%(t)s(from_ne_%(t)s($a))
//@rewrite $s:id.chunks($k).map(|chunk| $body).collect::<Vec<%(U)s>>() ==> { let mut out_: Vec<%(U)s> = Vec::new(); let mut p_: usize = 0; while p_ < $s.len() { let chunk = chunk_at($s, p_, $k); out_.push($body); p_ = step_(p_, $k, $s.len()); } out_ }
%(pan)s
    ensures %(pe)s r@.len() == bytes@.len() / %(n)d,
        forall|k: int| 0 <= k < bytes@.len() / %(n)d ==> #[trigger] r@[k] == %(U)s(fr%(e)s_%(ut)s(bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d))%(cast)s)
//@loop 0
    invariant bytes@.len() %% %(n)d == 0, bytes@.len() <= usize::MAX, p_ <= bytes@.len() ==> p_ %% %(n)d == 0, out_@.len() == p_ / %(n)d, p_ <= bytes@.len() || p_ < bytes@.len() + %(n)d, p_ %% %(n)d == 0,
        forall|k: int| 0 <= k < p_ / %(n)d ==> #[trigger] out_@[k] == %(U)s(fr%(e)s_%(ut)s(bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d))%(cast)s)
    decreases bytes@.len() - p_
//@loop 1
    invariant chunk@.len() == %(n)d, forall|j: int| 0 <= j < i ==> #[trigger] chunk_raw@[j] == chunk@[j].0
//@at loop 0 start
    assert(bytes@.subrange(p_ as int, p_ + %(n)d) =~= bytes@.subrange(%(n)d * (p_ / %(n)d), %(n)d * (p_ / %(n)d) + %(n)d));
//@at after p_ = step_(p_, %(b)d / 8, bytes.len());
    proof { assert(p_ %% %(n)d == 0 && p_ <= bytes@.len()); }
//@at loop 1 after
    proof { lemma_swap_%(ut)s(%(cb)s); %(castlem1)s }
//@end''' % dict(U=U, t=t, b=b, n=n, e=e, ut=ut, pan='//@rewrite vpanic() ==> vdiverge()\n//@spec' if panic else '//@spec\n    requires bytes@.len() %% %d == 0' % n, pe='bytes@.len() %% %d == 0,' % n if panic else '', asn=' as-name from_%s_bytes_panics' % e if panic else '', cast=' as ' + t if sg else '', ucast=' as ' + ut if sg else '', castlem1='cast_%s(ule_%s(chunk_raw@));' % (ut, ut) if sg else '', castlem2='cast_%s(swap_%s(ints@[p_ as int].0 as %s)); cast_%s(ints@[p_ as int].0);' % (ut, ut, ut, t) if sg else '', cb=', '.join('chunk@[%d].0' % j for j in range(n))))
    for e in ('le', 'be') if not panic else ():
        w('''//@fn %(U)s::to_%(e)s_bytes
//@rewrite? unsafe { $b } ==> $b
//@rewrite std::mem::transmute::<%(t)s, [u8; %(b)d / 8]>($a.to_%(e)s()) ==> to_ne_%(t)s(to_%(e)s_%(t)s($a))
//@rewrite $s:id.iter().map(|x| $body).collect() ==> { let mut out_: Vec<U8> = Vec::new(); for q_ in 0..$s.len() { let x = &$s[q_]; out_.push($body); } out_ }
//@rewrite $s:id.iter().map(|int_| $body).flatten().collect() ==> { let mut res_: Vec<U8> = Vec::new(); for p_ in 0..$s.len() { let int_ = &$s[p_]; append_(&mut res_, $body); } res_ }
//@spec
    ensures r@ == concat_%(e)s_%(t)s(ints@)
//@loop 0
    invariant res_@ == concat_%(e)s_%(t)s(ints@.subrange(0, p_ as int))
//@loop 1
    invariant out_@.len() == q_, forall|j: int| 0 <= j < q_ ==> #[trigger] out_@[j] == U8(bytes@[j])
//@at loop 0 before
    proof { assert(ints@.subrange(0, 0) =~= VSeq::<%(U)s>::empty()); }
//@at loop 0 start
    proof { lemma_swap_byte_%(ut)s(ints@[p_ as int].0%(ucast)s); %(castlem2)s let a_ = ints@.subrange(0, p_ + 1); assert(a_.drop_last() =~= ints@.subrange(0, p_ as int)); assert(a_.last() == ints@[p_ as int]); }
//@at loop 1 after
    proof { assert forall|j_: int| 0 <= j_ < %(n)d implies out_@[j_] == %(e)s_%(ut)s(ints@[p_ as int].0%(ucast)s)[j_] by { }
        assert(out_@ =~= %(e)s_%(ut)s(ints@[p_ as int].0%(ucast)s)); }
//@at ret
    proof { assert(ints@.subrange(0, ints@.len() as int) =~= ints@); }
//@end''' % dict(U=U, t=t, b=b, n=n, e=e, ut=ut, pan='//@rewrite vpanic() ==> vdiverge()\n//@spec' if panic else '//@spec\n    requires bytes@.len() %% %d == 0' % n, pe='bytes@.len() %% %d == 0,' % n if panic else '', asn=' as-name from_%s_bytes_panics' % e if panic else '', cast=' as ' + t if sg else '', ucast=' as ' + ut if sg else '', castlem1='cast_%s(ule_%s(chunk_raw@));' % (ut, ut) if sg else '', castlem2='cast_%s(swap_%s(ints@[p_ as int].0 as %s)); cast_%s(ints@[p_ as int].0);' % (ut, ut, ut, t) if sg else ''))
    w('}')

w('// Generated by tools/gen_bytes.py: byte serialisation of secret integers (S04, H07).')
w('verus! {')
w('''/// chunk starting at p of `s.chunks(k)`
pub fn chunk_at<T: Copy>(s: &[T], p: usize, k: usize) -> (r: &[T])
    requires p < s@.len(), k > 0, s@.len() <= usize::MAX
    ensures r@ == s@.subrange(p as int, if p + k < s@.len() { p + k } else { s@.len() as int })
{ let e = step_(p, k, s.len()); let e = if e > s.len() { s.len() } else { e }; vstd::slice::slice_subrange(s, p, e) }
pub fn append_<T>(v: &mut Vec<T>, x: Vec<T>)
    ensures final(v)@ == old(v)@ + x@
{ let mut x = x; v.append(&mut x); }
''')
R = __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
def flush(name):
    open(R + '/verus/%s.vu' % name, 'w').write('\n'.join(o) + '\n'); o.clear()
w('}'); flush('bytes_common')
for U, t, b in W:
    w('// Generated by tools/gen_bytes.py\n//@use bytes_common.vu')
    w('verus! {')
    n = b // 8
    terms = lambda pfx, suf, order: ' | '.join('((%s[%d]%s as %s) << %d)' % (pfx, order(j), suf, t, 8*j) if (j or 1) else '' for j in range(n))
    le, be = (lambda j: j), (lambda j: n-1-j)
    w('// ---- %s' % U)
    w('pub open spec fn ule_%s(s: VSeq<u8>) -> %s { %s }' % (t, t, terms('s','',le)))
    w('pub open spec fn ube_%s(s: VSeq<u8>) -> %s { %s }' % (t, t, terms('s','',be)))
    w('pub open spec fn frle_%s(s: VSeq<U8>) -> %s { %s }' % (t, t, terms('s','.0',le)))
    w('pub open spec fn frbe_%s(s: VSeq<U8>) -> %s { %s }' % (t, t, terms('s','.0',be)))
    w('pub open spec fn le_%s(x: %s) -> VSeq<U8> { VSeq::new(%d, |j: int| U8((x >> ((8 * j) as %s)) as u8)) }' % (t, t, n, t))
    w('pub open spec fn be_%s(x: %s) -> VSeq<U8> { VSeq::new(%d, |j: int| U8((x >> ((%d - 8 * j) as %s)) as u8)) }' % (t, t, n, b-8, t))
    w('pub open spec fn swap_%s(x: %s) -> %s { %s }' % (t, t, t, ' | '.join('(((x >> %d) & 0xff) << %d)' % (8*(n-1-j), 8*j) for j in range(n))))
    w('''/// transmute of an array of bytes: native byte order, little endian on this target
#[verifier::external_body]
pub fn from_ne_%(t)s(b: [u8; %(n)d]) -> (r: %(t)s)
    ensures r == ule_%(t)s(b@)
{ unsafe { std::mem::transmute(b) } }
#[verifier::external_body]
pub fn to_ne_%(t)s(x: %(t)s) -> (r: [u8; %(n)d])
    ensures forall|j: int| 0 <= j < %(n)d ==> #[trigger] r@[j] == (x >> ((8 * j) as %(t)s)) as u8
{ unsafe { std::mem::transmute(x) } }
#[verifier::external_body]
pub fn to_le_%(t)s(x: %(t)s) -> (r: %(t)s) ensures r == x { x.to_le() }
#[verifier::external_body]
pub fn to_be_%(t)s(x: %(t)s) -> (r: %(t)s) ensures r == swap_%(t)s(x) { x.to_be() }
''' % dict(t=t, n=n))
    args = ', '.join('b%d: u8' % j for j in range(n))
    mk = lambda order: ' | '.join('((b%d as %s) << %d)' % (order(j), t, 8*j) for j in range(n))
    w('proof fn lemma_swap_%s(%s)' % (t, args))
    w('    ensures swap_%s(%s) == (%s)' % (t, mk(le), mk(be)))
    w('{ let a = %s; assert((%s) == (%s)) by (bit_vector) requires a == (%s); }' % (mk(le), ' | '.join('(((a >> %d) & 0xff) << %d)' % (8*(n-1-j), 8*j) for j in range(n)), mk(be), mk(le)))
    w('/// byte j of the swapped integer')
    w('proof fn lemma_swap_byte_%s(x: %s)' % (t, t))
    w('    ensures forall|j: int| #![trigger be_%s(x)[j]] 0 <= j < %d ==> (swap_%s(x) >> ((8 * j) as %s)) as u8 == (x >> ((%d - 8 * j) as %s)) as u8' % (t, n, t, t, b-8, t))
    w('{')
    for j in range(n):
        w('    assert(((%s) >> %d) as u8 == (x >> %d) as u8) by (bit_vector);' % (' | '.join('(((x >> %d) & 0xff) << %d)' % (8*(n-1-i), 8*i) for i in range(n)), 8*j, b-8-8*j))
    w('    assert forall|j: int| #![trigger be_%s(x)[j]] 0 <= j < %d implies (swap_%s(x) >> ((8 * j) as %s)) as u8 == (x >> ((%d - 8 * j) as %s)) as u8 by {' % (t, n, t, t, b-8, t))
    w('        ' + ' else '.join('if j == %d { }' % j for j in range(n)))
    w('    }')
    w('}')
    from_to(U, t, b, t)
    for e in ('le', 'be'):
        w('pub open spec fn concat_%s_%s(s: VSeq<%s>) -> VSeq<U8> decreases s.len() { if s.len() == 0 { VSeq::empty() } else { concat_%s_%s(s.drop_last()) + %s_%s(s.last().0) } }' % (e, t, U, e, t, e, t))
    w('}'); flush('bytes_' + t)
open(R + '/verus/bytes.vu', 'w').write('' + ''.join('//@use bytes_%s.vu\n' % t for _, t, _ in W))

# ---------------------------------------------------------------- S04 only
o.clear()
w('// Generated by tools/gen_bytes.py: the signed types, the rejections and the inverse (S04).')
w('verus! {')
for U, t, b in W:
    n = b // 8
    I, i = 'I' + U[1:], 'i' + t[1:]
    w('''#[derive(Clone, Copy)]
pub struct %(I)s(pub %(i)s);
pub proof fn cast_%(t)s(x: %(t)s) ensures (x as %(i)s) as %(t)s == x
{ assert((x as %(i)s) as %(t)s == x) by (bit_vector); }
pub proof fn cast_%(i)s(x: %(i)s) ensures (x as %(t)s) as %(i)s == x
{ assert((x as %(t)s) as %(i)s == x) by (bit_vector); }
#[verifier::external_body]
pub fn from_ne_%(i)s(b: [u8; %(n)d]) -> (r: %(i)s)
    ensures r == ule_%(t)s(b@) as %(i)s
{ unsafe { std::mem::transmute(b) } }
#[verifier::external_body]
pub fn to_ne_%(i)s(x: %(i)s) -> (r: [u8; %(n)d])
    ensures forall|j: int| 0 <= j < %(n)d ==> #[trigger] r@[j] == ((x as %(t)s) >> ((8 * j) as %(t)s)) as u8
{ unsafe { std::mem::transmute(x) } }
#[verifier::external_body]
pub fn to_le_%(i)s(x: %(i)s) -> (r: %(i)s) ensures r == x { x.to_le() }
#[verifier::external_body]
pub fn to_be_%(i)s(x: %(i)s) -> (r: %(i)s) ensures r == swap_%(t)s(x as %(t)s) as %(i)s { x.to_be() }
//@source secret_integers
impl %(I)s {
//@fn %(I)s::classify
//@rewrite <T: Into<%(i)s>> ==>
//@rewrite x: T ==> x: %(i)s
//@rewrite x.into() ==> x
//@spec
    ensures r.0 == x
//@end
//@fn %(I)s::declassify
//@spec
    ensures r == self.0
//@end
}''' % dict(I=I, i=i, t=t, n=n))
    from_to(I, i, b, t)
    from_to(U, t, b, t, True)
    from_to(I, i, b, t, True)
    for V, v, cast in ((U, t, ''), (I, i, ' as ' + t)):
        for e in ('le', 'be'):
            if V == I: w('pub open spec fn concat_%s_%s(s: VSeq<%s>) -> VSeq<U8> decreases s.len() { if s.len() == 0 { VSeq::empty() } else { concat_%s_%s(s.drop_last()) + %s_%s(s.last().0%s) } }' % (e, v, V, e, v, e, t, cast))
            order = (lambda j: j) if e == 'le' else (lambda j: n - 1 - j)
            sh = lambda j, x: '(%s << %d)' % (x, 8 * j)
            bv = ' | '.join(sh(j, '((x >> %d) as u8 as %s)' % (8 * j, t)) for j in range(n))
            byt = ', '.join('b%d: u8' % j for j in range(n))
            comb = ' | '.join(sh(j, '(b%d as %s)' % (order(j), t)) for j in range(n))
            w('''/// the two conversions are inverse of each other
proof fn lemma_inv_%(e)s_%(v)s(s: VSeq<%(V)s>)
    ensures concat_%(e)s_%(v)s(s).len() == %(n)d * s.len(),
        forall|k: int| 0 <= k < s.len() ==> #[trigger] concat_%(e)s_%(v)s(s).subrange(%(n)d * k, %(n)d * k + %(n)d) == %(e)s_%(t)s(s[k].0%(cast)s)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_inv_%(e)s_%(v)s(s.drop_last());
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] concat_%(e)s_%(v)s(s).subrange(%(n)d * k, %(n)d * k + %(n)d) == %(e)s_%(t)s(s[k].0%(cast)s) by {
            if k < s.len() - 1 {
                assert(concat_%(e)s_%(v)s(s).subrange(%(n)d * k, %(n)d * k + %(n)d) =~= concat_%(e)s_%(v)s(s.drop_last()).subrange(%(n)d * k, %(n)d * k + %(n)d));
                assert(s.drop_last()[k] == s[k]);
            } else {
                assert(concat_%(e)s_%(v)s(s).subrange(%(n)d * k, %(n)d * k + %(n)d) =~= %(e)s_%(t)s(s[k].0%(cast)s));
            }
        }
    }
}
proof fn lemma_one_%(e)s_%(v)s(x: %(t)s)
    ensures fr%(e)s_%(t)s(%(e)s_%(t)s(x)) == x
{
    let s = %(e)s_%(t)s(x);
    %(each)s
    assert((%(bv)s) == x) by (bit_vector);
}
pub fn roundtrip_%(e)s_%(v)s(ints: &[%(V)s]) -> (r: Vec<%(V)s>)
    requires ints@.len() * %(n)d <= usize::MAX
    ensures r@ == ints@
{
    let bytes = %(V)s::to_%(e)s_bytes(ints);
    proof { lemma_inv_%(e)s_%(v)s(ints@); }
    let r = %(V)s::from_%(e)s_bytes(bytes.as_slice());
    proof {
        assert forall|k: int| 0 <= k < ints@.len() implies r@[k] == ints@[k] by {
            assert(bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d) == %(e)s_%(t)s(ints@[k].0%(cast)s));
            lemma_one_%(e)s_%(v)s(ints@[k].0%(cast)s);
            %(castlema)s
            assert(r@[k] == %(V)s(fr%(e)s_%(t)s(bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d))%(scast)s));
        }
        assert(r@ =~= ints@);
    }
    r
}
proof fn lemma_bytes_%(e)s_%(v)s(s: VSeq<U8>)
    requires s.len() == %(n)d
    ensures %(e)s_%(t)s(fr%(e)s_%(t)s(s)) == s
{
    %(decl)s
    let x: %(t)s = %(comb)s;
    %(each2)s
    assert(%(e)s_%(t)s(fr%(e)s_%(t)s(s)) =~= s);
}
pub fn roundtrip2_%(e)s_%(v)s(bytes: &[U8]) -> (r: Vec<U8>)
    requires bytes@.len() %% %(n)d == 0
    ensures r@ == bytes@
{
    let ints = %(V)s::from_%(e)s_bytes(bytes);
    let r = %(V)s::to_%(e)s_bytes(ints.as_slice());
    proof {
        lemma_inv_%(e)s_%(v)s(ints@);
        assert(r@.len() == bytes@.len());
        assert forall|m: int| 0 <= m < bytes@.len() implies r@[m] == bytes@[m] by {
            let k = m / %(n)d; let j = m %% %(n)d;
            assert(%(n)d * k + j == m && 0 <= k < ints@.len());
            assert(ints@[k] == %(V)s(fr%(e)s_%(t)s(bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d))%(scast)s));
            lemma_bytes_%(e)s_%(v)s(bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d));
            %(castlemb)s
            assert(r@.subrange(%(n)d * k, %(n)d * k + %(n)d)[j] == bytes@.subrange(%(n)d * k, %(n)d * k + %(n)d)[j]);
        }
        assert(r@ =~= bytes@);
    }
    r
}
''' % dict(e=e, v=v, V=V, t=t, n=n, cast=cast, scast=' as ' + v if cast else '', castlema='cast_%s(ints@[k].0);' % v if cast else '', castlemb='cast_%s(fr%s_%s(bytes@.subrange(%d * k, %d * k + %d)));' % (t, e, t, n, n, n) if cast else '', bv=bv, comb=comb,
           each=' '.join('assert(s[%d].0 == (x >> %d) as u8);' % (j, 8 * order(j)) for j in range(n)) if n > 1 else 'assert((x >> 0u8) == x) by (bit_vector); assert((8 * 0) as u8 == 0u8); assert(s[0].0 == x); assert(((x as u8) << 0) == x) by (bit_vector);',
           decl=' '.join('let b%d = s[%d].0;' % (j, j) for j in range(n)),
           each2=('assert(((b0 as u8) << 0) == b0) by (bit_vector); assert((b0 >> 0u8) == b0) by (bit_vector); assert((8 * 0) as u8 == 0u8);' if n == 1 else '') + ' '.join('assert(((%s) >> %d) as u8 == b%d) by (bit_vector);' % (comb, 8 * order(j), j) for j in range(n)) ))
w('}')
open(R + '/verus/bytes_s04.vu', 'w').write('\n'.join(o) + '\n')
