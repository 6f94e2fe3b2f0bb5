#!/usr/bin/env python3
"""Writes verus/words.vu (H07: words, byte arrays, byte sequences) and verus/vec.vu (H08: element-wise operators)."""
import os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = []
w = o.append
W = [('U16','u16',16),('U32','u32',32),('U64','u64',64),('U128','u128',128)]
def flush(name):
    open(R + '/verus/%s.vu' % name, 'w').write('\n'.join(o) + '\n'); o.clear()
w('// Generated by tools/gen_words.py: words and byte arrays (H07).')
w('//@use bytes_common.vu\nverus! {')
w('//@source src:hacspec/src/lib.rs')
w('//@aliases')
w('global size_of U8 == 1;')
w('''/// number of pieces of slice::chunks
pub fn chunks_num(len: usize, k: usize) -> (r: usize)
    requires k > 0
    ensures r == (len + k - 1) / (k as int)
{
    proof { assert(len == k * (len as int / k as int) + len as int % k as int && 0 <= len as int % k as int && (len as int % k as int) < k) by (nonlinear_arith) requires k > 0;
      let q = len as int / k as int; let m = len as int % k as int;
      assert((len + k - 1) / (k as int) == q + (if m == 0 { 0int } else { 1int })) by (nonlinear_arith) requires len == k * q + m, 0 <= m < k, k > 0;
      assert(m != 0 ==> q < usize::MAX) by (nonlinear_arith) requires len == k * q + m, 0 <= m < k, k > 0, len <= usize::MAX; }
    if len % k == 0 { len / k } else { len / k + 1 }
}''')
w('}')
flush('words_common')
for U, t, b in [('U8', 'u8', 8)] + W:
    n = b // 8
    w('// Generated by tools/gen_words.py')
    w('//@use bytes_%s.vu\n//@use words_common.vu\nverus! {' % t)
    if b > 8: w('global size_of %s == %d;' % (U, n))
    for e in ('le', 'be'):
        w('pub open spec fn flat_%(e)s_%(t)s(s: VSeq<%(U)s>) -> VSeq<U8> { VSeq::new((%(n)d * s.len()) as nat, |m: int| %(e)s_%(t)s(s[m / %(n)d].0)[m %% %(n)d]) }' % dict(e=e, t=t, U=U, n=n))
        w('''pub proof fn lemma_one_concat_%(e)s_%(t)s(x: %(U)s)
    ensures concat_%(e)s_%(t)s(seq![x]) =~= %(e)s_%(t)s(x.0)
{ let s = seq![x]; assert(s.drop_last() =~= VSeq::<%(U)s>::empty()); assert(concat_%(e)s_%(t)s(s.drop_last()) =~= VSeq::<U8>::empty()); assert(s.last() == x); }''' % dict(e=e, t=t, U=U))
    if b > 8:
        d = dict(U=U, t=t, n=n, b=b)
        w('//@source hacspec')
        for e in ('le', 'be'):
            d['e'] = e
            w('''//@fn %(U)s_to_%(e)s_bytes
//@rewrite &[x] ==> vstd::array::array_as_slice(&[x])
//@spec
    ensures r.sv() == %(e)s_%(t)s(x.0)
//@at start
    proof { lemma_one_concat_%(e)s_%(t)s(x); assert([x]@ =~= seq![x]); }
//@end
//@fn %(U)s_from_%(e)s_bytes
//@rewrite &s.0 ==> vstd::array::array_as_slice(&s.0)
//@spec
    ensures r == %(U)s(fr%(e)s_%(t)s(s.sv()))
//@at ret
    proof { assert(s.0@.subrange(0, %(n)d) =~= s.0@); }
//@end''' % d)
            # public words
            w('''/// %(t)s::to_%(e)s_bytes and from_%(e)s_bytes of std, checked by Kani (kani/src/h/stdlib.rs)
#[verifier::external_body]
pub fn std_to_%(e)s_%(t)s(x: %(t)s) -> (r: [u8; %(n)d])
    ensures forall|j: int| 0 <= j < %(n)d ==> #[trigger] r@[j] == %(e)s_%(t)s(x)[j].0
{ x.to_%(e)s_bytes() }
#[verifier::external_body]
pub fn std_from_%(e)s_%(t)s(x: [u8; %(n)d]) -> (r: %(t)s)
    ensures r == u%(e)s_%(t)s(x@)
{ %(t)s::from_%(e)s_bytes(x) }
//@fn %(t)s_to_%(e)s_bytes
//@rewrite %(t)s::to_%(e)s_bytes(x) ==> std_to_%(e)s_%(t)s(x)
//@spec
    ensures r.sv().len() == %(n)d, forall|j: int| 0 <= j < %(n)d ==> #[trigger] r.sv()[j] == %(e)s_%(t)s(x)[j].0
//@end
//@fn %(t)s_from_%(e)s_bytes
//@rewrite %(t)s::from_%(e)s_bytes(s.0) ==> std_from_%(e)s_%(t)s(s.0)
//@spec
    ensures r == u%(e)s_%(t)s(s.sv())
//@end''' % d)
    w('//@source host subst 7919 => L')
    w('impl<const L: usize> Arr<%s, L> {' % U)
    for e in ('le', 'be'):
        w('''//@fn Arr%(U)s::to_%(e)s_bytes
//@rewrite const FACTOR: usize = core::mem::size_of::<%(U)s>(); ==> let FACTOR: usize = core::mem::size_of::<%(U)s>();
//@rewrite &[tmp] ==> vstd::array::array_as_slice(&[tmp])
//@spec
    requires L * %(n)d <= usize::MAX
    ensures r.sv() == flat_%(e)s_%(t)s(self.sv())
//@loop 0
    invariant FACTOR == %(n)d, L * %(n)d <= usize::MAX, out.sv().len() == L * %(n)d, forall|m: int| 0 <= m < i * %(n)d ==> #[trigger] out.b@[m] == %(e)s_%(t)s(self.0@[m / %(n)d].0)[m %% %(n)d]
//@loop 1
    invariant FACTOR == %(n)d, i < L, L * %(n)d <= usize::MAX, out.sv().len() == L * %(n)d, tmp@ == %(e)s_%(t)s(self.0@[i as int].0), forall|m: int| 0 <= m < i * %(n)d + j ==> #[trigger] out.b@[m] == %(e)s_%(t)s(self.0@[m / %(n)d].0)[m %% %(n)d]
//@at loop 1 before
    proof { lemma_one_concat_%(e)s_%(t)s(self.0@[i as int]); assert([self.0@[i as int]]@ =~= seq![self.0@[i as int]]); }
//@at end
    proof { assert(out.sv() =~= flat_%(e)s_%(t)s(self.sv())); }
//@end''' % dict(U=U, t=t, n=n, e=e))
    pub = ''
    w('''//@fn Arr%(U)s::from_public_slice
//@rewrite $v:id[..].iter().map(|x| $body).collect::<Vec<%(U)s>>() ==> { let mut out_: Vec<%(U)s> = Vec::new(); for q_ in 0..$v.len() { let x = &$v[q_]; out_.push($body); } out_ }
//@rewrite? ArrU8 ==> Self
//@rewrite? Arr%(U)s ==> Self
//@spec
    requires v@.len() == L
    ensures r.sv() == VSeq::new(v@.len(), |i: int| %(U)s(v@[i]))
//@loop 0
    invariant out_@.len() == q_, forall|j: int| 0 <= j < q_ ==> #[trigger] out_@[j] == %(U)s(v@[j])
//@at ret
    proof { assert(ret_.sv() =~= VSeq::new(v@.len(), |i: int| %(U)s(v@[i]))); }
//@end
//@fn Arr%(U)s::from_public_array
//@rewrite $v:id[..].iter().map(|x| $body).collect::<Vec<%(U)s>>() ==> { let mut out_: Vec<%(U)s> = Vec::new(); for q_ in 0..$v.len() { let x = &$v[q_]; out_.push($body); } out_ }
//@rewrite? Arr%(U)s ==> Self
//@spec
    ensures r.sv() == VSeq::new(v@.len(), |i: int| %(U)s(v@[i]))
//@loop 0
    invariant out_@.len() == q_, v@.len() == L, forall|j: int| 0 <= j < q_ ==> #[trigger] out_@[j] == %(U)s(v@[j])
//@at ret
    proof { assert(ret_.sv() =~= VSeq::new(v@.len(), |i: int| %(U)s(v@[i]))); }
//@end''' % dict(U=U))
    w('}')
    if b > 16:
        w('''/// to_array: Default then copy_from_slice, of %(n)d bytes
#[verifier::external_body]
pub fn to_array_%(n)d(s: &[u8]) -> (r: [u8; %(n)d])
    requires s@.len() == %(n)d
    ensures r@ == s@
{ let mut a = <[u8; %(n)d]>::default(); a.copy_from_slice(s); a }''' % dict(n=n))
        for A, sec in (('ArrU8', True), ('ArrP8', False)):
            w('//@source host subst 7919 => L')
            w('impl<const L: usize> Arr<%s, L> {' % ('U8' if sec else 'u8'))
            for e in ('le', 'be'):
                E = U if sec else t
                name = 'to_%s_%ss' % (e, E) if b < 128 else 'to_%ss_%s' % (E, e)
                val = '%s(fr%s_%s(%%s))' % (U, e, t) if sec else 'u%s_%s(%%s)' % (e, t)
                w('''//@fn %(A)s::%(name)s
//@rewrite for (i, block) in self.0.chunks(%(n)d).enumerate() { ==> for i in 0..chunks_num(L, %(n)d) { let block = chunk_at(vstd::array::array_as_slice(&self.0), i * %(n)d, %(n)d);
%(rw)s
//@spec
    requires L %% %(n)d == 0
    ensures r.sv().len() == L / %(n)d, forall|k: int| 0 <= k < L / %(n)d ==> #[trigger] r.sv()[k] == %(val)s
//@loop 0
    invariant L %% %(n)d == 0, out.sv().len() == L / %(n)d, forall|k: int| 0 <= k < i ==> #[trigger] out.b@[k] == %(val)s
//@at loop 0 start
    proof { assert(upd(zeros::<%(E8)s>(%(n)d), 0, self.0@.subrange(%(n)d * i, %(n)d * i + %(n)d)) =~= self.0@.subrange(%(n)d * i, %(n)d * i + %(n)d)); }
//@end''' % dict(A=A, name=name, n=n, U=U, t=t, e=e, E8='U8' if sec else 'u8', val=val % ('self.sv().subrange(%d * k, %d * k + %d)' % (n, n, n)),
                   rw='' if sec else '//@rewrite %s::from_%s_bytes(to_array(block)) ==> std_from_%s_%s(to_array_%d(block))' % (t, e, e, t, n)))
            w('}')
    if b == 8:
        w('''//@source hacspec
impl Seq<U8> {
//@fn Seq<U8>::from_public_slice
//@rewrite $v:id[..].iter().map(|x| $body).collect::<Vec<U8>>() ==> { let mut out_: Vec<U8> = Vec::new(); for q_ in 0..$v.len() { let x = &$v[q_]; out_.push($body); } out_ }
//@spec
    ensures r.sv() == VSeq::new(v@.len(), |i: int| U8(v@[i]))
//@loop 0
    invariant out_@.len() == q_, forall|j: int| 0 <= j < q_ ==> #[trigger] out_@[j] == U8(v@[j])
//@at ret
    proof { assert(ret_.sv() =~= VSeq::new(v@.len(), |i: int| U8(v@[i]))); }
//@end
}''')
    w('}')
    flush('words_' + t)
open(R + '/verus/words.vu', 'w').write(''.join('//@use words_%s.vu\n' % t for _, t, _ in [('U8', 'u8', 8)] + W))

o.clear()
for U, t, b in [('U8', 'u8', 8)] + W:
    w('// Generated by tools/gen_words.py: element-wise operators of fixed-length arrays (H08).')
    w('verus! {')
    w('//@source host subst 7919 => L')
    for sec in (True, False):
        E = U if sec else t
        A = 'Arr' + (U if sec else 'P' + str(b))
        for op, tr, f in (('add', 'Add', 'wadd'), ('sub', 'Sub', 'wsub'), ('bitxor', 'BitXor', None)) + ((('mul', 'Mul', 'wmul'),) if sec else ()):
            x, y = ('self.sv()[j].0', 'rhs.sv()[j].0') if sec else ('self.sv()[j]', 'rhs.sv()[j]')
            val = '%s_%s(%s, %s)' % (f, t, x, y) if f else '(%s ^ %s)' % (x, y)
            if sec: val = '%s(%s)' % (U, val)
            w('''impl<const L: usize> %(tr)s for Arr<%(E)s, L> {
    type Output = Arr<%(E)s, L>;
//@fn <%(A)s as %(tr)s>::%(op)s
//@rewrite? %(A)s ==> Arr<%(E)s, L>
%(rw)s
//@spec
    ensures r.sv() == VSeq::new(L as nat, |j: int| %(val)s)
//@loop 0
    invariant forall|j: int| 0 <= j < i ==> #[trigger] out.0@[j] == %(val)s
//@at end
    proof { assert(out.sv() =~= VSeq::new(L as nat, |j: int| %(val)s)); }
//@end
}
impl<const L: usize> %(tr)sSpecImpl<Arr<%(E)s, L>> for Arr<%(E)s, L> {
    open spec fn obeys_%(op)s_spec() -> bool { false }
    open spec fn %(op)s_req(self, rhs: Arr<%(E)s, L>) -> bool { true }
    open spec fn %(op)s_spec(self, rhs: Arr<%(E)s, L>) -> Arr<%(E)s, L> { arbitrary() }
}''' % dict(tr=tr, E=E, A=A, op=op, val=val, rw=''))
    w('}')
    flush('vec_' + t)
open(R + '/verus/vec.vu', 'w').write(''.join('//@use vec_%s.vu\n' % t for _, t, _ in [('U8', 'u8', 8)] + W))
