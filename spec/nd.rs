// ================================================================ numpy arrays of float64 as seen through Boost.NumPy
// reported by an exception: nothing is returned to the caller
#[verifier::external_body] pub fn cthrow<T>() -> (r: T) ensures false { std::process::exit(1) }
#[verifier::external_body] pub fn ptr_add(p: &PtrF64, k: i64) -> (r: PtrF64) ensures r.d() == p.d(), r.o() == p.o() + k, r.live() == p.live() { unimplemented!() }
#[verifier::external_body] pub fn vec_from_range(a: &PtrF64, b: &PtrF64) -> (r: Vec<R>) requires a.d() == b.d(), a.live(), a.o() <= b.o(), a.o() < b.o() ==> 0 <= a.o() && b.o() <= a.d().len()
    ensures r@.len() == b.o() - a.o(), forall|j: int| 0 <= j < r@.len() ==> (#[trigger] r@[j]).v() == a.at(j) { unimplemented!() }
#[verifier::external_body] pub fn vec_data(v: &Vec<R>) -> (r: PtrF64) ensures r.live(), r.o() == 0, r.d() == vals(v@) { unimplemented!() }
pub open spec fn vals(s: Seq<R>) -> Seq<real> { Seq::new(s.len(), |j: int| s[j].v()) }
#[verifier::external_body]
pub struct PtrI64 { x: u8 }
impl PtrI64 { pub uninterp spec fn s(&self) -> Seq<int>; }
#[verifier::external_body] pub fn ptri_get(p: &PtrI64, i: usize) -> (r: i64) requires i < p.s().len(), -0x8000_0000_0000_0000 <= p.s()[i as int] <= 0x7fff_ffff_ffff_ffff ensures r == p.s()[i as int] { unimplemented!() }
// ndarray: shape, strides in bytes, address of the element (0, ..., 0), whether the buffer belongs to it
#[verifier::external_body]
pub struct NdArray { x: u8 }
impl NdArray {
    pub uninterp spec fn shape(&self) -> Seq<int>;
    pub uninterp spec fn strides(&self) -> Seq<int>;
    pub uninterp spec fn ptr(&self) -> PtrF64;
    pub uninterp spec fn owned(&self) -> bool;
    // element (i, j) of a matrix, element i of a vector
    pub open spec fn off2(&self, i: int, j: int) -> int { boff(i, j, self.strides()[0], self.strides()[1]) }
    pub open spec fn at2(&self, i: int, j: int) -> real { self.ptr().at(self.off2(i, j)) }
    pub open spec fn at1(&self, i: int) -> real { self.ptr().at(boff1(i, self.strides()[0])) }
}
// a valid float64 array: dimensions and strides as numpy makes them (strides are multiples of 8 bytes and below 2^31), every element inside a live buffer
pub open spec fn nd_ok(a: NdArray) -> bool {
    &&& a.shape().len() == a.strides().len() && a.shape().len() <= 32
    &&& forall|q: int| 0 <= q < a.shape().len() ==> 0 <= #[trigger] a.shape()[q] < 0x8000_0000
    &&& forall|q: int| 0 <= q < a.shape().len() ==> -0x8000_0000 < #[trigger] a.strides()[q] < 0x8000_0000 && a.strides()[q] % 8 == 0
    &&& a.ptr().live()
    &&& a.shape().len() == 2 ==> forall|i: int, j: int| 0 <= i < a.shape()[0] && 0 <= j < a.shape()[1] ==> a.ptr().ok(#[trigger] a.off2(i, j))
}
pub open spec fn nd_is(a: NdArray, n: int, m: int) -> bool { a.owned() && a.shape() =~= seq![n, m] && nd_ok(a) }
#[verifier::external_body] pub fn nd_get_nd(a: &NdArray) -> (r: i32) requires a.shape().len() <= 32 ensures r == a.shape().len() { unimplemented!() }
#[verifier::external_body] pub fn nd_get_shape(a: &NdArray) -> (r: PtrI64) ensures r.s() == a.shape() { unimplemented!() }
#[verifier::external_body] pub fn nd_get_strides(a: &NdArray) -> (r: PtrI64) ensures r.s() == a.strides() { unimplemented!() }
#[verifier::external_body] pub fn nd_get_data(a: &NdArray) -> (r: PtrF64) ensures r == a.ptr() { unimplemented!() }
// tuples of Python integers, the float64 dtype, None
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PTuple { x: u8 }
impl PTuple { pub uninterp spec fn s(&self) -> Seq<int>; }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PDtype { x: u8 }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct PyObj { x: u8 }
#[verifier::external_body] pub fn pt_nil() -> (r: PTuple) ensures r.s() == Seq::<int>::empty() { unimplemented!() }
#[verifier::external_body] pub fn pt_add_i64(t: PTuple, x: i64) -> (r: PTuple) ensures r.s() == t.s().push(x as int) { unimplemented!() }
#[verifier::external_body] pub fn pd_double() -> PDtype { unimplemented!() }
#[verifier::external_body] pub fn py_none() -> PyObj { unimplemented!() }
#[verifier::external_body] pub fn nd_zeros(shape: PTuple, d: PDtype) -> (r: NdArray) requires shape.s().len() == 2, 0 <= shape.s()[0] < 0x8000_0000, 0 <= shape.s()[1] < 0x1000_0000
    ensures nd_is(r, shape.s()[0], shape.s()[1]), forall|i: int, j: int| 0 <= i < shape.s()[0] && 0 <= j < shape.s()[1] ==> #[trigger] r.at2(i, j) == 0real { unimplemented!() }
// a view of foreign memory: every element of the view must lie in the buffer
#[verifier::external_body] pub fn nd_from_data(p: &PtrF64, d: PDtype, shape: PTuple, strides: PTuple, own: PyObj) -> (r: NdArray)
    requires p.live(), shape.s().len() == strides.s().len(), shape.s().len() == 1 || shape.s().len() == 2, forall|q: int| 0 <= q < shape.s().len() ==> 0 <= #[trigger] shape.s()[q] && strides.s()[q] % 8 == 0,
        shape.s().len() == 1 ==> forall|i: int| 0 <= i < shape.s()[0] ==> p.ok(#[trigger] boff1(i, strides.s()[0])),
        shape.s().len() == 2 ==> forall|i: int, j: int| 0 <= i < shape.s()[0] && 0 <= j < shape.s()[1] ==> p.ok(#[trigger] boff(i, j, strides.s()[0], strides.s()[1])),
    ensures r.shape() == shape.s(), r.strides() == strides.s(), r.ptr() == *p, !r.owned() { unimplemented!() }
// converted[i] = row: numpy assignment of a vector to a row of the same length
#[verifier::external_body] pub fn nd_set_row(a: &mut NdArray, i: i64, b: NdArray) requires old(a).owned(), old(a).shape().len() == 2, 0 <= i < old(a).shape()[0], b.shape().len() == 1, b.shape()[0] == old(a).shape()[1]
    ensures final(a).owned(), final(a).shape() == old(a).shape(), final(a).strides() == old(a).strides(), nd_ok(*old(a)) ==> nd_ok(*final(a)),
        forall|s: int, t: int| 0 <= s < final(a).shape()[0] && 0 <= t < final(a).shape()[1] ==> #[trigger] final(a).at2(s, t) == (if s == i { b.at1(t) } else { old(a).at2(s, t) }) { unimplemented!() }
#[verifier::external_body] pub fn nd_copy(a: &NdArray) -> (r: NdArray) requires a.shape().len() == 2, a.ptr().live() ensures nd_is(r, a.shape()[0], a.shape()[1]), forall|i: int, j: int| 0 <= i < a.shape()[0] && 0 <= j < a.shape()[1] ==> #[trigger] r.at2(i, j) == a.at2(i, j) { unimplemented!() }
// ---------------------------------------------------------------- boost::multi_array<double, 2> (C storage order)
#[verifier::external_body]
pub struct CMat { x: u8 }
impl CMat {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn m(&self) -> int;
    pub uninterp spec fn at(&self, i: int, j: int) -> real;
}
#[verifier::external_body] pub fn cm_new(n: i64, m: i64) -> (r: CMat) requires n >= 0, m >= 0 ensures r.n() == n, r.m() == m { unimplemented!() }
#[verifier::external_body] pub fn cm_get(a: &CMat, i: i64, j: i64) -> (r: R) requires 0 <= i < a.n(), 0 <= j < a.m() ensures r.v() == a.at(i as int, j as int) { unimplemented!() }
#[verifier::external_body] pub fn cm_set(a: &mut CMat, i: i64, j: i64, v: R) requires 0 <= i < old(a).n(), 0 <= j < old(a).m()
    ensures final(a).n() == old(a).n(), final(a).m() == old(a).m(), forall|s: int, t: int| #[trigger] final(a).at(s, t) == (if s == i && t == j { v.v() } else { old(a).at(s, t) }) { unimplemented!() }
#[verifier::external_body]
pub struct PtrUsz { x: u8 }
impl PtrUsz { pub uninterp spec fn s(&self) -> Seq<int>; }
#[verifier::external_body] pub fn ptrz_get(p: &PtrUsz, i: usize) -> (r: usize) requires i < p.s().len(), 0 <= p.s()[i as int] <= 0xffff_ffff_ffff_ffff ensures r == p.s()[i as int] { unimplemented!() }
#[verifier::external_body] pub fn cm_shape(a: &CMat) -> (r: PtrUsz) ensures r.s() == seq![a.n(), a.m()] { unimplemented!() }
#[verifier::external_body] pub fn cm_strides(a: &CMat) -> (r: PtrI64) ensures r.s() == seq![a.m(), 1int] { unimplemented!() }
#[verifier::external_body] pub fn cm_data(a: &CMat) -> (r: PtrF64) ensures r.live(), forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.m() ==> r.ok(#[trigger] rmo(i, j, a.m())) && r.at(rmo(i, j, a.m())) == a.at(i, j) { unimplemented!() }
// ublas::matrix<double>: row-major by default
#[verifier::external_body] pub fn bm_data(a: &BMat) -> (r: PtrF64) ensures r.live(), forall|i: int, j: int| 0 <= i < a.n() && 0 <= j < a.m() ==> r.ok(#[trigger] rmo(i, j, a.m())) && r.at(rmo(i, j, a.m())) == a.at(i, j) { unimplemented!() }
// element positions from byte strides; row-major position
#[verifier::opaque]
pub open spec fn boff(i: int, j: int, s0: int, s1: int) -> int { i * (s0 / 8) + j * (s1 / 8) }
#[verifier::opaque]
pub open spec fn boff1(i: int, s: int) -> int { i * (s / 8) }
pub open spec fn rmo(i: int, j: int, m: int) -> int { i * m + j }
pub proof fn lemma_boff(m: int) ensures forall|i: int, j: int, s0: int| s0 == 8 * m ==> #[trigger] boff(i, j, s0, 8) == rmo(i, j, m), forall|i: int| #[trigger] boff1(i, 8) == i
{
    reveal(boff); reveal(boff1);
    assert forall|i: int, j: int, s0: int| s0 == 8 * m implies #[trigger] boff(i, j, s0, 8) == rmo(i, j, m) by { assert(s0 / 8 == m); lemma_mul_1(j); }
    assert forall|i: int| #[trigger] boff1(i, 8) == i by { lemma_mul_1(i); }
}
pub proof fn lemma_brow(i: int, s0: int) ensures forall|j: int| #[trigger] boff(i, j, s0, 8) == i * (s0 / 8) + j
{ reveal(boff); assert forall|j: int| #[trigger] boff(i, j, s0, 8) == i * (s0 / 8) + j by { lemma_mul_1(j); } }
pub proof fn lemma_mul_1(j: int) ensures j * (8int / 8int) == j { assert(8int / 8int == 1); }
pub proof fn lemma_i_sr(i: int, s: int) requires 0 <= i < 0x8000_0000, -0x1000_0000 < s < 0x1000_0000 ensures -0x800_0000_0000_0000 <= i * s <= 0x800_0000_0000_0000 { assert(-0x8000_0000 * 0x1000_0000 <= i * s <= 0x8000_0000 * 0x1000_0000) by(nonlinear_arith) requires 0 <= i < 0x8000_0000, -0x1000_0000 < s < 0x1000_0000; }
