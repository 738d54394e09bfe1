// ================================================================ double*: a position o() in a block of doubles d()
#[verifier::external_body]
pub struct PtrF64 { x: u8 }
impl PtrF64 {
    pub uninterp spec fn d(&self) -> Seq<real>;
    pub uninterp spec fn o(&self) -> int;
    pub uninterp spec fn live(&self) -> bool;
    pub open spec fn ok(&self, i: int) -> bool { self.live() && 0 <= self.o() + i < self.d().len() }
    pub open spec fn at(&self, i: int) -> real { self.d()[self.o() + i] }
}
// malloc (assumed to succeed; the contents are arbitrary), free, reads and writes within the block
#[verifier::external_body] pub fn ptr_alloc(bytes: usize) -> (r: PtrF64) ensures r.live(), r.o() == 0, r.d().len() == bytes / 8 { unimplemented!() }
#[verifier::external_body] pub fn ptr_free(p: &mut PtrF64) requires old(p).live(), old(p).o() == 0 ensures !final(p).live() { unimplemented!() }
#[verifier::external_body] pub fn ptr_get(p: &PtrF64, i: i64) -> (r: R) requires p.ok(i as int) ensures r.v() == p.at(i as int) { unimplemented!() }
#[verifier::external_body] pub fn ptr_set(p: &mut PtrF64, i: i64, v: R) requires old(p).ok(i as int) ensures final(p).live(), final(p).o() == old(p).o(), final(p).d() == old(p).d().update(old(p).o() + i, v.v()) { unimplemented!() }
