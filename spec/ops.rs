// ================================================================ sums and multiples of nested vectors (templates.hpp)
pub open spec fn scaled_r1(a: Seq<R>, x: real, r: Seq<R>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] r[i]).v() == a[i].v() * x }
pub open spec fn added_r1(a: Seq<R>, b: Seq<R>, r: Seq<R>) -> bool { r.len() == a.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] r[i]).v() == a[i].v() + b[i].v() }
pub open spec fn small_r2(a: Vec<Vec<R>>) -> bool { a@.len() <= 0xffff_ffff && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@.len() <= 0xffff_ffff }
pub open spec fn covers_r2(a: Vec<Vec<R>>, b: Vec<Vec<R>>) -> bool { b@.len() >= a@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] b@[i])@.len() >= a@[i]@.len() }
pub open spec fn scaled_r2(a: Vec<Vec<R>>, x: real, r: Vec<Vec<R>>) -> bool { r@.len() == a@.len() && (forall|i: int| 0 <= i < a@.len() ==> (#[trigger] r@[i])@.len() == a@[i]@.len()) && forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < a@[i]@.len() ==> #[trigger] at_r2(r, i, j) == at_r2(a, i, j) * x }
pub open spec fn added_r2(a: Vec<Vec<R>>, b: Vec<Vec<R>>, r: Vec<Vec<R>>) -> bool { r@.len() == a@.len() && (forall|i: int| 0 <= i < a@.len() ==> (#[trigger] r@[i])@.len() == a@[i]@.len()) && forall|i: int, j: int| 0 <= i < a@.len() && 0 <= j < a@[i]@.len() ==> #[trigger] at_r2(r, i, j) == at_r2(a, i, j) + at_r2(b, i, j) }
// operator* and operator+ as their callers see them: the contracts of the extracted operators (contracts/varf.vc, proved in unit ops)
#[verifier::external_body] pub fn vec_scale(a: &Vec<R>, x: R) -> (r: Vec<R>) requires a@.len() <= 0xffff_ffff ensures scaled_r1(a@, x.v(), r@) { unimplemented!() }
#[verifier::external_body] pub fn vec_add(a: &Vec<R>, b: &Vec<R>) -> (r: Vec<R>) requires a@.len() <= b@.len(), a@.len() <= 0xffff_ffff ensures added_r1(a@, b@, r@) { unimplemented!() }
#[verifier::external_body] pub fn mat_scale(a: &Vec<Vec<R>>, x: R) -> (r: Vec<Vec<R>>) requires small_r2(*a) ensures scaled_r2(*a, x.v(), r) { unimplemented!() }
#[verifier::external_body] pub fn mat_add(a: &Vec<Vec<R>>, b: &Vec<Vec<R>>) -> (r: Vec<Vec<R>>) requires small_r2(*a), covers_r2(*a, *b) ensures added_r2(*a, *b, r) { unimplemented!() }
