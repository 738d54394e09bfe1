// ================================================================ functions sampled on a mapped tensor grid
// a user function: a real that depends on the coordinates only
#[verifier::external_body]
pub struct SFunc { x: u8 }
pub uninterp spec fn sapp(f: SFunc, x: Seq<real>) -> real;
#[verifier::external_body] pub fn sfunc_call(f: &SFunc, p: &PtrF64) -> (r: R) requires p.live(), p.o() == 0 ensures r.v() == sapp(*f, p.d()) { unimplemented!() }
// coordinate q of translation + dilation x (n terms of the row)
pub open spec fn aff(t: Seq<R>, b: Vec<Vec<R>>, x: Seq<real>, q: int, n: int) -> real decreases n { if n <= 0 { t[q].v() } else { aff(t, b, x, q, n - 1) + b@[q]@[n - 1].v() * x[n - 1] } }
pub open spec fn map_ok(t: Seq<R>, b: Vec<Vec<R>>) -> bool { t.len() < 0x1_0000_0000 && b@.len() >= t.len() && forall|q: int| 0 <= q < t.len() ==> (#[trigger] b@[q])@.len() >= t.len() }
pub open spec fn xs(nodes: Seq<Vec<R>>, g: MI) -> Seq<real> { Seq::new(nodes.len(), |q: int| nodes[q]@[g[q] as int].v()) }
pub open spec fn mapped(t: Seq<R>, b: Vec<Vec<R>>, x: Seq<real>) -> Seq<real> { Seq::new(t.len(), |q: int| aff(t, b, x, q, t.len() as int)) }
pub open spec fn vpts(nodes: Seq<Vec<R>>) -> MI { Seq::new(nodes.len(), |q: int| nodes[q]@.len() as u32) }
pub open spec fn ds_ok(nodes: Seq<Vec<R>>) -> bool { grid_ok(vpts(nodes)) && forall|q: int| 0 <= q < nodes.len() ==> (#[trigger] nodes[q])@.len() <= 0x7fff_ffff }
pub proof fn lemma_aff_ext(t: Seq<R>, b: Vec<Vec<R>>, x: Seq<real>, y: Seq<real>, q: int, n: int) requires forall|j: int| 0 <= j < n ==> x[j] == y[j] ensures aff(t, b, x, q, n) == aff(t, b, y, q, n) decreases n { if n > 0 { lemma_aff_ext(t, b, x, y, q, n - 1); } }
