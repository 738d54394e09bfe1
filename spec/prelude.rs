// Trusted prelude: the meaning given to C++ primitive operations, containers and library calls.
// Every `external_body` below is an assumption listed in DESIGN.md / the evidence files.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unreachable_code, unused_must_use, path_statements, unused_unsafe)]
use vstd::prelude::*;
use vstd::arithmetic::mul::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::power::*;
verus! {

global size_of usize == 8;

pub spec const P32: int = 0x1_0000_0000;

// ---------------------------------------------------------------- machine integers (exact C++ semantics)
pub fn add_u32(a: u32, b: u32) -> (r: u32) ensures r as int == (if a + b < 0x1_0000_0000 { a + b } else { a + b - 0x1_0000_0000 }) { a.wrapping_add(b) }
pub fn sub_u32(a: u32, b: u32) -> (r: u32) ensures r as int == (if a >= b { a - b } else { a - b + 0x1_0000_0000 }) { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn mul_u32(a: u32, b: u32) -> (r: u32)
    ensures (a as int) * (b as int) < 0x1_0000_0000 ==> r as int == (a as int) * (b as int), r as int == ((a as int) * (b as int)) % 0x1_0000_0000 { a.wrapping_mul(b) }
pub fn div_u32(a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a / b { a / b }
pub fn rem_u32(a: u32, b: u32) -> (r: u32) requires b != 0 ensures r == a % b { a % b }
pub fn add_i32(a: i32, b: i32) -> (r: i32) requires -0x8000_0000 <= a + b <= 0x7fff_ffff ensures r == a + b { a + b }
pub fn sub_i32(a: i32, b: i32) -> (r: i32) requires -0x8000_0000 <= a - b <= 0x7fff_ffff ensures r == a - b { a - b }
pub fn mul_i32(a: i32, b: i32) -> (r: i32) requires -0x8000_0000 <= (a as int) * (b as int) <= 0x7fff_ffff ensures r == (a as int) * (b as int) { a * b }
#[verifier::external_body]
pub fn div_i32(a: i32, b: i32) -> (r: i32) requires b != 0, a != -0x8000_0000
    ensures a >= 0 && b > 0 ==> r as int == (a as int) / (b as int) { a / b }
#[verifier::external_body]
pub fn rem_i32(a: i32, b: i32) -> (r: i32) requires b != 0, a != -0x8000_0000
    ensures a >= 0 && b > 0 ==> r as int == (a as int) % (b as int) { a % b }
pub fn neg_i64(a: i64) -> (r: i64) requires a != -0x8000_0000_0000_0000 ensures r == -a { -a }
pub fn neg_i32(a: i32) -> (r: i32) requires a != -0x8000_0000 ensures r == -a { -a }
pub fn add_i64(a: i64, b: i64) -> (r: i64) requires -0x8000_0000_0000_0000 <= a + b <= 0x7fff_ffff_ffff_ffff ensures r == a + b { a + b }
pub fn sub_i64(a: i64, b: i64) -> (r: i64) requires -0x8000_0000_0000_0000 <= a - b <= 0x7fff_ffff_ffff_ffff ensures r == a - b { a - b }
#[verifier::external_body]
pub fn mul_i64(a: i64, b: i64) -> (r: i64) requires -0x8000_0000_0000_0000 <= (a as int) * (b as int) <= 0x7fff_ffff_ffff_ffff ensures r == (a as int) * (b as int) { a * b }
#[verifier::external_body]
pub fn div_i64(a: i64, b: i64) -> (r: i64) requires b > 0 ensures a >= 0 ==> r as int == (a as int) / (b as int), a < 0 ==> r as int == -((-(a as int)) / (b as int)) { a / b }
pub fn add_usize(a: usize, b: usize) -> (r: usize) ensures r as int == (if a + b < 0x1_0000_0000_0000_0000 { a + b } else { a + b - 0x1_0000_0000_0000_0000 }) { a.wrapping_add(b) }
pub fn sub_usize(a: usize, b: usize) -> (r: usize) ensures r as int == (if a >= b { a - b } else { a - b + 0x1_0000_0000_0000_0000 }) { a.wrapping_sub(b) }
#[verifier::external_body]
pub fn mul_usize(a: usize, b: usize) -> (r: usize)
    ensures (a as int) * (b as int) < 0x1_0000_0000_0000_0000 ==> r as int == (a as int) * (b as int) { a.wrapping_mul(b) }
pub fn div_usize(a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a / b { a / b }
pub fn rem_usize(a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == a % b { a % b }
pub fn max_u32(a: u32, b: u32) -> (r: u32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn min_u32(a: u32, b: u32) -> (r: u32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn max_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub fn min_i32(a: i32, b: i32) -> (r: i32) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

pub fn u32_to_usize(a: u32) -> (r: usize) ensures r == a { a as usize }
pub fn u32_to_i64(a: u32) -> (r: i64) ensures r == a { a as i64 }
pub fn i32_to_i64(a: i32) -> (r: i64) ensures r == a { a as i64 }
#[verifier::external_body]
pub fn usize_to_u32(a: usize) -> (r: u32) ensures r as int == (a as int) % 0x1_0000_0000, a < 0x1_0000_0000 ==> r == a { a as u32 }
#[verifier::external_body]
pub fn u32_to_i32(a: u32) -> (r: i32) ensures r as int == (if a < 0x8000_0000 { a as int } else { a - 0x1_0000_0000 }) { a as i32 }
#[verifier::external_body]
pub fn i32_to_u32(a: i32) -> (r: u32) ensures r as int == (if a >= 0 { a as int } else { a + 0x1_0000_0000 }) { a as u32 }
#[verifier::external_body]
pub fn i32_to_usize(a: i32) -> (r: usize) ensures r as int == (if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 }) { a as usize }
#[verifier::external_body]
pub fn i64_to_usize(a: i64) -> (r: usize) ensures r as int == (if a >= 0 { a as int } else { a + 0x1_0000_0000_0000_0000 }) { a as usize }
#[verifier::external_body]
pub fn i64_to_u32(a: i64) -> (r: u32) ensures r as int == (a as int) % 0x1_0000_0000, 0 <= a < 0x1_0000_0000 ==> r == a { a as u32 }
#[verifier::external_body]
pub fn usize_to_i32(a: usize) -> (r: i32) ensures a < 0x8000_0000 ==> r == a { a as i32 }
#[verifier::external_body]
pub fn i64_to_i32(a: i64) -> (r: i32) ensures -0x8000_0000 <= a < 0x8000_0000 ==> r == a { a as i32 }
#[verifier::external_body]
pub fn usize_to_i64(a: usize) -> (r: i64) ensures a < 0x8000_0000_0000_0000 ==> r == a { a as i64 }
pub fn bool_to_u32(a: bool) -> (r: u32) ensures r == (if a { 1u32 } else { 0u32 }) { if a { 1 } else { 0 } }
pub fn bool_to_i32(a: bool) -> (r: i32) ensures r == (if a { 1i32 } else { 0i32 }) { if a { 1 } else { 0 } }
#[verifier::external_body]
pub fn havoc_u32() -> (r: u32) { 0 }
#[verifier::external_body]
pub fn havoc_i32() -> (r: i32) { 0 }
#[verifier::external_body]
pub fn havoc_bool() -> (r: bool) { false }
pub fn usize_id(a: usize) -> (r: usize) ensures r == a { a }

// exit(), throw: must be unreachable within the preconditions of the function
#[verifier::external_body]
pub fn cexit<T>() -> (r: T) requires false { std::process::exit(1) }

// ---------------------------------------------------------------- double as mathematical real
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl R { pub uninterp spec fn v(self) -> real; }
pub uninterp spec fn mk(x: real) -> R;
pub broadcast axiom fn ax_mk(x: real) ensures (#[trigger] mk(x)).v() == x;
pub broadcast axiom fn ax_rext(a: R) ensures #[trigger] mk(a.v()) == a;
pub broadcast group real_axioms { ax_mk, ax_rext }
#[verifier::external_body] pub fn r_add(a: R, b: R) -> (r: R) ensures r.v() == a.v() + b.v() { R { x: a.x + b.x } }
#[verifier::external_body] pub fn r_sub(a: R, b: R) -> (r: R) ensures r.v() == a.v() - b.v() { R { x: a.x - b.x } }
#[verifier::external_body] pub fn r_mul(a: R, b: R) -> (r: R) ensures r.v() == a.v() * b.v() { R { x: a.x * b.x } }
#[verifier::external_body] pub fn r_div(a: R, b: R) -> (r: R) ensures b.v() != 0real ==> r.v() == a.v() / b.v() { R { x: a.x / b.x } }
#[verifier::external_body] pub fn r_neg(a: R) -> (r: R) ensures r.v() == -a.v() { R { x: -a.x } }
#[verifier::external_body] pub fn r_lt(a: R, b: R) -> (r: bool) ensures r == (a.v() < b.v()) { a.x < b.x }
#[verifier::external_body] pub fn r_le(a: R, b: R) -> (r: bool) ensures r == (a.v() <= b.v()) { a.x <= b.x }
#[verifier::external_body] pub fn r_gt(a: R, b: R) -> (r: bool) ensures r == (a.v() > b.v()) { a.x > b.x }
#[verifier::external_body] pub fn r_ge(a: R, b: R) -> (r: bool) ensures r == (a.v() >= b.v()) { a.x >= b.x }
#[verifier::external_body] pub fn r_eq(a: R, b: R) -> (r: bool) ensures r == (a.v() == b.v()) { a.x == b.x }
#[verifier::external_body] pub fn r_ne(a: R, b: R) -> (r: bool) ensures r == (a.v() != b.v()) { a.x != b.x }
#[verifier::external_body] pub fn r_from_i32(a: i32) -> (r: R) ensures r.v() == (a as int) as real { R { x: a as f64 } }
#[verifier::external_body] pub fn r_from_u32(a: u32) -> (r: R) ensures r.v() == (a as int) as real { R { x: a as f64 } }
#[verifier::external_body] pub fn r_from_usize(a: usize) -> (r: R) ensures r.v() == (a as int) as real { R { x: a as f64 } }
#[verifier::external_body] pub fn r_from_bool(a: bool) -> (r: R) ensures r.v() == (if a { 1real } else { 0real }) { R { x: a as i32 as f64 } }
pub open spec fn ireal(n: int) -> real { n as real }
// double -> unsigned: exact on integral values in range, unspecified otherwise
#[verifier::external_body] pub fn r_to_u32(a: R) -> (r: u32) ensures forall|n: int| 0 <= n < 0x1_0000_0000 && a.v() == #[trigger] ireal(n) ==> r as int == n { a.x as u32 }
#[verifier::external_body] pub fn havoc_r() -> (r: R) { R { x: 0.0 } }
pub uninterp spec fn sqrt_spec(x: real) -> real;
pub uninterp spec fn cos_spec(x: real) -> real;
pub uninterp spec fn sin_spec(x: real) -> real;
pub uninterp spec fn PI() -> real;
pub broadcast axiom fn ax_sqrt(x: real) requires x >= 0real
    ensures (#[trigger] sqrt_spec(x)) >= 0real, sqrt_spec(x) * sqrt_spec(x) == x;
pub axiom fn ax_pi() ensures PI() > 3real, PI() < 4real;
pub open spec fn abs_spec(x: real) -> real { if x >= 0real { x } else { -x } }
#[verifier::external_body] pub fn r_sqrt(a: R) -> (r: R) ensures r.v() == sqrt_spec(a.v()) { R { x: a.x.sqrt() } }
#[verifier::external_body] pub fn r_cos(a: R) -> (r: R) ensures r.v() == cos_spec(a.v()) { R { x: a.x.cos() } }
#[verifier::external_body] pub fn r_sin(a: R) -> (r: R) ensures r.v() == sin_spec(a.v()) { R { x: a.x.sin() } }
#[verifier::external_body] pub fn r_abs(a: R) -> (r: R) ensures r.v() == abs_spec(a.v()) { R { x: a.x.abs() } }
#[verifier::external_body] pub fn r_pi() -> (r: R) ensures r.v() == PI() { R { x: 3.141592653589793 } }
// decimal literals: the decimal value
#[verifier::external_body] pub fn r_dec(a: i128, b: i128) -> (r: R) ensures r.v() == ireal(a as int) / ireal(b as int) { R { x: a as f64 / b as f64 } } //@ifused r_dec(
#[verifier::external_body] pub fn r_half() -> (r: R) ensures r.v() == 1real / 2real { R { x: 0.5 } }

// integer powers and binomials computed in double: taken as exact (they are, below 2^53)
pub open spec fn npow(b: int, e: nat) -> int decreases e { if e == 0 { 1 } else { b * npow(b, (e - 1) as nat) } }
pub open spec fn binom(n: nat, k: nat) -> nat decreases n { if k == 0 { 1 } else if n == 0 { 0 } else { binom((n - 1) as nat, k) + binom((n - 1) as nat, (k - 1) as nat) } }
#[verifier::external_body] pub fn r_pow(a: u32, b: u32) -> (r: R) ensures r.v() == ireal(npow(a as int, b as nat)) { R { x: (a as f64).powf(b as f64) } }
#[verifier::external_body] pub fn r_binom(n: u32, k: u32) -> (r: R) ensures r.v() == ireal(binom(n as nat, k as nat) as int) { unimplemented!() }

// ---------------------------------------------------------------- std::vector
#[verifier::external_body] pub fn vec_fill_u32(n: usize, v: u32) -> (r: Vec<u32>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == v { vec![v; n] }
#[verifier::external_body] pub fn vec_fill_b(n: usize, v: bool) -> (r: Vec<bool>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == v { vec![v; n] }
#[verifier::external_body] pub fn vec_fill_r(n: usize, v: R) -> (r: Vec<R>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == v { unimplemented!() }
#[verifier::external_body] pub fn vec_fill_u1(n: usize, v: &Vec<u32>) -> (r: Vec<Vec<u32>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vec_fill_r1(n: usize, v: &Vec<R>) -> (r: Vec<Vec<R>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vec_fill_r2(n: usize, v: &Vec<Vec<R>>) -> (r: Vec<Vec<Vec<R>>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> same_r2(#[trigger] r@[i], *v) { unimplemented!() }
pub open spec fn same_r2(a: Vec<Vec<R>>, b: Vec<Vec<R>>) -> bool { a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@ == b@[i]@ }
// the cells of a three-dimensional array as a map
#[verifier::opaque]
pub open spec fn m3(p: Vec<Vec<Vec<R>>>) -> IMap<(int, int, int), real> {
    IMap::new(|t: (int, int, int)| 0 <= t.0 < p@.len() && 0 <= t.1 < p@[t.0]@.len() && 0 <= t.2 < p@[t.0]@[t.1]@.len(), |t: (int, int, int)| p@[t.0]@[t.1]@[t.2].v())
}
#[verifier::inline]
pub open spec fn at3(p: Vec<Vec<Vec<R>>>, i: int, j: int, k: int) -> real { m3(p)[(i, j, k)] }
pub proof fn lemma_at3(p: Vec<Vec<Vec<R>>>, i: int, j: int, k: int) requires 0 <= i < p@.len(), 0 <= j < p@[i]@.len(), 0 <= k < p@[i]@[j]@.len() ensures at3(p, i, j, k) == p@[i]@[j]@[k].v(), m3(p).dom().contains((i, j, k))
{ reveal(m3); }
pub open spec fn box3(p: Vec<Vec<Vec<R>>>, n: int, m: int, l: int) -> bool {
    p@.len() == n && (forall|i: int| 0 <= i < n ==> (#[trigger] p@[i])@.len() == m) && (forall|i: int, j: int| 0 <= i < n && 0 <= j < m ==> (#[trigger] p@[i]@[j])@.len() == l)
}
pub fn get_r3(p: &Vec<Vec<Vec<R>>>, i: usize, j: usize, k: usize) -> (r: R)
    requires i < p@.len(), j < p@[i as int]@.len(), k < p@[i as int]@[j as int]@.len()
    ensures r.v() == at3(*p, i as int, j as int, k as int)
{ proof { lemma_at3(*p, i as int, j as int, k as int); } p[i][j][k] }
pub fn set_r3(p: &mut Vec<Vec<Vec<R>>>, i: usize, j: usize, k: usize, v: R)
    requires i < old(p)@.len(), j < old(p)@[i as int]@.len(), k < old(p)@[i as int]@[j as int]@.len()
    ensures forall|n: int, m: int, l: int| #[trigger] box3(*old(p), n, m, l) ==> box3(*final(p), n, m, l),
        forall|b: Seq<u32>, q: int, l: int| #[trigger] rag3(*old(p), b, q, l) && q <= old(p)@.len() ==> rag3(*final(p), b, q, l), //@if transform
        m3(*final(p)) == m3(*old(p)).insert((i as int, j as int, k as int), v.v())
{ p[i][j][k] = v; proof { reveal(m3); assert(m3(*p) =~= m3(*old(p)).insert((i as int, j as int, k as int), v.v())); } }
#[verifier::external_body] pub fn clone_u1(v: &Vec<u32>) -> (r: Vec<u32>) ensures r@ == v@, r == *v { v.clone() }
#[verifier::external_body] pub fn clone_r1(v: &Vec<R>) -> (r: Vec<R>) ensures r@ == v@, r == *v { unimplemented!() }
#[verifier::external_body] pub fn clone_u2(v: &Vec<Vec<u32>>) -> (r: Vec<Vec<u32>>) ensures r == *v { v.clone() }
#[verifier::external_body] pub fn clone_r2(v: &Vec<Vec<R>>) -> (r: Vec<Vec<R>>) ensures r == *v { unimplemented!() }
// the C++ containers indexed by u_int never hold 2^32 elements (memory)
#[verifier::external_body] pub fn push_u1(v: &mut Vec<Vec<u32>>, x: Vec<u32>) ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1_0000_0000 { v.push(x) }
#[verifier::external_body] pub fn push_u(v: &mut Vec<u32>, x: u32) ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1_0000_0000 { v.push(x) }
#[verifier::external_body] pub fn push_b(v: &mut Vec<bool>, x: bool) ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1_0000_0000 { v.push(x) }
#[verifier::external_body] pub fn push_r(v: &mut Vec<R>, x: R) ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1_0000_0000 { v.push(x) }
#[verifier::external_body] pub fn push_miter(v: &mut Vec<MIter>, x: MIter) ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn push_r1(v: &mut Vec<Vec<R>>, x: Vec<R>) ensures final(v)@ == old(v)@.push(x), final(v)@.len() < 0x1_0000_0000 { unimplemented!() }
#[verifier::external_body] pub fn vec_resize_u32(v: &mut Vec<u32>, n: usize)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> final(v)@[i] == old(v)@[i] { v.resize(n, 0) }

// ---------------------------------------------------------------- std::string, std::unordered_map<string,u_int>
#[verifier::external_body]
pub struct Str { s: String }
impl Str { pub uninterp spec fn view(&self) -> Seq<u8>; }
pub open spec fn digits(n: nat) -> Seq<u8> decreases n { if n < 10 { seq![(48 + n) as u8] } else { digits(n / 10).push((48 + n % 10) as u8) } }
#[verifier::external_body] pub fn str_of_u32(a: u32) -> (r: Str) ensures r@ == digits(a as nat) { Str { s: a.to_string() } }
#[verifier::external_body] pub fn str_add(a: &Str, b: &Str) -> (r: Str) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn str_eq(a: &Str, b: &Str) -> (r: bool) ensures r == (a@ == b@) { a.s == b.s }
#[verifier::external_body] pub fn clone_str(a: &Str) -> (r: Str) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub struct HT { t: std::collections::HashMap<String, u32> }
impl HT { pub uninterp spec fn view(&self) -> Map<Seq<u8>, u32>; }
#[verifier::external_body] pub fn ht_contains(t: &HT, k: &Str) -> (r: bool) ensures r == t@.dom().contains(k@) { unimplemented!() }
#[verifier::external_body] pub fn ht_count(t: &HT, k: &Str) -> (r: usize) ensures r == (if t@.dom().contains(k@) { 1usize } else { 0usize }) { unimplemented!() }
#[verifier::external_body] pub fn ht_at(t: &HT, k: &Str) -> (r: u32) requires t@.dom().contains(k@) ensures r == t@[k@] { unimplemented!() }
// insert() keeps an existing entry
#[verifier::external_body] pub fn ht_insert(t: &mut HT, k: &Str, v: u32) ensures final(t)@ == (if old(t)@.dom().contains(k@) { old(t)@ } else { old(t)@.insert(k@, v) }) { unimplemented!() }

// ---------------------------------------------------------------- the iterator objects (Vector_iterator and everything derived from it)
pub struct MIter { pub dim: u32, pub multi_index: Vec<u32>, pub full: bool, pub hash_table: HT, pub index_list: u32, pub list: Vec<Vec<u32>>, pub degree: u32, pub upper_bounds: Vec<u32> }
// a null unique_ptr: nothing is known of the object
#[verifier::external_body] pub fn null_miter() -> (r: MIter) { unimplemented!() } //@if varfd
#[verifier::external_body] pub fn miter_blank() -> (r: MIter)
    ensures r.list@.len() == 0, r.hash_table@ == Map::<Seq<u8>, u32>::empty(), r.upper_bounds@.len() == 0, r.multi_index@.len() == 0 { unimplemented!() }

// ---------------------------------------------------------------- boost::numeric::ublas::compressed_matrix<double, row_major>
// n x m, the stored entries e (an explicitly stored zero is an entry); anything else reads as zero
#[verifier::external_body]
pub struct SpMat { x: u8 }
impl SpMat {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn m(&self) -> int;
    pub uninterp spec fn e(&self) -> Map<(int, int), real>;
    // the stored positions in row-major order, and where each row starts among them
    pub uninterp spec fn nz(&self) -> Seq<(int, int)>;
    pub uninterp spec fn rs(&self, i: int) -> int;
    pub open spec fn at(&self, i: int, j: int) -> real { if self.e().dom().contains((i, j)) { self.e()[(i, j)] } else { 0real } }
}
pub open spec fn nz_ok(a: SpMat) -> bool {
    &&& 0 <= a.n() && 0 <= a.m()
    &&& forall|t: int| 0 <= t < a.nz().len() ==> a.e().dom().contains(#[trigger] a.nz()[t]) && 0 <= a.nz()[t].0 < a.n() && 0 <= a.nz()[t].1 < a.m()
    &&& forall|i: int, j: int| #[trigger] a.e().dom().contains((i, j)) ==> a.nz().contains((i, j))
    &&& forall|s: int, t: int| 0 <= s < t < a.nz().len() ==> #[trigger] a.nz()[s] != #[trigger] a.nz()[t]
    &&& a.rs(0) == 0 && a.rs(a.n()) == a.nz().len()
    &&& forall|i: int| 0 <= i <= a.n() ==> 0 <= #[trigger] a.rs(i) <= a.nz().len()
    &&& forall|i: int| 0 <= i < a.n() ==> #[trigger] a.rs(i) <= a.rs(i + 1)
    &&& forall|i: int, t: int| 0 <= i < a.n() && #[trigger] a.rs(i) <= t < a.rs(i + 1) ==> (#[trigger] a.nz()[t]).0 == i
}
pub axiom fn ax_nz(a: SpMat) ensures nz_ok(a);
pub axiom fn ax_spdim(a: SpMat) ensures 0 <= a.n() < 0x1_0000_0000_0000_0000, 0 <= a.m() < 0x1_0000_0000_0000_0000;
#[verifier::external_body] pub fn sp_new(n: usize, m: usize) -> (r: SpMat) ensures r.n() == n, r.m() == m, r.e() == Map::<(int, int), real>::empty() { unimplemented!() }
#[verifier::external_body] pub fn sp_size1(a: &SpMat) -> (r: usize) ensures r == a.n() { unimplemented!() }
#[verifier::external_body] pub fn sp_size2(a: &SpMat) -> (r: usize) ensures r == a.m() { unimplemented!() }
#[verifier::external_body] pub fn sp_nnz(a: &SpMat) -> (r: usize) ensures r == a.nz().len() { unimplemented!() }
#[verifier::external_body] pub fn sp_get(a: &SpMat, i: usize, j: usize) -> (r: R) requires i < a.n(), j < a.m() ensures r.v() == a.at(i as int, j as int) { unimplemented!() }
#[verifier::external_body] pub fn sp_set(a: &mut SpMat, i: usize, j: usize, v: R) requires i < old(a).n(), j < old(a).m()
    ensures final(a).n() == old(a).n(), final(a).m() == old(a).m(), final(a).e() == old(a).e().insert((i as int, j as int), v.v()) { unimplemented!() }
#[verifier::external_body] pub fn clone_sp(a: &SpMat) -> (r: SpMat) ensures r == *a { unimplemented!() }
// begin1()/end1(), i1.begin()/end(): row-major traversal of the stored entries
#[verifier::external_body] pub fn sp_rows(a: &SpMat) -> (r: usize) ensures r == a.n() { unimplemented!() }
#[verifier::external_body] pub fn sp_row_start(a: &SpMat, i: usize) -> (r: usize) requires i <= a.n() ensures r == a.rs(i as int), 0 <= r <= a.nz().len() { unimplemented!() }
#[verifier::external_body] pub fn sp_nz_index1(a: &SpMat, t: usize) -> (r: usize) requires t < a.nz().len() ensures r == a.nz()[t as int].0 { unimplemented!() }
#[verifier::external_body] pub fn sp_nz_index2(a: &SpMat, t: usize) -> (r: usize) requires t < a.nz().len() ensures r == a.nz()[t as int].1 { unimplemented!() }
#[verifier::external_body] pub fn sp_nz_value(a: &SpMat, t: usize) -> (r: R) requires t < a.nz().len() ensures r.v() == a.at(a.nz()[t as int].0, a.nz()[t as int].1) { unimplemented!() }
#[verifier::external_body] pub fn sp_scale(a: &SpMat, x: R) -> (r: SpMat) ensures r.n() == a.n(), r.m() == a.m(), forall|i: int, j: int| #[trigger] r.at(i, j) == a.at(i, j) * x.v() { unimplemented!() }
#[verifier::external_body] pub fn sp_add(a: &SpMat, b: &SpMat) -> (r: SpMat) requires a.n() == b.n(), a.m() == b.m() ensures r.n() == a.n(), r.m() == a.m(), forall|i: int, j: int| #[trigger] r.at(i, j) == a.at(i, j) + b.at(i, j) { unimplemented!() }
// vector<spmat>(n): n matrices without rows or columns
#[verifier::external_body] pub fn vec_fill_spe(n: usize) -> (r: Vec<SpMat>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).n() == 0 && r@[i].m() == 0 && r@[i].e() == Map::<(int, int), real>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vec_fill_sp(n: usize, v: &SpMat) -> (r: Vec<SpMat>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == *v { unimplemented!() }
#[verifier::external_body] pub fn clone_vsp(v: &Vec<SpMat>) -> (r: Vec<SpMat>) ensures r == *v { unimplemented!() }
// boost::numeric::ublas::matrix<double>
#[verifier::external_body]
pub struct BMat { x: u8 }
impl BMat {
    pub uninterp spec fn n(&self) -> int;
    pub uninterp spec fn m(&self) -> int;
    pub uninterp spec fn at(&self, i: int, j: int) -> real;
}
pub axiom fn ax_bmdim(a: BMat) ensures 0 <= a.n() < 0x1_0000_0000_0000_0000, 0 <= a.m() < 0x1_0000_0000_0000_0000;
#[verifier::external_body] pub fn bm_new(n: usize, m: usize) -> (r: BMat) ensures r.n() == n, r.m() == m { unimplemented!() }
#[verifier::external_body] pub fn bm_new_fill(n: usize, m: usize, v: R) -> (r: BMat) ensures r.n() == n, r.m() == m, forall|i: int, j: int| #[trigger] r.at(i, j) == v.v() { unimplemented!() }
#[verifier::external_body] pub fn bm_size1(a: &BMat) -> (r: usize) ensures r == a.n() { unimplemented!() }
#[verifier::external_body] pub fn bm_size2(a: &BMat) -> (r: usize) ensures r == a.m() { unimplemented!() }
#[verifier::external_body] pub fn bm_get(a: &BMat, i: usize, j: usize) -> (r: R) requires i < a.n(), j < a.m() ensures r.v() == a.at(i as int, j as int) { unimplemented!() }
#[verifier::external_body] pub fn bm_set(a: &mut BMat, i: usize, j: usize, v: R) requires i < old(a).n(), j < old(a).m()
    ensures final(a).n() == old(a).n(), final(a).m() == old(a).m(), forall|s: int, t: int| #[trigger] final(a).at(s, t) == (if s == i && t == j { v.v() } else { old(a).at(s, t) }) { unimplemented!() }
#[verifier::external_body] pub fn clone_bm(a: &BMat) -> (r: BMat) ensures r == *a { unimplemented!() }
#[verifier::external_body] pub fn bm_rows(a: &BMat) -> (r: usize) ensures r == a.n() { unimplemented!() }
#[verifier::external_body] pub fn bm_row_start(a: &BMat, i: usize) -> (r: usize) requires i <= a.n() ensures r as int == i as int * a.m() { unimplemented!() }
#[verifier::external_body] pub fn bm_nz_index1(a: &BMat, t: usize) -> (r: usize) requires 0 <= t < a.n() * a.m() ensures r == t as int / a.m() { unimplemented!() }
#[verifier::external_body] pub fn bm_nz_index2(a: &BMat, t: usize) -> (r: usize) requires 0 <= t < a.n() * a.m() ensures r == t as int % a.m() { unimplemented!() }
#[verifier::external_body] pub fn bm_nz_value(a: &BMat, t: usize) -> (r: R) requires 0 <= t < a.n() * a.m() ensures r.v() == a.at(t as int / a.m(), t as int % a.m()) { unimplemented!() }
#[verifier::external_body] pub fn bm_scale(a: &BMat, x: R) -> (r: BMat) ensures r.n() == a.n(), r.m() == a.m(), forall|i: int, j: int| #[trigger] r.at(i, j) == a.at(i, j) * x.v() { unimplemented!() }
#[verifier::external_body] pub fn bm_add(a: &BMat, b: &BMat) -> (r: BMat) requires a.n() == b.n(), a.m() == b.m() ensures r.n() == a.n(), r.m() == a.m(), forall|i: int, j: int| #[trigger] r.at(i, j) == a.at(i, j) + b.at(i, j) { unimplemented!() }


// one vocabulary for the three matrix types: well-formed, rows, columns, entry
pub open spec fn wf_r2(a: Vec<Vec<R>>) -> bool { forall|i: int| 0 <= i < a@.len() ==> (#[trigger] a@[i])@.len() == a@[0]@.len() }
pub open spec fn nr_r2(a: Vec<Vec<R>>) -> int { a@.len() as int }
pub open spec fn nc_r2(a: Vec<Vec<R>>) -> int { a@[0]@.len() as int }
pub open spec fn at_r2(a: Vec<Vec<R>>, i: int, j: int) -> real { a@[i]@[j].v() }
pub open spec fn wf_sp(a: SpMat) -> bool { true }
pub open spec fn nr_sp(a: SpMat) -> int { a.n() }
pub open spec fn nc_sp(a: SpMat) -> int { a.m() }
pub open spec fn at_sp(a: SpMat, i: int, j: int) -> real { a.at(i, j) }
pub open spec fn wf_bm(a: BMat) -> bool { true }
pub open spec fn nr_bm(a: BMat) -> int { a.n() }
pub open spec fn nc_bm(a: BMat) -> int { a.m() }
pub open spec fn at_bm(a: BMat, i: int, j: int) -> real { a.at(i, j) }
}
