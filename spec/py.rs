// Trusted prelude of the units extracted from the Python package: the meaning of Python's built-in values.
// Views are mathematical (set, sequence, int); list(set) is some duplicate-free enumeration of the set.
use vstd::prelude::*;
verus!{
#[verifier::external_body] pub struct FS { x: u8 }
#[verifier::external_body] pub struct SFS { x: u8 }
pub trait Py: Sized { type V; spec fn v(&self) -> Self::V; }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct L<T: Py> { x: Vec<T> }
impl<T: Py> Py for L<T> { type V = Seq<T::V>; uninterp spec fn v(&self) -> Seq<T::V>; }
pub open spec fn fs_empty(s: Set<int>) -> bool { forall|x: int| !s.contains(x) }
pub open spec fn sfs_empty(s: Set<Set<int>>) -> bool { forall|x: Set<int>| !s.contains(x) }
impl Py for FS { type V = Set<int>; uninterp spec fn v(&self) -> Set<int>; }
impl SFS { pub uninterp spec fn v(&self) -> Set<Set<int>>; }
#[verifier::external_body] pub fn sfs_copy(a: &SFS) -> (r: SFS) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn sfs_sub(a: &SFS, b: &SFS) -> (r: SFS) ensures r.v() == a.v().difference(b.v()), sfs_empty(r.v()) == a.v().subset_of(b.v()) { unimplemented!() }
#[verifier::external_body] pub fn sfs_is_empty(a: &SFS) -> (r: bool) ensures r == (forall|x: Set<int>| !a.v().contains(x)) { unimplemented!() }
#[verifier::external_body] pub fn fs_is_empty(a: &FS) -> (r: bool) ensures r == (forall|x: int| !a.v().contains(x)) { unimplemented!() }
#[verifier::external_body] pub fn sfs_list(a: &SFS) -> (r: L<FS>) ensures r.v().no_duplicates(), forall|x: Set<int>| a.v().contains(x) <==> r.v().contains(x), forall|j: int| 0 <= j < r.v().len() ==> a.v().contains(#[trigger] r.v()[j]), (r.v().len() == 0) == sfs_empty(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn l_len<T: Py>(a: &L<T>) -> (r: usize) ensures r == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn l_get<T: Py>(a: &L<T>, i: usize) -> (r: T) requires i < a.v().len() ensures r.v() == a.v()[i as int] { unimplemented!() }
#[verifier::external_body] pub fn l_clone<T: Py>(a: &L<T>) -> (r: L<T>) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn sfs_remove(a: &mut SFS, x: &FS) requires old(a).v().contains(x.v()) ensures final(a).v() == old(a).v().remove(x.v()) { unimplemented!() }
#[verifier::external_body] pub fn sfs_add(a: &mut SFS, x: &FS) ensures final(a).v() == old(a).v().insert(x.v()) { unimplemented!() }
#[verifier::external_body] pub fn fs_intersection(a: &FS, b: &FS) -> (r: FS) ensures r.v() == a.v().intersect(b.v()), r.v() == b.v().intersect(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn fs_union(a: &FS, b: &FS) -> (r: FS) ensures r.v() == a.v().union(b.v()), r.v() == b.v().union(a.v()) { unimplemented!() }

#[verifier::external_body] pub fn fs_clone(a: &FS) -> (r: FS) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn fs_eq(a: &FS, b: &FS) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn sfs_eq(a: &SFS, b: &SFS) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn fs_issubset(a: &FS, b: &FS) -> (r: bool) ensures r == a.v().subset_of(b.v()) { unimplemented!() }
#[verifier::external_body] pub fn fs_isdisjoint(a: &FS, b: &FS) -> (r: bool) ensures r == a.v().disjoint(b.v()) { unimplemented!() }
#[verifier::external_body] pub fn sfs_contains(a: &FS, b: &SFS) -> (r: bool) ensures r == b.v().contains(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn sfs_discard(a: &mut SFS, x: &FS) ensures final(a).v() == old(a).v().remove(x.v()) { unimplemented!() }
// ---- ints, strings, floats
#[verifier::external_body] pub struct PInt { x: u8 }
#[verifier::external_body] pub struct PReal { x: u8 }
#[verifier::external_body] pub struct PStr { x: u8 }
impl Py for PInt { type V = int; uninterp spec fn v(&self) -> int; }
impl Py for PReal { type V = real; uninterp spec fn v(&self) -> real; }
impl Py for PStr { type V = Seq<char>; uninterp spec fn v(&self) -> Seq<char>; }
// an exception leaves the function: nothing holds afterwards
#[verifier::external_body] pub fn py_raise() ensures false { unimplemented!() }
#[verifier::external_body] pub fn py_stop<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body] pub fn pint(x: i64) -> (r: PInt) ensures r.v() == x { unimplemented!() }
#[verifier::external_body] pub fn pint_of(x: usize) -> (r: PInt) ensures r.v() == x { unimplemented!() }
#[verifier::external_body] pub fn pint_clone(a: &PInt) -> (r: PInt) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn preal_clone(a: &PReal) -> (r: PReal) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn pstr_clone(a: &PStr) -> (r: PStr) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn pstr(x: &str) -> (r: PStr) ensures r.v() == x@ { unimplemented!() }
#[verifier::external_body] pub fn pint_eq(a: &PInt, b: &PInt) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pint_le(a: &PInt, b: &PInt) -> (r: bool) ensures r == (a.v() <= b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pint_lt(a: &PInt, b: &PInt) -> (r: bool) ensures r == (a.v() < b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pint_ge(a: &PInt, b: &PInt) -> (r: bool) ensures r == (a.v() >= b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pint_gt(a: &PInt, b: &PInt) -> (r: bool) ensures r == (a.v() > b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pint_add(a: &PInt, b: &PInt) -> (r: PInt) ensures r.v() == a.v() + b.v() { unimplemented!() }
#[verifier::external_body] pub fn pint_sub(a: &PInt, b: &PInt) -> (r: PInt) ensures r.v() == a.v() - b.v() { unimplemented!() }
#[verifier::external_body] pub fn preal_eq(a: &PReal, b: &PReal) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pstr_eq(a: &PStr, b: &PStr) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
// ---- lists
pub open spec fn idx<A>(s: Seq<A>, x: A) -> int { choose|i: int| 0 <= i < s.len() && s[i] == x && forall|j: int| 0 <= j < i ==> s[j] != x }
pub open spec fn cnt<A>(s: Seq<A>, x: A) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), x) + if s.last() == x { 1int } else { 0int } } }
pub open spec fn fromv<A>(s: Seq<A>, k: int) -> Seq<A> { if k <= s.len() { s.subrange(k, s.len() as int) } else { Seq::empty() } }
pub open spec fn fil<A>(s: Seq<A>, k: int, c: spec_fn(A) -> bool) -> Seq<A> decreases k { if k <= 0 { Seq::empty() } else if c(s[k - 1]) { fil(s, k - 1, c).push(s[k - 1]) } else { fil(s, k - 1, c) } }
pub open spec fn ascending(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub open spec fn rangev(n: int) -> Seq<int> { Seq::new((if n > 0 { n } else { 0 }) as nat, |i: int| i) }
pub open spec fn samecount(s: Seq<int>, t: Seq<int>) -> bool { s.to_multiset() == t.to_multiset() }
#[verifier::external_body] pub fn l_new<T: Py>() -> (r: L<T>) ensures r.v() == Seq::<T::V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn l_push<T: Py>(a: &mut L<T>, x: T) ensures final(a).v() == old(a).v().push(x.v()) { unimplemented!() }
#[verifier::external_body] pub fn l_plen<T: Py>(a: &L<T>) -> (r: PInt) ensures r.v() == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn l_at<T: Py>(a: &L<T>, i: &PInt) -> (r: T) requires 0 <= i.v() < a.v().len() ensures r.v() == a.v()[i.v()] { unimplemented!() }
#[verifier::external_body] pub fn l_set<T: Py>(a: &mut L<T>, i: &PInt, x: T) requires 0 <= i.v() < old(a).v().len() ensures final(a).v() == old(a).v().update(i.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn l_from<T: Py>(a: &L<T>, k: usize) -> (r: L<T>) ensures r.v() == fromv(a.v(), k as int) { unimplemented!() }
#[verifier::external_body] pub fn l_eq<T: Py>(a: &L<T>, b: &L<T>) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn l_contains<T: Py>(a: &L<T>, x: &T) -> (r: bool) ensures r == a.v().contains(x.v()) { unimplemented!() }
#[verifier::external_body] pub fn l_concat<T: Py>(a: &L<T>, b: &L<T>) -> (r: L<T>) ensures r.v() == a.v() + b.v(), forall|x: T::V| #[trigger] r.v().contains(x) <==> a.v().contains(x) || b.v().contains(x), a.v().no_duplicates() && b.v().no_duplicates() && (forall|x: T::V| #[trigger] a.v().contains(x) ==> !b.v().contains(x)) ==> r.v().no_duplicates() { unimplemented!() }
#[verifier::external_body] pub fn l_index<T: Py>(a: &L<T>, x: &T) -> (r: PInt) requires a.v().contains(x.v()) ensures 0 <= r.v() < a.v().len(), a.v()[r.v()] == x.v(), r.v() == idx(a.v(), x.v()), forall|j: int| 0 <= j < r.v() ==> a.v()[j] != x.v() { unimplemented!() }
#[verifier::external_body] pub fn l_count<T: Py>(a: &L<T>, x: &T) -> (r: PInt) ensures r.v() == cnt(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn l_repeat<T: Py>(x: &T, k: &PInt) -> (r: L<T>) ensures r.v().len() == (if k.v() > 0 { k.v() } else { 0 }), forall|j: int| 0 <= j < r.v().len() ==> #[trigger] r.v()[j] == x.v() { unimplemented!() }
#[verifier::external_body] pub fn l_holes<T: Py>(k: &PInt) -> (r: L<T>) ensures r.v().len() == (if k.v() > 0 { k.v() } else { 0 }) { unimplemented!() }
#[verifier::external_body] pub fn py_range(k: &PInt) -> (r: L<PInt>) ensures r.v() == rangev(k.v()) { unimplemented!() }
#[verifier::external_body] pub fn py_sorted(a: &L<PInt>) -> (r: L<PInt>) ensures ascending(r.v()), r.v().len() == a.v().len(), samecount(r.v(), a.v()), a.v().no_duplicates() ==> r.v().no_duplicates(), forall|x: int| #[trigger] r.v().contains(x) <==> a.v().contains(x), ascending(a.v()) ==> r.v() == a.v() { unimplemented!() }
proof fn lem_fil<A>(s: Seq<A>, k: int, c: spec_fn(A) -> bool)
    requires 0 <= k <= s.len()
    ensures forall|x: A| #[trigger] fil(s, k, c).contains(x) <==> c(x) && s.take(k).contains(x), s.no_duplicates() ==> fil(s, k, c).no_duplicates(),
        k == s.len() ==> forall|x: A| #[trigger] fil(s, k, c).contains(x) <==> c(x) && s.contains(x)
    decreases k
{
    assert(s.take(s.len() as int) =~= s);
    if k > 0 {
        lem_fil(s, k - 1, c);
        let p = fil(s, k - 1, c); let r = fil(s, k, c);
        assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
        assert forall|x: A| #[trigger] r.contains(x) <==> c(x) && s.take(k).contains(x) by {
            if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; if c(s[k - 1]) && i == p.len() { assert(s.take(k)[k - 1] == x); } else { assert(p[i] == x); assert(p.contains(x)); let t1 = s.take(k - 1); let j = choose|j: int| 0 <= j < t1.len() && t1[j] == x; assert(s.take(k)[j] == x); } }
            if c(x) && s.take(k).contains(x) {
                let t2 = s.take(k); let j = choose|j: int| 0 <= j < t2.len() && t2[j] == x;
                if j < k - 1 { assert(s.take(k - 1)[j] == x); assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(r[i] == x); }
                else { assert(r[p.len() as int] == x); }
            }
        }
        if s.no_duplicates() {
            if c(s[k - 1]) {
                assert(!p.contains(s[k - 1])) by { if p.contains(s[k - 1]) { let t1 = s.take(k - 1); let j = choose|j: int| 0 <= j < t1.len() && t1[j] == s[k - 1]; assert(s[j] == s[k - 1]); } }
                assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i == p.len() { assert(p.contains(p[j])); } else if j == p.len() { assert(p.contains(p[i])); } }
            }
        }
    } else { assert(s.take(0).len() == 0); }
}
// ---- numpy arrays of floats
#[verifier::external_body] pub struct PVec { x: u8 }
#[verifier::external_body] pub struct PMat { x: u8 }
impl Py for PVec { type V = Seq<real>; uninterp spec fn v(&self) -> Seq<real>; }
impl Py for PMat { type V = Seq<Seq<real>>; uninterp spec fn v(&self) -> Seq<Seq<real>>; }
pub open spec fn nn(n: int) -> nat { if n > 0 { n as nat } else { 0 } }
pub open spec fn zerov(n: int) -> Seq<real> { Seq::new(nn(n), |i: int| 0real) }
pub open spec fn zerom(n: int, m: int) -> Seq<Seq<real>> { Seq::new(nn(n), |i: int| zerov(m)) }
pub open spec fn diagm(d: Seq<real>) -> Seq<Seq<real>> { Seq::new(d.len(), |i: int| Seq::new(d.len(), |j: int| if i == j { d[i] } else { 0real })) }
#[verifier::external_body] pub fn np_diag(d: &L<PReal>) -> (r: PMat) ensures r.v() == diagm(d.v()) { unimplemented!() }
#[verifier::external_body] pub fn np_zeros(n: &PInt) -> (r: PVec) requires n.v() >= 0 ensures r.v() == zerov(n.v()) { unimplemented!() }
#[verifier::external_body] pub fn np_zeros2(n: &PInt, m: &PInt) -> (r: PMat) requires n.v() >= 0, m.v() >= 0 ensures r.v() == zerom(n.v(), m.v()) { unimplemented!() }
#[verifier::external_body] pub fn vec_of(a: &L<PReal>) -> (r: PVec) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn pvec_clone(a: &PVec) -> (r: PVec) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn pmat_clone(a: &PMat) -> (r: PMat) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn vec_plen(a: &PVec) -> (r: PInt) ensures r.v() == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn mat_plen(a: &PMat) -> (r: PInt) ensures r.v() == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn vec_get(a: &PVec, i: &PInt) -> (r: PReal) requires 0 <= i.v() < a.v().len() ensures r.v() == a.v()[i.v()] { unimplemented!() }
#[verifier::external_body] pub fn mat_row(a: &PMat, i: &PInt) -> (r: PVec) requires 0 <= i.v() < a.v().len() ensures r.v() == a.v()[i.v()] { unimplemented!() }
#[verifier::external_body] pub fn mat_get(a: &PMat, i: &PInt, j: &PInt) -> (r: PReal) requires 0 <= i.v() < a.v().len(), 0 <= j.v() < a.v()[i.v()].len() ensures r.v() == a.v()[i.v()][j.v()] { unimplemented!() }
#[verifier::external_body] pub fn vec_set(a: &mut PVec, i: &PInt, x: &PReal) requires 0 <= i.v() < old(a).v().len() ensures final(a).v() == old(a).v().update(i.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_set(a: &mut PMat, i: &PInt, j: &PInt, x: &PReal) requires 0 <= i.v() < old(a).v().len(), 0 <= j.v() < old(a).v()[i.v()].len() ensures final(a).v() == old(a).v().update(i.v(), old(a).v()[i.v()].update(j.v(), x.v())) { unimplemented!() }
// ---- Position objects
#[verifier::external_body] pub struct Pos { x: u8 }
pub ghost struct PosV { pub dim: int, pub dirs: Seq<int>, pub mean: Seq<real>, pub cov: Seq<Seq<real>>, pub types: Seq<Seq<char>>, pub is_diag: bool }
impl Py for Pos { type V = PosV; uninterp spec fn v(&self) -> PosV; }
#[verifier::external_body] pub fn pos_clone(a: &Pos) -> (r: Pos) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn pos_dirs(a: &Pos) -> (r: L<PInt>) ensures r.v() == a.v().dirs { unimplemented!() }
#[verifier::external_body] pub fn pos_mean(a: &Pos) -> (r: PVec) ensures r.v() == a.v().mean { unimplemented!() }
#[verifier::external_body] pub fn pos_cov(a: &Pos) -> (r: PMat) ensures r.v() == a.v().cov { unimplemented!() }
#[verifier::external_body] pub fn pos_types(a: &Pos) -> (r: L<PStr>) ensures r.v() == a.v().types { unimplemented!() }
#[verifier::external_body] pub fn pos_is_diag(a: &Pos) -> (r: bool) ensures r == a.v().is_diag { unimplemented!() }
#[verifier::external_body] pub fn pos_dim(a: &Pos) -> (r: PInt) ensures r.v() == a.v().dim { unimplemented!() }
pub open spec fn squarem(m: Seq<Seq<real>>, n: int) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] m[i]).len() == n }
pub open spec fn diagonal(m: Seq<Seq<real>>) -> bool { forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m[i].len() && i != j ==> #[trigger] m[i][j] == 0real }
// Position.__init__ with the arguments the package uses in these functions (an assumed contract: numpy, the eigendecomposition)
#[verifier::external_body] pub fn pos_new__mean_cov_dirs_types(mean: PVec, cov: PMat, dirs: L<PInt>, types: L<PStr>) -> (r: Pos)
    requires mean.v().len() == dirs.v().len(), squarem(cov.v(), dirs.v().len() as int), types.v().len() == dirs.v().len()
    ensures r.v().dim == dirs.v().len(), r.v().dirs == dirs.v(), r.v().mean == mean.v(), r.v().cov == cov.v(), r.v().types == types.v(), diagonal(cov.v()) ==> r.v().is_diag { unimplemented!() }
#[verifier::external_body] pub fn pos_new__dim_mean_cov_dirs_types(dim: PInt, mean: PVec, cov: PMat, dirs: L<PInt>, types: L<PStr>) -> (r: Pos)
    requires dim.v() == dirs.v().len(), mean.v().len() == dirs.v().len(), squarem(cov.v(), dirs.v().len() as int), types.v().len() == dirs.v().len()
    ensures r.v().dim == dirs.v().len(), r.v().dirs == dirs.v(), r.v().mean == mean.v(), r.v().cov == cov.v(), r.v().types == types.v(), diagonal(cov.v()) ==> r.v().is_diag { unimplemented!() }
// ---- expressions, functions and quadratures: sympy is uninterpreted
#[verifier::external_body] pub struct Expr { x: u8 }
#[verifier::external_body] pub struct Fun { x: u8 }
#[verifier::external_body] pub struct Qd { x: u8 }
#[verifier::external_body] pub ghost struct ExprV { x: u8 }
pub ghost struct FunV { pub sym: ExprV, pub dirs: Seq<int> }
pub ghost struct QuadV { pub position: PosV, pub nodes: Seq<Seq<real>>, pub weights: Seq<Seq<real>>, pub factor: FunV }
impl Py for Expr { type V = ExprV; uninterp spec fn v(&self) -> ExprV; }
impl Py for Fun { type V = FunV; uninterp spec fn v(&self) -> FunV; }
impl Py for Qd { type V = QuadV; uninterp spec fn v(&self) -> QuadV; }
pub uninterp spec fn emul(a: ExprV, b: ExprV) -> ExprV;
pub uninterp spec fn eint(a: int) -> ExprV;
// Function.project reads its argument as a set of directions, and keeps it as the directions of the result
pub uninterp spec fn fun_psym(f: FunV, d: Set<int>) -> ExprV;
pub open spec fn fun_projected(f: FunV, d: Seq<int>) -> FunV { FunV { sym: fun_psym(f, d.to_set()), dirs: d } }
#[verifier::external_body] pub fn expr_mul(a: &Expr, b: &Expr) -> (r: Expr) ensures r.v() == emul(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn sym_integer(a: &PInt) -> (r: Expr) ensures r.v() == eint(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_clone(a: &Expr) -> (r: Expr) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn fun_clone(a: &Fun) -> (r: Fun) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn qd_clone(a: &Qd) -> (r: Qd) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn fun_sym(a: &Fun) -> (r: Expr) ensures r.v() == a.v().sym { unimplemented!() }
#[verifier::external_body] pub fn fun_dirs(a: &Fun) -> (r: L<PInt>) ensures r.v() == a.v().dirs { unimplemented!() }
#[verifier::external_body] pub fn fun_project(a: &Fun, d: &L<PInt>) -> (r: Fun) ensures r.v() == fun_projected(a.v(), d.v()) { unimplemented!() }
#[verifier::external_body] pub fn fun_project1(a: &Fun, d: &PInt) -> (r: Fun) ensures r.v() == fun_projected(a.v(), seq![d.v()]) { unimplemented!() }
#[verifier::external_body] pub fn fun_new__expr_dirs(e: Expr, d: L<PInt>) -> (r: Fun) ensures r.v().sym == e.v(), r.v().dirs == d.v() { unimplemented!() }
#[verifier::external_body] pub fn quad_position(a: &Qd) -> (r: Pos) ensures r.v() == a.v().position { unimplemented!() }
#[verifier::external_body] pub fn quad_nodes(a: &Qd) -> (r: PMat) ensures r.v() == a.v().nodes { unimplemented!() }
#[verifier::external_body] pub fn quad_weights(a: &Qd) -> (r: PMat) ensures r.v() == a.v().weights { unimplemented!() }
#[verifier::external_body] pub fn quad_factor(a: &Qd) -> (r: Fun) ensures r.v() == a.v().factor { unimplemented!() }
// Quad.__init__ (an assumed contract)
#[verifier::external_body] pub fn quad_new__nodes_weights_position_factor(nodes: L<PVec>, weights: L<PVec>, position: Pos, factor: Expr) -> (r: Qd)
    ensures r.v().nodes == nodes.v(), r.v().weights == weights.v(), r.v().position == position.v(), r.v().factor.sym == factor.v() { unimplemented!() }
// ---- more numpy: elementwise operations on vectors and matrices
pub open spec fn vadd(a: Seq<real>, b: Seq<real>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] + b[i]) }
pub open spec fn vscale(a: Seq<real>, x: real) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] * x) }
pub open spec fn vshift(a: Seq<real>, x: real) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] + x) }
pub open spec fn vdiv(a: Seq<real>, x: real) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] / x) }
pub open spec fn takev(a: Seq<real>, n: int) -> Seq<real> { if n >= 0 { if n <= a.len() { a.take(n) } else { a } } else if -n <= a.len() { a.take(a.len() + n) } else { Seq::empty() } }
pub open spec fn pickv(a: Seq<real>, l: Seq<int>) -> Seq<real> { Seq::new(l.len(), |i: int| a[l[i]]) }
pub open spec fn madd(a: Seq<Seq<real>>, b: Seq<Seq<real>>) -> Seq<Seq<real>> { Seq::new(a.len(), |i: int| vadd(a[i], b[i])) }
pub open spec fn mscale(a: Seq<Seq<real>>, x: real) -> Seq<Seq<real>> { Seq::new(a.len(), |i: int| vscale(a[i], x)) }
pub open spec fn mshift(a: Seq<Seq<real>>, x: real) -> Seq<Seq<real>> { Seq::new(a.len(), |i: int| vshift(a[i], x)) }
pub open spec fn blockv(a: Seq<Seq<real>>, n: int, m: int) -> Seq<Seq<real>> { Seq::new(if n <= a.len() { nn(n) } else { a.len() }, |i: int| takev(a[i], m)) }
pub open spec fn pickm(a: Seq<Seq<real>>, l: Seq<int>, k: Seq<int>) -> Seq<Seq<real>> { Seq::new(l.len(), |i: int| pickv(a[l[i]], k)) }
pub open spec fn dotv(a: Seq<real>, b: Seq<real>, n: int) -> real decreases n { if n <= 0 { 0real } else { dotv(a, b, n - 1) + a[n - 1] * b[n - 1] } }
pub open spec fn matvec(a: Seq<Seq<real>>, x: Seq<real>) -> Seq<real> { Seq::new(a.len(), |i: int| dotv(a[i], x, x.len() as int)) }
pub open spec fn shapev(a: Seq<Seq<real>>) -> (int, int) { (a.len() as int, if a.len() > 0 { a[0].len() as int } else { 0 }) }
pub open spec fn rect(a: Seq<Seq<real>>) -> bool { forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==> (#[trigger] a[i]).len() == (#[trigger] a[j]).len() }
#[verifier::external_body] pub struct PNone { x: u8 }
#[verifier::external_body] pub struct PKw { x: u8 }
#[verifier::external_body] pub struct PShape { x: u8 }
impl Py for PNone { type V = int; uninterp spec fn v(&self) -> int; }
impl Py for PKw { type V = int; uninterp spec fn v(&self) -> int; }
impl Py for PShape { type V = (int, int); uninterp spec fn v(&self) -> (int, int); }
#[verifier::external_body] pub fn pnone() -> (r: PNone) { unimplemented!() }
#[verifier::external_body] pub fn pnone_clone(a: &PNone) -> (r: PNone) { unimplemented!() }
#[verifier::external_body] pub fn pkw() -> (r: PKw) { unimplemented!() }
#[verifier::external_body] pub fn pkw_clone(a: &PKw) -> (r: PKw) { unimplemented!() }
#[verifier::external_body] pub fn py_setting() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn pint_mul(a: &PInt, b: &PInt) -> (r: PInt) ensures r.v() == a.v() * b.v() { unimplemented!() }
#[verifier::external_body] pub fn preal_muli(a: &PReal, b: &PInt) -> (r: PReal) ensures r.v() == a.v() * (b.v() as real) { unimplemented!() }
// arrays of different lengths: numpy broadcasts an array of length 1 and raises otherwise
#[verifier::external_body] pub fn vec_add(a: &PVec, b: &PVec) -> (r: PVec) ensures a.v().len() == b.v().len() || a.v().len() == 1 || b.v().len() == 1, a.v().len() == b.v().len() ==> r.v() == vadd(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn vec_sub(a: &PVec, b: &PVec) -> (r: PVec) ensures a.v().len() == b.v().len() || a.v().len() == 1 || b.v().len() == 1, a.v().len() == b.v().len() ==> r.v() == vadd(a.v(), vscale(b.v(), -1real)) { unimplemented!() }
#[verifier::external_body] pub fn vec_addr(a: &PVec, x: &PReal) -> (r: PVec) ensures r.v() == vshift(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn vec_addi(a: &PVec, x: &PInt) -> (r: PVec) ensures r.v() == vshift(a.v(), x.v() as real) { unimplemented!() }
#[verifier::external_body] pub fn vec_mulr(a: &PVec, x: &PReal) -> (r: PVec) ensures r.v() == vscale(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn vec_muli(a: &PVec, x: &PInt) -> (r: PVec) ensures r.v() == vscale(a.v(), x.v() as real) { unimplemented!() }
#[verifier::external_body] pub fn vec_rmulr(x: &PReal, a: &PVec) -> (r: PVec) ensures r.v() == vscale(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn vec_divr(a: &PVec, x: &PReal) -> (r: PVec) ensures x.v() != 0real ==> r.v() == vdiv(a.v(), x.v()), r.v().len() == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn vec_divi(a: &PVec, x: &PInt) -> (r: PVec) ensures x.v() != 0 ==> r.v() == vdiv(a.v(), x.v() as real), r.v().len() == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn vec_cat(a: &PVec, b: &PVec) -> (r: PVec) ensures r.v() == a.v() + b.v() { unimplemented!() }
#[verifier::external_body] pub fn vec_take(a: &PVec, n: &PInt) -> (r: PVec) ensures r.v() == takev(a.v(), n.v()) { unimplemented!() }
#[verifier::external_body] pub fn vec_pick(a: &PVec, l: &L<PInt>) -> (r: PVec) requires forall|i: int| 0 <= i < l.v().len() ==> 0 <= #[trigger] l.v()[i] < a.v().len() ensures r.v() == pickv(a.v(), l.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_shape(a: &PMat) -> (r: PShape) ensures r.v() == shapev(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn shape_eq(a: &PShape, b: &PShape) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
#[verifier::external_body] pub fn pshape_clone(a: &PShape) -> (r: PShape) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn mat_add(a: &PMat, b: &PMat) -> (r: PMat) ensures shapev(a.v()) == shapev(b.v()) ==> r.v() == madd(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_sub(a: &PMat, b: &PMat) -> (r: PMat) ensures shapev(a.v()) == shapev(b.v()) ==> r.v() == madd(a.v(), mscale(b.v(), -1real)) { unimplemented!() }
#[verifier::external_body] pub fn mat_addr(a: &PMat, x: &PReal) -> (r: PMat) ensures r.v() == mshift(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_addi(a: &PMat, x: &PInt) -> (r: PMat) ensures r.v() == mshift(a.v(), x.v() as real) { unimplemented!() }
#[verifier::external_body] pub fn mat_mulr(a: &PMat, x: &PReal) -> (r: PMat) ensures r.v() == mscale(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_muli(a: &PMat, x: &PInt) -> (r: PMat) ensures r.v() == mscale(a.v(), x.v() as real) { unimplemented!() }
#[verifier::external_body] pub fn mat_dot(a: &PMat, x: &PVec) -> (r: PVec) ensures shapev(a.v()).1 == x.v().len(), r.v() == matvec(a.v(), x.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_block(a: &PMat, n: &PInt, m: &PInt) -> (r: PMat) requires n.v() >= 0, m.v() >= 0 ensures r.v() == blockv(a.v(), n.v(), m.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_pick(a: &PMat, l: &L<PInt>, k: &L<PInt>) -> (r: PMat)
    requires forall|i: int| 0 <= i < l.v().len() ==> 0 <= #[trigger] l.v()[i] < a.v().len(), forall|i: int| 0 <= i < k.v().len() ==> 0 <= #[trigger] k.v()[i] < shapev(a.v()).1
    ensures r.v() == pickm(a.v(), l.v(), k.v()) { unimplemented!() }
// ---- dictionaries: finite maps
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(T)] pub struct D<K: Py, T: Py> { k: Vec<K>, x: Vec<T> }
impl<K: Py, T: Py> Py for D<K, T> { type V = Map<K::V, T::V>; uninterp spec fn v(&self) -> Map<K::V, T::V>; }
#[verifier::external_body] pub fn d_new<K: Py, T: Py>() -> (r: D<K, T>) ensures r.v() == Map::<K::V, T::V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn d_clone<K: Py, T: Py>(a: &D<K, T>) -> (r: D<K, T>) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn d_set<K: Py, T: Py>(a: &mut D<K, T>, k: K, x: T) ensures final(a).v() == old(a).v().insert(k.v(), x.v()) { unimplemented!() }
// ---- sets of directions; list(s) of the same set gives the same order
pub uninterp spec fn fs_enum(s: Set<int>) -> Seq<int>;
#[verifier::external_body] pub fn fs_of(a: &L<PInt>) -> (r: FS) ensures r.v() == a.v().to_set() { unimplemented!() }
#[verifier::external_body] pub fn fs_intersection_l(a: &FS, b: &L<PInt>) -> (r: FS) ensures r.v() == a.v().intersect(b.v().to_set()) { unimplemented!() }
#[verifier::external_body] pub fn fs_list(a: &FS) -> (r: L<PInt>) ensures r.v() == fs_enum(a.v()), r.v().no_duplicates(), r.v().to_set() == a.v() { unimplemented!() }
// ---- comparisons of positions (up to 1e-10 in mean and covariance) and functions
pub uninterp spec fn pos_close(a: PosV, b: PosV) -> bool;
#[verifier::external_body] pub fn pos_eq(a: &Pos, b: &Pos) -> (r: bool) ensures r == pos_close(a.v(), b.v()), r ==> a.v().dirs == b.v().dirs && a.v().types == b.v().types { unimplemented!() }
#[verifier::external_body] pub fn fun_eq(a: &Fun, b: &Fun) -> (r: bool) ensures r == (a.v() == b.v()) { unimplemented!() }
pub uninterp spec fn ediv(a: ExprV, b: ExprV) -> ExprV;
#[verifier::external_body] pub fn expr_div(a: &Expr, b: &Expr) -> (r: Expr) ensures r.v() == ediv(a.v(), b.v()) { unimplemented!() }
// ---- the wrappers of the C++ library (their contracts are those of C01, C02, C04, C13, C14, C15: here functions of the arguments)
pub uninterp spec fn nsize(dim: int, degree: int, set: Seq<char>) -> int;
pub uninterp spec fn core_projectv(c: Seq<real>, dim: int, rel: Seq<int>, set: Seq<char>) -> Seq<real>;
pub uninterp spec fn core_projectm(c: Seq<Seq<real>>, dim: int, rel: Seq<int>, set: Seq<char>) -> Seq<Seq<real>>;
pub uninterp spec fn core_innerv(a: Seq<real>, b: Seq<real>, d: Seq<int>, e: Seq<int>, set: Seq<char>) -> Seq<real>;
pub uninterp spec fn core_tensorizem(m: Map<Set<int>, Seq<Seq<real>>>, set: Seq<char>) -> Seq<Seq<real>>;
pub uninterp spec fn core_indexv(m: Seq<int>, set: Seq<char>) -> int;
pub uninterp spec fn core_listv(dim: int, degree: int, set: Seq<char>) -> Seq<Seq<int>>;
pub open spec fn sumi(m: Seq<int>, n: int) -> int decreases n { if n <= 0 { 0 } else { sumi(m, n - 1) + m[n - 1] } }
pub open spec fn prod1(m: Seq<int>, n: int) -> int decreases n { if n <= 0 { 1 } else { prod1(m, n - 1) * (if m[n - 1] > 1 { m[n - 1] } else { 1 }) } }
#[verifier::external_body] pub proof fn ax_nsize(dim: int, d: int, e: int, set: Seq<char>) requires dim >= 1, 0 <= d <= e ensures 1 <= nsize(dim, d, set) <= nsize(dim, e, set) { }
#[verifier::external_body] pub proof fn ax_cross_list(dim: int, degree: int) requires dim >= 1, degree >= 1
    ensures forall|i: int| 0 <= i < core_listv(dim, degree, "cross"@).len() ==> (#[trigger] core_listv(dim, degree, "cross"@)[i]).len() == dim && (forall|k: int| 0 <= k < dim ==> core_listv(dim, degree, "cross"@)[i][k] >= 0) && prod1(core_listv(dim, degree, "cross"@)[i], dim) <= degree { }
#[verifier::external_body] pub proof fn ax_tri_index(m: Seq<int>, degree: int) requires m.len() >= 1, degree >= 0, forall|k: int| 0 <= k < m.len() ==> m[k] >= 0, sumi(m, m.len() as int) <= degree
    ensures 0 <= core_indexv(m, "triangle"@) < nsize(m.len() as int, degree, "triangle"@) { }
#[verifier::external_body] pub fn core_project_vec(c: &PVec, dim: &PInt, rel: &L<PInt>, set: &PStr) -> (r: PVec) ensures r.v() == core_projectv(c.v(), dim.v(), rel.v(), set.v()), r.v().len() >= 1 { unimplemented!() }
#[verifier::external_body] pub fn core_project_mat(c: &PMat, dim: &PInt, rel: &L<PInt>, set: &PStr) -> (r: PMat) ensures r.v() == core_projectm(c.v(), dim.v(), rel.v(), set.v()), squarem(r.v(), r.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn core_inner(a: &PVec, b: &PVec, d: &L<PInt>, e: &L<PInt>, set: &PStr) -> (r: PVec) ensures r.v() == core_innerv(a.v(), b.v(), d.v(), e.v(), set.v()), d.v().to_set() == e.v().to_set() ==> r.v().len() == 1 { unimplemented!() }
#[verifier::external_body] pub fn core_tensorize_mat(m: &D<FS, PMat>, set: &PStr) -> (r: PMat) ensures r.v() == core_tensorizem(m.v(), set.v()), squarem(r.v(), r.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn core_size(dim: &PInt, degree: &PInt, set: &PStr) -> (r: PInt) ensures r.v() == nsize(dim.v(), degree.v(), set.v()) { unimplemented!() }
#[verifier::external_body] pub fn core_index(m: &L<PInt>, set: &PStr) -> (r: PInt) ensures r.v() == core_indexv(m.v(), set.v()) { unimplemented!() }
#[verifier::external_body] pub fn core_list(dim: &PInt, degree: &PInt, set: &PStr) -> (r: L<L<PInt>>) ensures r.v() == core_listv(dim.v(), degree.v(), set.v()) { unimplemented!() }
// ---- Series and Varf objects; their constructors (assumed): the fields as given, the degree from the number of entries (C04), an exception if they do not fit
#[verifier::external_body] pub struct Ser { x: u8 }
#[verifier::external_body] pub struct Vf { x: u8 }
pub ghost struct SerV { pub coeffs: Seq<real>, pub position: PosV, pub factor: FunV, pub index_set: Seq<char>, pub degree: int }
pub ghost struct VarfV { pub matrix: Seq<Seq<real>>, pub position: PosV, pub factor: FunV, pub index_set: Seq<char>, pub degree: int }
impl Py for Ser { type V = SerV; uninterp spec fn v(&self) -> SerV; }
impl Py for Vf { type V = VarfV; uninterp spec fn v(&self) -> VarfV; }
#[verifier::external_body] pub fn ser_clone(a: &Ser) -> (r: Ser) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn vf_clone(a: &Vf) -> (r: Vf) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn ser_coeffs(a: &Ser) -> (r: PVec) ensures r.v() == a.v().coeffs { unimplemented!() }
#[verifier::external_body] pub fn ser_position(a: &Ser) -> (r: Pos) ensures r.v() == a.v().position { unimplemented!() }
#[verifier::external_body] pub fn ser_factor(a: &Ser) -> (r: Fun) ensures r.v() == a.v().factor { unimplemented!() }
#[verifier::external_body] pub fn ser_index_set(a: &Ser) -> (r: PStr) ensures r.v() == a.v().index_set { unimplemented!() }
#[verifier::external_body] pub fn ser_degree(a: &Ser) -> (r: PInt) ensures r.v() == a.v().degree { unimplemented!() }
#[verifier::external_body] pub fn vf_matrix(a: &Vf) -> (r: PMat) ensures r.v() == a.v().matrix { unimplemented!() }
#[verifier::external_body] pub fn vf_position(a: &Vf) -> (r: Pos) ensures r.v() == a.v().position { unimplemented!() }
#[verifier::external_body] pub fn vf_factor(a: &Vf) -> (r: Fun) ensures r.v() == a.v().factor { unimplemented!() }
#[verifier::external_body] pub fn vf_index_set(a: &Vf) -> (r: PStr) ensures r.v() == a.v().index_set { unimplemented!() }
#[verifier::external_body] pub fn vf_degree(a: &Vf) -> (r: PInt) ensures r.v() == a.v().degree { unimplemented!() }
#[verifier::external_body] pub fn vf_is_sparse(a: &Vf) -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn ser_new__coeffs_position_factor_index_set(coeffs: PVec, position: Pos, factor: Fun, index_set: PStr) -> (r: Ser)
    ensures r.v().coeffs == coeffs.v(), r.v().position == position.v(), r.v().factor == factor.v(), r.v().index_set == index_set.v(), r.v().degree >= 0, position.v().dirs.len() > 0 ==> coeffs.v().len() == nsize(position.v().dim, r.v().degree, index_set.v()) { unimplemented!() }
#[verifier::external_body] pub fn vf_new__matrix_position_factor_index_set(matrix: PMat, position: Pos, factor: Fun, index_set: PStr) -> (r: Vf)
    ensures r.v().matrix == matrix.v(), r.v().position == position.v(), r.v().factor == factor.v(), r.v().index_set == index_set.v(), r.v().degree >= 0, matrix.v().len() == nsize(position.v().dim, r.v().degree, index_set.v()) { unimplemented!() }
// ---- quadratures at work: discretisation, transforms, matrices of operators (contracts of C05, C07, C10, C11: here functions of the arguments)
#[verifier::external_body] pub struct PRep { x: u8 }
impl Py for PRep { type V = int; uninterp spec fn v(&self) -> int; }
#[verifier::external_body] pub fn prep() -> (r: PRep) { unimplemented!() }
#[verifier::external_body] pub fn prep_clone(a: &PRep) -> (r: PRep) { unimplemented!() }
pub uninterp spec fn flt(s: Seq<char>) -> real;      // a decimal literal
#[verifier::external_body] pub fn preal_lit(s: &str) -> (r: PReal) ensures r.v() == flt(s@) { unimplemented!() }
#[verifier::external_body] pub fn preal_gt(a: &PReal, b: &PReal) -> (r: bool) ensures r == (a.v() > b.v()) { unimplemented!() }
#[verifier::external_body] pub fn preal_lt(a: &PReal, b: &PReal) -> (r: bool) ensures r == (a.v() < b.v()) { unimplemented!() }
pub uninterp spec fn rsqrt(x: real) -> real;
#[verifier::external_body] pub fn np_sqrt(a: &PReal) -> (r: PReal) ensures r.v() == rsqrt(a.v()), a.v() > 0real ==> r.v() > 0real && r.v() * r.v() == a.v() { unimplemented!() }
pub open spec fn repv<A>(x: A, k: int) -> Seq<A> { Seq::new(nn(k), |i: int| x) }
pub open spec fn flatv<A>(s: Seq<Seq<A>>, k: int) -> Seq<A> decreases k { if k <= 0 { Seq::empty() } else { flatv(s, k - 1) + s[k - 1] } }
#[verifier::external_body] pub fn l_flat<T: Py>(a: &L<L<T>>) -> (r: L<T>) ensures r.v() == flatv(a.v(), a.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn d_is_empty<K: Py, T: Py>(a: &D<K, T>) -> (r: bool) ensures r == (a.v().dom() =~= Set::empty()) { unimplemented!() }
pub open spec fn enumerates<A, B>(s: Seq<A>, m: Map<A, B>) -> bool { s.no_duplicates() && forall|x: A| #[trigger] s.contains(x) <==> m.dom().contains(x) }
#[verifier::external_body] pub fn d_keys<K: Py, T: Py>(a: &D<K, T>) -> (r: L<K>) ensures enumerates(r.v(), a.v()), (r.v().len() == 0) == (a.v().dom() =~= Set::empty()) { unimplemented!() }
#[verifier::external_body] pub fn d_get<K: Py, T: Py>(a: &D<K, T>, k: &K) -> (r: T) requires a.v().dom().contains(k.v()) ensures r.v() == a.v()[k.v()] { unimplemented!() }
pub open spec fn mdiv(a: Seq<Seq<real>>, x: real) -> Seq<Seq<real>> { Seq::new(a.len(), |i: int| vdiv(a[i], x)) }
pub open spec fn mmul(a: Seq<Seq<real>>, b: Seq<Seq<real>>) -> Seq<Seq<real>> { Seq::new(a.len(), |i: int| vmulv(a[i], b[i])) }
pub open spec fn colv(a: Seq<Seq<real>>, j: int) -> Seq<real> { Seq::new(a.len(), |i: int| a[i][j]) }
pub open spec fn matmul(a: Seq<Seq<real>>, b: Seq<Seq<real>>) -> Seq<Seq<real>> { Seq::new(a.len(), |i: int| Seq::new(shapev(b).1 as nat, |j: int| dotv(a[i], colv(b, j), b.len() as int))) }
pub open spec fn diagv(a: Seq<Seq<real>>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i][i]) }
pub uninterp spec fn minv(a: Seq<Seq<real>>) -> Seq<Seq<real>>;
pub uninterp spec fn normm(a: Seq<Seq<real>>, p: int) -> real;
pub open spec fn vmulv(a: Seq<real>, b: Seq<real>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] * b[i]) }
pub open spec fn vdivv(a: Seq<real>, b: Seq<real>) -> Seq<real> { Seq::new(a.len(), |i: int| a[i] / b[i]) }
pub open spec fn veqi(a: Seq<real>, k: int) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] == k as real) }
pub open spec fn bscale(a: Seq<bool>, x: real) -> Seq<real> { Seq::new(a.len(), |i: int| if a[i] { x } else { 0real }) }
#[verifier::external_body] pub struct BVec { x: u8 }
impl Py for BVec { type V = Seq<bool>; uninterp spec fn v(&self) -> Seq<bool>; }
#[verifier::external_body] pub fn vec_eqi(a: &PVec, k: &PInt) -> (r: BVec) ensures r.v() == veqi(a.v(), k.v()) { unimplemented!() }
#[verifier::external_body] pub fn bvec_rmul(x: &PReal, a: &BVec) -> (r: PVec) ensures r.v() == bscale(a.v(), x.v()) { unimplemented!() }
// arrays of different lengths: see vec_add; a quotient by zero is unspecified
#[verifier::external_body] pub fn vec_divv(a: &PVec, b: &PVec) -> (r: PVec) ensures a.v().len() == b.v().len() || a.v().len() == 1 || b.v().len() == 1, a.v().len() == b.v().len() ==> r.v().len() == a.v().len() && forall|i: int| 0 <= i < a.v().len() && b.v()[i] != 0real ==> #[trigger] r.v()[i] == a.v()[i] / b.v()[i] { unimplemented!() }
#[verifier::external_body] pub fn vec_mulv(a: &PVec, b: &PVec) -> (r: PVec) ensures a.v().len() == b.v().len() || a.v().len() == 1 || b.v().len() == 1, a.v().len() == b.v().len() ==> r.v() == vmulv(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_divr(a: &PMat, x: &PReal) -> (r: PMat) ensures x.v() != 0real ==> r.v() == mdiv(a.v(), x.v()), r.v().len() == a.v().len() { unimplemented!() }
#[verifier::external_body] pub fn mat_mul(a: &PMat, b: &PMat) -> (r: PMat) ensures shapev(a.v()) == shapev(b.v()) ==> r.v() == mmul(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_matmul(a: &PMat, b: &PMat) -> (r: PMat) ensures shapev(a.v()).1 == b.v().len() ==> r.v() == matmul(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn np_diagv(a: &PMat) -> (r: PVec) ensures squarem(a.v(), a.v().len() as int) ==> r.v() == diagv(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn np_diagm(a: &PVec) -> (r: PMat) ensures r.v() == diagm(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn np_inv(a: &PMat) -> (r: PMat) ensures r.v() == minv(a.v()), squarem(a.v(), a.v().len() as int) ==> squarem(r.v(), a.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn np_norm(a: &PMat, p: &PInt) -> (r: PReal) ensures r.v() == normm(a.v(), p.v()) { unimplemented!() }
// numpy's eigenvalues of a diagonal matrix are its diagonal, in order
#[verifier::external_body] pub fn np_eigval(a: &PMat) -> (r: PVec) ensures r.v().len() == a.v().len(), squarem(a.v(), a.v().len() as int) && diagonal(a.v()) ==> r.v() == diagv(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn mat_rows(a: &PMat) -> (r: L<PVec>) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn mat_setrow(a: &mut PMat, i: &PInt, x: &PVec) requires 0 <= i.v() < old(a).v().len(), x.v().len() == old(a).v()[i.v()].len() ensures final(a).v() == old(a).v().update(i.v(), x.v()) { unimplemented!() }
// Position.factor: a square matrix determined by the covariance; Function.ccode, Position.weight: sympy
pub uninterp spec fn pos_factorv(p: PosV) -> Seq<Seq<real>>;
pub uninterp spec fn pos_weightv(p: PosV) -> ExprV;
pub uninterp spec fn ccodev(f: FunV) -> Seq<char>;
#[verifier::external_body] pub fn pos_factor(a: &Pos) -> (r: PMat) ensures r.v() == pos_factorv(a.v()), squarem(r.v(), a.v().dim) { unimplemented!() }
#[verifier::external_body] pub fn pos_weight(a: &Pos) -> (r: Expr) ensures r.v() == pos_weightv(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn fun_ccode(a: &Fun) -> (r: PStr) ensures r.v() == ccodev(a.v()) { unimplemented!() }
pub open spec fn fourier_flags(t: Seq<Seq<char>>) -> Seq<int> { Seq::new(t.len(), |i: int| if t[i] == "fourier"@ { 1int } else { 0int }) }
#[verifier::external_body] pub fn quad_do_fourier(a: &Qd) -> (r: L<PInt>) ensures r.v() == fourier_flags(a.v().position.types) { unimplemented!() }
// operators: the coefficient of each mixed derivative (sympy)
#[verifier::external_body] pub struct Op { x: u8 }
pub ghost struct OpV { pub sym: ExprV, pub dirs: Seq<int> }
impl Py for Op { type V = OpV; uninterp spec fn v(&self) -> OpV; }
pub uninterp spec fn op_mapv(a: OpV, f: FunV) -> OpV;
pub uninterp spec fn op_splitv(a: OpV) -> Map<Seq<int>, FunV>;
#[verifier::external_body] pub fn op_clone(a: &Op) -> (r: Op) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn op_dirs(a: &Op) -> (r: L<PInt>) ensures r.v() == a.v().dirs { unimplemented!() }
#[verifier::external_body] pub fn op_map(a: &Op, f: &Fun) -> (r: Op) ensures r.v() == op_mapv(a.v(), f.v()) { unimplemented!() }
#[verifier::external_body] pub fn op_split(a: &Op) -> (r: D<L<PInt>, Fun>) ensures r.v() == op_splitv(a.v()), forall|m: Seq<int>| #[trigger] r.v().dom().contains(m) ==> m.len() == a.v().dirs.len() && (forall|i: int| 0 <= i < m.len() ==> m[i] >= 0) { unimplemented!() }
// the wrappers of the C++ library
pub uninterp spec fn core_discretizev(code: Seq<char>, nodes: Seq<Seq<real>>, tr: Seq<real>, dil: Seq<Seq<real>>) -> Seq<real>;
pub uninterp spec fn core_integratev(f: Seq<real>, nodes: Seq<Seq<real>>, weights: Seq<Seq<real>>, four: Seq<int>) -> real;
pub uninterp spec fn core_transformv(degree: int, f: Seq<real>, nodes: Seq<Seq<real>>, weights: Seq<Seq<real>>, forward: bool, four: Seq<int>, set: Seq<char>) -> Seq<real>;
pub uninterp spec fn core_varfv(degree: int, f: Seq<real>, nodes: Seq<Seq<real>>, weights: Seq<Seq<real>>, four: Seq<int>, set: Seq<char>) -> Seq<Seq<real>>;
pub uninterp spec fn core_varfdv(dim: int, degree: int, dir: int, m: Seq<Seq<real>>, four: int, set: Seq<char>) -> Seq<Seq<real>>;
pub open spec fn npoints(nodes: Seq<Seq<real>>, k: int) -> int decreases k { if k <= 0 { 1 } else { npoints(nodes, k - 1) * nodes[k - 1].len() } }
#[verifier::external_body] pub fn core_discretize(code: &PStr, nodes: &PMat, tr: &PVec, dil: &PMat) -> (r: PVec) ensures r.v() == core_discretizev(code.v(), nodes.v(), tr.v(), dil.v()), r.v().len() == npoints(nodes.v(), nodes.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn core_integrate(f: &PVec, nodes: &PMat, weights: &PMat, four: &L<PInt>) -> (r: PReal) ensures r.v() == core_integratev(f.v(), nodes.v(), weights.v(), four.v()) { unimplemented!() }
#[verifier::external_body] pub fn core_transform(degree: &PInt, f: &PVec, nodes: &PMat, weights: &PMat, forward: bool, four: &L<PInt>, set: &PStr) -> (r: PVec)
    ensures r.v() == core_transformv(degree.v(), f.v(), nodes.v(), weights.v(), forward, four.v(), set.v()), forward ==> r.v().len() == nsize(nodes.v().len() as int, degree.v(), set.v()), !forward ==> r.v().len() == npoints(nodes.v(), nodes.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn core_varf(degree: &PInt, f: &PVec, nodes: &PMat, weights: &PMat, four: &L<PInt>, set: &PStr) -> (r: PMat)
    ensures r.v() == core_varfv(degree.v(), f.v(), nodes.v(), weights.v(), four.v(), set.v()), squarem(r.v(), nsize(nodes.v().len() as int, degree.v(), set.v())) { unimplemented!() }
#[verifier::external_body] pub fn core_varfd(dim: &PInt, degree: &PInt, dir: &PInt, m: &PMat, four: &PInt, set: &PStr) -> (r: PMat)
    ensures r.v() == core_varfdv(dim.v(), degree.v(), dir.v(), m.v(), four.v(), set.v()), squarem(r.v(), m.v().len() as int) { unimplemented!() }
#[verifier::external_body] pub fn ser_new__coeffs_position_factor_index_set_significant(coeffs: PVec, position: Pos, factor: Fun, index_set: PStr, significant: PInt) -> (r: Ser)
    ensures significant.v() == 0 ==> r.v().coeffs == coeffs.v(), r.v().coeffs.len() == coeffs.v().len(), r.v().position == position.v(), r.v().factor == factor.v(), r.v().index_set == index_set.v(), r.v().degree >= 0, position.v().dirs.len() > 0 ==> coeffs.v().len() == nsize(position.v().dim, r.v().degree, index_set.v()) { unimplemented!() }
// a number or an operator: the start value 0 of a sum of operators
#[verifier::external_body] pub struct Nv { x: u8 }
pub ghost enum NvV { Num(int), Vf(VarfV) }
impl Py for Nv { type V = NvV; uninterp spec fn v(&self) -> NvV; }
#[verifier::external_body] pub fn nv_int(a: &PInt) -> (r: Nv) ensures r.v() == NvV::Num(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn nv_varf(a: &Vf) -> (r: Nv) ensures r.v() == NvV::Vf(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn nv_clone(a: &Nv) -> (r: Nv) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn nv_get(a: &Nv) -> (r: Vf) requires a.v() is Vf ensures r.v() == a.v()->Vf_0 { unimplemented!() }
}
