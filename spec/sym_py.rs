// Symbolic expressions of the Python package: values, factors and terms, the directions an expression involves.
// at(e, x): the value of the expression at the point x (a value for every symbol); reals stand for floats and sympy numbers.
#[verifier::external_body] pub struct Symb { x: u8 }
#[verifier::external_body] pub struct Syms { x: u8 }
impl Py for Symb { type V = int; uninterp spec fn v(&self) -> int; }
impl Py for Syms { type V = Set<int>; uninterp spec fn v(&self) -> Set<int>; }
pub uninterp spec fn at(e: ExprV, x: spec_fn(int) -> real) -> real;
pub uninterp spec fn free(e: ExprV) -> Set<int>;
pub uninterp spec fn argsv(e: ExprV) -> Seq<ExprV>;
pub uninterp spec fn is_addv(e: ExprV) -> bool;
pub uninterp spec fn is_mulv(e: ExprV) -> bool;
pub uninterp spec fn eadd(a: ExprV, b: ExprV) -> ExprV;
pub uninterp spec fn xsubv() -> Seq<int>;       // Function.x_sub: the symbols of the directions
// product of a list of expressions, sum of a list of expressions
pub open spec fn lprod(s: Seq<ExprV>, k: int, x: spec_fn(int) -> real) -> real decreases k { if k <= 0 { 1real } else { lprod(s, k - 1, x) * at(s[k - 1], x) } }
pub open spec fn lsum(s: Seq<ExprV>, k: int, x: spec_fn(int) -> real) -> real decreases k { if k <= 0 { 0real } else { lsum(s, k - 1, x) + at(s[k - 1], x) } }
// assumed about sympy
pub broadcast axiom fn ax_mul(a: ExprV, b: ExprV, x: spec_fn(int) -> real) ensures #[trigger] at(emul(a, b), x) == at(a, x) * at(b, x) && at(emul(a, b), x) == at(b, x) * at(a, x);
pub broadcast axiom fn ax_add(a: ExprV, b: ExprV, x: spec_fn(int) -> real) ensures #[trigger] at(eadd(a, b), x) == at(a, x) + at(b, x);
pub broadcast axiom fn ax_div(a: ExprV, b: ExprV, x: spec_fn(int) -> real) ensures at(b, x) != 0real ==> #[trigger] at(ediv(a, b), x) == at(a, x) / at(b, x);
pub broadcast axiom fn ax_int(a: int, x: spec_fn(int) -> real) ensures #[trigger] at(eint(a), x) == a as real;
pub axiom fn ax_free(e: ExprV, x: spec_fn(int) -> real, y: spec_fn(int) -> real) requires forall|i: int| #[trigger] free(e).contains(i) ==> x(i) == y(i) ensures at(e, x) == at(e, y);
pub axiom fn ax_args(e: ExprV)
    ensures is_addv(e) ==> forall|x: spec_fn(int) -> real| #[trigger] at(e, x) == lsum(argsv(e), argsv(e).len() as int, x), is_mulv(e) ==> forall|x: spec_fn(int) -> real| #[trigger] at(e, x) == lprod(argsv(e), argsv(e).len() as int, x),
        forall|j: int| 0 <= j < argsv(e).len() ==> free(#[trigger] argsv(e)[j]).subset_of(free(e));
pub axiom fn ax_xsub() ensures xsubv().no_duplicates();
#[verifier::external_body] pub fn expr_is_add(e: &Expr) -> (r: bool) ensures r == is_addv(e.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_is_mul(e: &Expr) -> (r: bool) ensures r == is_mulv(e.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_args(e: &Expr) -> (r: L<Expr>) ensures r.v() == argsv(e.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_free(e: &Expr) -> (r: Syms) ensures r.v() == free(e.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_add(a: &Expr, b: &Expr) -> (r: Expr) ensures r.v() == eadd(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn fun_xsub(f: &Fun) -> (r: L<Symb>) ensures r.v() == xsubv() { unimplemented!() }
#[verifier::external_body] pub fn syms_inter(a: &Syms, b: &L<Symb>) -> (r: Syms) ensures r.v() == a.v().intersect(b.v().to_set()) { unimplemented!() }
#[verifier::external_body] pub fn syms_clone(a: &Syms) -> (r: Syms) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn symb_clone(a: &Symb) -> (r: Symb) ensures r.v() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn syms_list(a: &Syms) -> (r: L<Symb>) ensures r.v().no_duplicates(), r.v().to_set() == a.v(), forall|x: int| #[trigger] r.v().contains(x) <==> a.v().contains(x) { unimplemented!() }
// more of Python's sets and dictionaries
#[verifier::external_body] pub fn fs_new() -> (r: FS) ensures r.v() == Set::<int>::empty() { unimplemented!() }
#[verifier::external_body] pub fn fs_one(a: &PInt) -> (r: FS) ensures r.v() == set![a.v()] { unimplemented!() }
#[verifier::external_body] pub fn fs_union_l(a: &FS, b: &L<PInt>) -> (r: FS) ensures r.v() == a.v().union(b.v().to_set()) { unimplemented!() }
#[verifier::external_body] pub fn fs_issubset_l(a: &FS, b: &L<PInt>) -> (r: bool) ensures r == a.v().subset_of(b.v().to_set()) { unimplemented!() }
#[verifier::external_body] pub fn py_sorted_fs(a: &FS) -> (r: L<PInt>) ensures ascending(r.v()), r.v().no_duplicates(), r.v().to_set() == a.v() { unimplemented!() }
#[verifier::external_body] pub fn d_has<K: Py, T: Py>(a: &D<K, T>, k: &K) -> (r: bool) ensures r == a.v().dom().contains(k.v()) { unimplemented!() }
#[verifier::external_body] pub fn d_del<K: Py, T: Py>(a: &mut D<K, T>, k: &K) requires old(a).v().dom().contains(k.v()) ensures final(a).v() == old(a).v().remove(k.v()) { unimplemented!() }
