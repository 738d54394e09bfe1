// Symbolic operators of the Python package: expressions with one unknown function.
// oat(e, g, x): the value of the expression e at the point x when the unknown function is g.
pub type X = spec_fn(int) -> real;
pub type Gf = spec_fn(spec_fn(int) -> real) -> real;
pub uninterp spec fn oat(e: ExprV, g: Gf, x: X) -> real;
pub uninterp spec fn esub(a: ExprV, b: ExprV) -> ExprV;
pub uninterp spec fn eneg(a: ExprV) -> ExprV;
pub uninterp spec fn eunk(vars: Seq<int>) -> ExprV;                         // the unknown function of these variables
pub uninterp spec fn esubs(e: ExprV, u: ExprV, a: ExprV) -> ExprV;          // e with u replaced by a, derivatives evaluated
pub uninterp spec fn plain(e: ExprV) -> bool;                               // no unknown function
pub uninterp spec fn isop(e: ExprV, u: ExprV) -> bool;                      // the only unknown function of e is u (or there is none)
pub open spec fn fun_rmulv(f: FunV, e: ExprV) -> FunV { FunV { sym: emul(f.sym, e), dirs: f.dirs } }
pub open spec fn fnof(a: ExprV) -> Gf { |y: X| at(a, y) }
pub open spec fn opof(a: ExprV, g: Gf) -> Gf { |y: X| oat(a, g, y) }
pub open spec fn vars_of(dirs: Seq<int>) -> Seq<int> { Seq::new(dirs.len(), |i: int| xsubv()[dirs[i]]) }
pub open spec fn unk(dirs: Seq<int>) -> ExprV { eunk(vars_of(dirs)) }
pub open spec fn wfd(dirs: Seq<int>) -> bool { forall|i: int| 0 <= i < dirs.len() ==> 0 <= #[trigger] dirs[i] < xsubv().len() }
pub open spec fn wfo(o: OpV) -> bool { wfd(o.dirs) && isop(o.sym, unk(o.dirs)) }
// assumed about sympy
pub broadcast axiom fn ax_omul(a: ExprV, b: ExprV, g: Gf, x: X) ensures #[trigger] oat(emul(a, b), g, x) == oat(a, g, x) * oat(b, g, x) && oat(emul(a, b), g, x) == oat(b, g, x) * oat(a, g, x);
pub broadcast axiom fn ax_oadd(a: ExprV, b: ExprV, g: Gf, x: X) ensures #[trigger] oat(eadd(a, b), g, x) == oat(a, g, x) + oat(b, g, x);
pub broadcast axiom fn ax_osub(a: ExprV, b: ExprV, g: Gf, x: X) ensures #[trigger] oat(esub(a, b), g, x) == oat(a, g, x) - oat(b, g, x);
pub broadcast axiom fn ax_oneg(a: ExprV, g: Gf, x: X) ensures #[trigger] oat(eneg(a), g, x) == -oat(a, g, x);
pub broadcast axiom fn ax_odiv(a: ExprV, b: ExprV, g: Gf, x: X) ensures oat(b, g, x) != 0real ==> #[trigger] oat(ediv(a, b), g, x) == oat(a, g, x) / oat(b, g, x);
pub broadcast axiom fn ax_oint(a: int, g: Gf, x: X) ensures #[trigger] oat(eint(a), g, x) == a as real;
pub broadcast axiom fn ax_plain(a: ExprV, g: Gf, x: X) ensures plain(a) ==> #[trigger] oat(a, g, x) == at(a, x);
pub broadcast axiom fn ax_plainop(a: ExprV, u: ExprV) ensures plain(a) ==> #[trigger] isop(a, u);
pub broadcast axiom fn ax_unk(vars: Seq<int>, g: Gf, x: X) ensures #[trigger] oat(eunk(vars), g, x) == g(x);
pub broadcast axiom fn ax_isop_emul(a: ExprV, b: ExprV, u: ExprV) ensures isop(a, u) && isop(b, u) ==> #[trigger] isop(emul(a, b), u);
pub broadcast axiom fn ax_isop_eadd(a: ExprV, b: ExprV, u: ExprV) ensures isop(a, u) && isop(b, u) ==> #[trigger] isop(eadd(a, b), u);
pub broadcast axiom fn ax_isop_esub(a: ExprV, b: ExprV, u: ExprV) ensures isop(a, u) && isop(b, u) ==> #[trigger] isop(esub(a, b), u);
pub broadcast axiom fn ax_isop_ediv(a: ExprV, b: ExprV, u: ExprV) ensures isop(a, u) && isop(b, u) ==> #[trigger] isop(ediv(a, b), u);
pub broadcast axiom fn ax_isop1(a: ExprV, u: ExprV) ensures isop(a, u) ==> #[trigger] isop(eneg(a), u);
pub broadcast axiom fn ax_subs_op(e: ExprV, u: ExprV, a: ExprV, g: Gf, x: X)
    ensures isop(e, u) && isop(a, u) && !plain(u) ==> #[trigger] oat(esubs(e, u, a), g, x) == oat(e, opof(a, g), x);
pub broadcast axiom fn ax_subs_fn(e: ExprV, u: ExprV, a: ExprV, x: X)
    ensures isop(e, u) && plain(a) ==> #[trigger] at(esubs(e, u, a), x) == oat(e, fnof(a), x);
pub broadcast axiom fn ax_unk_vars(vars: Seq<int>) ensures !plain(#[trigger] eunk(vars)), isop(eunk(vars), eunk(vars));
pub broadcast axiom fn ax_plain_int(a: int) ensures plain(#[trigger] eint(a));
pub broadcast axiom fn ax_subs_kind(e: ExprV, u: ExprV, a: ExprV) ensures isop(e, u) && isop(a, u) && !plain(u) ==> isop(#[trigger] esubs(e, u, a), u), isop(e, u) && plain(a) ==> plain(esubs(e, u, a));
pub broadcast group sympy_op { ax_omul, ax_oadd, ax_osub, ax_oneg, ax_odiv, ax_oint, ax_plain, ax_plainop, ax_unk, ax_isop_emul, ax_isop_eadd, ax_isop_esub, ax_isop_ediv, ax_isop1, ax_subs_op, ax_subs_fn, ax_unk_vars, ax_plain_int, ax_subs_kind }
#[verifier::external_body] pub fn op_sym(o: &Op) -> (r: Expr) ensures r.v() == o.v().sym { unimplemented!() }
#[verifier::external_body] pub fn op_new__expr_dirs(e: Expr, d: L<PInt>) -> (r: Op) requires isop(e.v(), unk(d.v())) ensures r.v().sym == e.v(), r.v().dirs == d.v() { unimplemented!() }
#[verifier::external_body] pub fn op_unknown(v: &L<Symb>) -> (r: Expr) ensures r.v() == eunk(v.v()), forall|d: Seq<int>| d.len() == v.v().len() && (forall|i: int| 0 <= i < d.len() ==> v.v()[i] == xsubv()[#[trigger] d[i]]) ==> r.v() == #[trigger] unk(d) { unimplemented!() }
#[verifier::external_body] pub fn class_xsub() -> (r: L<Symb>) ensures r.v() == xsubv() { unimplemented!() }
#[verifier::external_body] pub fn expr_subs(e: &Expr, u: &Expr, a: &Expr) -> (r: Expr) ensures r.v() == esubs(e.v(), u.v(), a.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_doit(e: &Expr) -> (r: Expr) ensures r.v() == e.v() { unimplemented!() }
#[verifier::external_body] pub fn expr_expand(e: &Expr) -> (r: Expr) ensures r.v() == e.v() { unimplemented!() }
#[verifier::external_body] pub fn expr_sub(a: &Expr, b: &Expr) -> (r: Expr) ensures r.v() == esub(a.v(), b.v()) { unimplemented!() }
#[verifier::external_body] pub fn expr_neg(a: &Expr) -> (r: Expr) ensures r.v() == eneg(a.v()) { unimplemented!() }
#[verifier::external_body] pub fn fun_rmul(e: &Expr, f: &Fun) -> (r: Fun) ensures r.v() == fun_rmulv(f.v(), e.v()) { unimplemented!() }
