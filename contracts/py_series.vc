//! hermipy/series.py
@fn py::series::Series::project
@params self, directions
@types ser, list:int -> ser
@requires
wfs(p_self.v()), p_directions.v().len() > 0, forall|i: int| 0 <= i < p_directions.v().len() ==> p_self.v().position.dirs.contains(#[trigger] p_directions.v()[i]),
@ensures
r.v().coeffs == core_projectv(p_self.v().coeffs, p_self.v().position.dim, reldirs(p_self.v().position, p_directions.v()), p_self.v().index_set),
pos_restricted(r.v().position, p_self.v().position, p_directions.v()), r.v().factor == fun_projected(p_self.v().factor, p_directions.v()), r.v().index_set == p_self.v().index_set,
@at assign.rel_dirs0
assert(rel_dirs.v() =~= reldirs(p_self.v().position, p_directions.v()));
@fn py::series::Series::project__int
@params self, directions
@types ser, int -> ser
@requires
wfs(p_self.v()), p_self.v().position.dirs.contains(p_directions.v()),
@ensures
r.v().coeffs == core_projectv(p_self.v().coeffs, p_self.v().position.dim, reldirs(p_self.v().position, seq![p_directions.v()]), p_self.v().index_set),
pos_restricted(r.v().position, p_self.v().position, seq![p_directions.v()]), r.v().factor == fun_projected(p_self.v().factor, seq![p_directions.v()]), r.v().index_set == p_self.v().index_set,
@at assign.rel_dirs0
assert(rel_dirs.v() =~= reldirs(p_self.v().position, seq![p_directions.v()]));
@fn py::series::Series::subdegree
@params self, degree
@types ser, int -> ser
@requires
wfs(p_self.v()), p_self.v().position.dim >= 1, p_degree.v() >= 0,
@maythrow
p_self.v().index_set == "cross_nc"@
@ensures
p_self.v().index_set != "cross_nc"@, same_but_coeffs(r.v(), p_self.v()), r.v().coeffs.len() == nsize(p_self.v().position.dim, p_degree.v(), p_self.v().index_set),
forall|i: int| 0 <= i < r.v().coeffs.len() ==> #[trigger] r.v().coeffs[i] == (if i < p_self.v().coeffs.len() { p_self.v().coeffs[i] } else { 0real }),
@at entry
if p_degree.v() <= p_self.v().degree { ax_nsize(p_self.v().position.dim, p_degree.v(), p_self.v().degree, p_self.v().index_set); } else { ax_nsize(p_self.v().position.dim, p_self.v().degree, p_degree.v(), p_self.v().index_set); }
@fn py::series::Series::to_cross
@params self, degree
@types ser, int -> ser
@requires
wfs(p_self.v()), p_self.v().position.dim >= 1, p_degree.v() >= 1,
@maythrow
p_self.v().index_set != "triangle"@ || p_degree.v() + p_self.v().position.dim - 1 > p_self.v().degree
@ensures
p_self.v().index_set == "triangle"@, p_degree.v() + p_self.v().position.dim - 1 <= p_self.v().degree, r.v().position == p_self.v().position, r.v().factor == p_self.v().factor, r.v().index_set == "cross"@,
r.v().coeffs == pickv(p_self.v().coeffs, cross_in_tri(p_self.v().position.dim, p_degree.v())),
@at entry
if p_degree.v() + p_self.v().position.dim - 1 <= p_self.v().degree { lemma_cross_tri(p_self.v().position.dim, p_degree.v(), p_self.v().degree); }
@fn py::series::Series::__add__
@params self, other
@types ser, ser -> ser
@requires
wfs(p_self.v()), wfs(p_other.v()),
@maythrow
!compatible(p_self.v(), p_other.v())
@ensures
compatible(p_self.v(), p_other.v()), same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vadd(p_self.v().coeffs, p_other.v().coeffs), wfs(r.v()),
@fn py::series::Series::__add____real
@params self, other
@types ser, real -> ser
@requires
wfs(p_self.v()),
@maythrow
false
@ensures
same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vshift(p_self.v().coeffs, p_other.v()), wfs(r.v()),
@fn py::series::Series::__mul____int
@params self, other
@types ser, int -> ser
@requires
wfs(p_self.v()),
@maythrow
false
@ensures
same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vscale(p_self.v().coeffs, p_other.v() as real), wfs(r.v()),
@fn py::series::Series::__mul____real
@params self, other
@types ser, real -> ser
@requires
wfs(p_self.v()),
@maythrow
false
@ensures
same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vscale(p_self.v().coeffs, p_other.v()), wfs(r.v()),
@fn py::series::Series::__mul__
@params self, other
@types ser, ser -> ser
@requires
wfs(p_self.v()), wfs(p_other.v()),
@maythrow
p_self.v().index_set != p_other.v().index_set
@ensures
prod2(r.v(), p_self.v(), p_other.v()), p_self.v().index_set == p_other.v().index_set, can_inner(p_self.v(), p_other.v()), wfs(r.v()),
@at returns
lemma_chain2(r_0.v(), p_self.v(), p_other.v());
@fn py::series::Series::__sub__
@params self, other
@types ser, ser -> ser
@requires
wfs(p_self.v()), wfs(p_other.v()),
@ensures
compatible(p_self.v(), p_other.v()), same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vadd(p_self.v().coeffs, vscale(p_other.v().coeffs, -1real)), wfs(r.v()),
@fn py::series::Series::__neg__
@params self
@types ser -> ser
@requires
wfs(p_self.v()),
@ensures
same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vscale(p_self.v().coeffs, -1real), wfs(r.v()),
@fn py::series::Series::__truediv__
@params self, other
@types ser, real -> ser
@requires
wfs(p_self.v()), p_other.v() != 0real,
@maythrow
false
@ensures
same_but_coeffs(r.v(), p_self.v()), r.v().coeffs == vdiv(p_self.v().coeffs, p_other.v()), wfs(r.v()),
@fn py::series::Series::tensorize::_tensorize
@params s1, s2
@types ser, ser -> ser
@requires
wfs(p_s1.v()), wfs(p_s2.v()),
@maythrow
!can_inner(p_s1.v(), p_s2.v())
@ensures
prod2(r.v(), p_s1.v(), p_s2.v()), can_inner(p_s1.v(), p_s2.v()), wfs(r.v()),
@at return2
if r_2.v().position.dirs.len() == 0 { lemma_no_dirs(r_2.v().position, p_s1.v().position, p_s2.v().position); }
@fn py::series::Series::tensorize
@params args
@types list:ser -> ser
@requires
p_args.v().len() >= 1, forall|i: int| 0 <= i < p_args.v().len() ==> wfs(#[trigger] p_args.v()[i]),
@ensures
chained(r.v(), p_args.v()), wfs(r.v()),
@at loop0.before
let ghost mut c = seq![p_args.v()[0]];
@loop 0
invariant chain(c, p_args.v(), loop0_k + 1), c.last() == result.v(), wfs(result.v()), loop0_l.v() == fromv(p_args.v(), 1),
@at loop0.begin
assert(wfs(p_args.v()[loop0_k + 1]));
@at loop0.end
let ghost c0 = c;
c = c.push(result.v());
assert forall|i: int| 0 <= i && i + 1 < loop0_k + 1 implies prod2(#[trigger] c[i + 1], c[i], p_args.v()[i + 1]) && can_inner(c[i], p_args.v()[i + 1]) by { if i + 1 < loop0_k { assert(c0[i + 1] == c[i + 1]); assert(c0[i] == c[i]); } }
@at returns
assert(chain(c, p_args.v(), p_args.v().len() as int));
