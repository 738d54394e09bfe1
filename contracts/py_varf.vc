//! hermipy/varf.py
@fn py::varf::Varf::tensorize
@params args, sparse
@types list:varf, none -> varf
@locals mats=dict:fs:mat, factor=expr
@requires
p_args.v().len() >= 1, forall|i: int| 0 <= i < p_args.v().len() ==> wfv(#[trigger] p_args.v()[i]),
@ensures
vtens(r.v(), p_args.v()),
@maythrow
!agree(p_args.v())
@loop 0
invariant true,
@loop 1
invariant loop1_l.v() == p_args.v(), index_set.v() == p_args.v()[0].index_set, degree.v() == p_args.v()[0].degree, mats.v() == matsof(p_args.v(), loop1_k as int), factor.v() == symof(p_args.v(), loop1_k as int), forall|i: int| 0 <= i < loop1_k ==> (#[trigger] p_args.v()[i]).index_set == p_args.v()[0].index_set && p_args.v()[i].degree == p_args.v()[0].degree,
@at comp1.after
assert(comp1.v() =~= positionsof(p_args.v()));
assert forall|i: int| 0 <= i < comp1.v().len() implies wfp(#[trigger] comp1.v()[i]) by { assert(wfv(p_args.v()[i])); }
@fn py::varf::Varf::__add__
@params self, other
@types varf, varf -> varf
@requires
wfv(p_self.v()), wfv(p_other.v()),
@maythrow
!compatiblev(p_self.v(), p_other.v())
@ensures
compatiblev(p_self.v(), p_other.v()), same_but_matrix(r.v(), p_self.v()), r.v().matrix == madd(p_self.v().matrix, p_other.v().matrix), wfv(r.v()),
@fn py::varf::Varf::__add____real
@params self, other
@types varf, real -> varf
@requires
wfv(p_self.v()),
@maythrow
false
@ensures
same_but_matrix(r.v(), p_self.v()), r.v().matrix == mshift(p_self.v().matrix, p_other.v()), wfv(r.v()),
@fn py::varf::Varf::__mul____int
@params self, other
@types varf, int -> varf
@requires
wfv(p_self.v()),
@maythrow
false
@ensures
same_but_matrix(r.v(), p_self.v()), r.v().matrix == mscale(p_self.v().matrix, p_other.v() as real), wfv(r.v()),
@fn py::varf::Varf::__mul____real
@params self, other
@types varf, real -> varf
@requires
wfv(p_self.v()),
@maythrow
false
@ensures
same_but_matrix(r.v(), p_self.v()), r.v().matrix == mscale(p_self.v().matrix, p_other.v()), wfv(r.v()),
@fn py::varf::Varf::__mul__
@params self, other
@types varf, varf -> varf
@requires
wfv(p_self.v()), wfv(p_other.v()),
@maythrow
p_self.v().index_set != p_other.v().index_set
@ensures
vtens(r.v(), seq![p_self.v(), p_other.v()]),
@fn py::varf::Varf::__sub__
@params self, other
@types varf, varf -> varf
@requires
wfv(p_self.v()), wfv(p_other.v()),
@ensures
compatiblev(p_self.v(), p_other.v()), same_but_matrix(r.v(), p_self.v()), r.v().matrix == madd(p_self.v().matrix, mscale(p_other.v().matrix, -1real)), wfv(r.v()),
@fn py::varf::Varf::__neg__
@params self
@types varf -> varf
@requires
wfv(p_self.v()),
@ensures
same_but_matrix(r.v(), p_self.v()), r.v().matrix == mscale(p_self.v().matrix, -1real), wfv(r.v()),
@fn py::varf::Varf::__call__
@params self, series
@types varf, ser -> ser
@requires
wfv(p_self.v()), wfs(p_series.v()),
@maythrow
!pos_close(p_self.v().position, p_series.v().position) || p_self.v().index_set != p_series.v().index_set
@ensures
r.v().coeffs == matvec(p_self.v().matrix, p_series.v().coeffs), r.v().position == p_self.v().position, r.v().factor == p_self.v().factor, r.v().index_set == p_self.v().index_set, p_self.v().matrix.len() == p_series.v().coeffs.len(), pos_close(p_self.v().position, p_series.v().position), p_self.v().index_set == p_series.v().index_set,
@fn py::varf::Varf::project
@params self, directions
@types varf, list:int -> varf
@requires
wfv(p_self.v()), p_directions.v().len() > 0, forall|i: int| 0 <= i < p_directions.v().len() ==> p_self.v().position.dirs.contains(#[trigger] p_directions.v()[i]),
@ensures
r.v().matrix == core_projectm(p_self.v().matrix, p_self.v().position.dim, reldirs(p_self.v().position, p_directions.v()), p_self.v().index_set),
pos_restricted(r.v().position, p_self.v().position, p_directions.v()), r.v().factor == fun_projected(p_self.v().factor, p_directions.v()), r.v().index_set == p_self.v().index_set,
@at assign.rel_dirs0
assert(rel_dirs.v() =~= reldirs(p_self.v().position, p_directions.v()));
@fn py::varf::Varf::project__int
@params self, directions
@types varf, int -> varf
@requires
wfv(p_self.v()), p_self.v().position.dirs.contains(p_directions.v()),
@ensures
r.v().matrix == core_projectm(p_self.v().matrix, p_self.v().position.dim, reldirs(p_self.v().position, seq![p_directions.v()]), p_self.v().index_set),
pos_restricted(r.v().position, p_self.v().position, seq![p_directions.v()]), r.v().factor == fun_projected(p_self.v().factor, seq![p_directions.v()]), r.v().index_set == p_self.v().index_set,
@at assign.rel_dirs0
assert(rel_dirs.v() =~= reldirs(p_self.v().position, seq![p_directions.v()]));
@fn py::varf::Varf::subdegree
@params self, degree
@types varf, int -> varf
@requires
wfv(p_self.v()), p_degree.v() >= 0,
@maythrow
p_self.v().index_set == "cross_nc"@ || p_degree.v() > p_self.v().degree
@ensures
p_self.v().index_set != "cross_nc"@, p_degree.v() <= p_self.v().degree, same_but_matrix(r.v(), p_self.v()), squarem(r.v().matrix, nsize(p_self.v().position.dim, p_degree.v(), p_self.v().index_set)),
forall|i: int, j: int| 0 <= i < r.v().matrix.len() && 0 <= j < r.v().matrix.len() ==> #[trigger] r.v().matrix[i][j] == p_self.v().matrix[i][j],
@at entry
if p_degree.v() <= p_self.v().degree { ax_nsize(p_self.v().position.dim, p_degree.v(), p_self.v().degree, p_self.v().index_set); }
@fn py::varf::Varf::to_cross
@params self, degree
@types varf, int -> varf
@requires
wfv(p_self.v()), p_degree.v() >= 1,
@maythrow
p_self.v().index_set != "triangle"@ || p_degree.v() + p_self.v().position.dim - 1 > p_self.v().degree
@ensures
p_self.v().index_set == "triangle"@, p_degree.v() + p_self.v().position.dim - 1 <= p_self.v().degree, r.v().position == p_self.v().position, r.v().factor == p_self.v().factor, r.v().index_set == "cross"@,
r.v().matrix == pickm(p_self.v().matrix, cross_in_tri(p_self.v().position.dim, p_degree.v()), cross_in_tri(p_self.v().position.dim, p_degree.v())),
@at entry
if p_degree.v() + p_self.v().position.dim - 1 <= p_self.v().degree { lemma_cross_tri(p_self.v().position.dim, p_degree.v(), p_self.v().degree); }
