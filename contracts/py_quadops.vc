//! hermipy/quad.py: discretisation of functions and operators
@fn py::quad::Quad::discretize
@params self, f
@types quad, fun -> vec
@requires
wfq(p_self.v()),
@ensures
r.v() == gridof(p_self.v(), p_f.v()), r.v().len() == npoints(p_self.v().nodes, p_self.v().nodes.len() as int),
@fn py::quad::Quad::discretize__expr
@params self, f
@types quad, expr -> vec
@requires
wfq(p_self.v()),
@ensures
r.v() == gridof(p_self.v(), FunV { sym: p_f.v(), dirs: p_self.v().position.dirs }), r.v().len() == npoints(p_self.v().nodes, p_self.v().nodes.len() as int),
@fn py::quad::Quad::discretize__int
@params self, f
@types quad, int -> vec
@requires
wfq(p_self.v()),
@ensures
r.v() == gridof(p_self.v(), FunV { sym: eint(p_f.v()), dirs: p_self.v().position.dirs }), r.v().len() == npoints(p_self.v().nodes, p_self.v().nodes.len() as int),
@fn py::quad::Quad::varf
@params self, f_grid, degree, sparse, index_set, tensorize
@types quad, fun, int, rep, str, rep -> varf
@requires
wfqd(p_self.v()), p_degree.v() >= 0,
@ensures
of_quad(r.v(), p_self.v(), p_index_set.v()), r.v().matrix == varfof(p_self.v(), gridof(p_self.v(), p_f_grid.v()), p_degree.v(), p_index_set.v()),
squarem(r.v().matrix, nsize(p_self.v().position.dim, p_degree.v(), p_index_set.v())),
@fn py::quad::Quad::varf__vec
@params self, f_grid, degree, sparse, index_set, tensorize
@types quad, vec, int, rep, str, rep -> varf
@requires
wfqd(p_self.v()), p_degree.v() >= 0,
@ensures
of_quad(r.v(), p_self.v(), p_index_set.v()), r.v().matrix == varfof(p_self.v(), p_f_grid.v(), p_degree.v(), p_index_set.v()),
squarem(r.v().matrix, nsize(p_self.v().position.dim, p_degree.v(), p_index_set.v())),
@fn py::quad::Quad::varf__int
@params self, f_grid, degree, sparse, index_set, tensorize
@types quad, int, int, rep, str, rep -> varf
@requires
wfqd(p_self.v()), p_degree.v() >= 0,
@ensures
of_quad(r.v(), p_self.v(), p_index_set.v()), r.v().matrix == varfof(p_self.v(), gridof(p_self.v(), FunV { sym: eint(p_f_grid.v()), dirs: p_self.v().position.dirs }), p_degree.v(), p_index_set.v()),
squarem(r.v().matrix, nsize(p_self.v().position.dim, p_degree.v(), p_index_set.v())),
@fn py::quad::Quad::varfd
@params self, function, degree, directions, sparse, index_set, tensorize
@types quad, fun, int, list:int, rep, str, rep -> varf
@requires
wfqd(p_self.v()), p_degree.v() >= 0,
@ensures
of_quad(r.v(), p_self.v(), p_index_set.v()), r.v().matrix == varfdof(p_self.v(), p_function.v(), p_degree.v(), p_directions.v(), p_index_set.v()),
squarem(r.v().matrix, nsize(p_self.v().position.dim, p_degree.v(), p_index_set.v())),
@loop 0
invariant mat.v() == derived(p_self.v(), varfof(p_self.v(), gridof(p_self.v(), p_function.v()), p_degree.v(), p_index_set.v()), directions.v(), loop0_k as int, p_degree.v(), p_index_set.v()),
 squarem(mat.v(), nsize(p_self.v().position.dim, p_degree.v(), p_index_set.v())), loop0_l.v() == directions.v(), eigval.v() == diagv(p_self.v().position.cov),
@at loop0.begin
assert(directions.v().contains(d.v()));
let ghost m0 = mat.v();
@at loop0.end
assert(mat.v() == derive(p_self.v(), m0, d.v(), p_degree.v(), p_index_set.v()));
@at loop0.after
lemma_fil_derived(p_self.v(), varfof(p_self.v(), gridof(p_self.v(), p_function.v()), p_degree.v(), p_index_set.v()), p_directions.v(), p_directions.v().len() as int, comp1_c, p_degree.v(), p_index_set.v());
@fn py::quad::Quad::discretize_op
@params self, op, degree, sparse, index_set
@types quad, op, int, rep, str -> varf
@locals varf_operator=nv
@requires
wfqd(p_self.v()), p_degree.v() >= 0,
@maythrow
op_seen(p_self.v(), p_op.v()).dirs != p_self.v().position.dirs
@ensures
op_seen(p_self.v(), p_op.v()).dirs == p_self.v().position.dirs, of_quad(r.v(), p_self.v(), p_index_set.v()),
op_splitv(op_seen(p_self.v(), p_op.v())).dom() =~= Set::empty() ==> r.v().matrix == varfof(p_self.v(), gridof(p_self.v(), FunV { sym: eint(0), dirs: p_self.v().position.dirs }), p_degree.v(), p_index_set.v()),
!(op_splitv(op_seen(p_self.v(), p_op.v())).dom() =~= Set::empty()) ==> is_opsum(r.v().matrix, p_self.v(), op_splitv(op_seen(p_self.v(), p_op.v())), p_degree.v(), p_index_set.v()),
@loop 0
invariant enumerates(loop0_l.v(), splitop.v()), loop0_l.v().len() > 0, splitop.v() == op_splitv(op_seen(p_self.v(), p_op.v())),
 loop0_k == 0 ==> varf_operator.v() == NvV::Num(0), loop0_k > 0 ==> varf_operator.v() is Vf && of_quad(varf_operator.v()->Vf_0, p_self.v(), p_index_set.v()) && varf_operator.v()->Vf_0.matrix == opsum(p_self.v(), splitop.v(), loop0_l.v(), loop0_k as int, p_degree.v(), p_index_set.v()),
@at assign.varf_part0
assert(d_vector.v() == dvec(p_self.v(), m.v())) by { assert(comp1.v() =~= Seq::new(p_self.v().position.dirs.len(), |i: int| repv(p_self.v().position.dirs[i], m.v()[i]))); }
lemma_shift0(varf_part.v().matrix);
@fn py::quad::Quad::transform
@params self, function, degree, index_set, significant, tensorize
@types quad, fun, int, str, int, rep -> ser
@requires
wfq(p_self.v()), p_self.v().position.dim > 0, p_degree.v() >= 0, p_significant.v() == 0,
@ensures
exists|m: Seq<real>| #[trigger] divided(m, gridof(p_self.v(), p_function.v()), gridof(p_self.v(), p_self.v().factor)) && r.v().coeffs == core_transformv(p_degree.v(), m, p_self.v().nodes, p_self.v().weights, true, flags(p_self.v()), p_index_set.v()),
ser_of_quad(r.v(), p_self.v(), p_index_set.v()),
@at assign.mapped0
assert(divided(mapped.v(), gridof(p_self.v(), p_function.v()), gridof(p_self.v(), p_self.v().factor)));
@fn py::quad::Quad::transform__vec
@params self, function, degree, index_set, significant, tensorize
@types quad, vec, int, str, int, rep -> ser
@requires
wfq(p_self.v()), p_self.v().position.dim > 0, p_degree.v() >= 0, p_significant.v() == 0, p_function.v().len() == npoints(p_self.v().nodes, p_self.v().nodes.len() as int),
@ensures
exists|m: Seq<real>| #[trigger] divided(m, p_function.v(), gridof(p_self.v(), p_self.v().factor)) && r.v().coeffs == core_transformv(p_degree.v(), m, p_self.v().nodes, p_self.v().weights, true, flags(p_self.v()), p_index_set.v()),
ser_of_quad(r.v(), p_self.v(), p_index_set.v()),
@at assign.mapped0
assert(divided(mapped.v(), p_function.v(), gridof(p_self.v(), p_self.v().factor)));
@fn py::quad::Quad::eval
@params self, series
@types quad, ser -> vec
@requires
wfq(p_self.v()), p_self.v().position.dim > 0, wfp(p_series.v().position), p_series.v().position.dim == p_self.v().position.dim, p_self.v().position.mean.len() == p_self.v().position.dim, p_series.v().position.mean.len() == p_self.v().position.dim,
@maythrow
normm(madd(relf(p_self.v(), p_series.v()), mscale(diagm(diagv(relf(p_self.v(), p_series.v()))), -1real)), 2) > flt("1e-08"@)
@ensures
evaluated(r.v(), p_self.v(), p_series.v()), r.v().len() == npoints(p_self.v().nodes, p_self.v().nodes.len() as int),
@loop 0
invariant factor.v() == relf(p_self.v(), p_series.v()), translation.v() == relt(p_self.v(), p_series.v()), squarem(factor.v(), p_self.v().position.dim), loop0_l.v() == p_self.v().nodes, mapped_nodes.v().len() == p_self.v().nodes.len(),
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] mapped_nodes.v()[i] == relnodes(p_self.v(), p_series.v())[i], forall|i: int| loop0_k <= i < mapped_nodes.v().len() ==> #[trigger] mapped_nodes.v()[i] == p_self.v().nodes[i],
@at mapped_nodes.set0.pre
assert(i.v() == loop0_k);
@at loop0.after
assert(mapped_nodes.v() =~= relnodes(p_self.v(), p_series.v()));
lemma_npoints(p_self.v().nodes, relnodes(p_self.v(), p_series.v()), p_self.v().nodes.len() as int);
@fn py::quad::Quad::integrate
@params self, function, flat, tensorize
@types quad, fun, bool, rep -> real
@requires
wfq(p_self.v()),
@ensures
integrated(r.v(), p_self.v(), gridof(p_self.v(), p_function.v()), p_flat),
@at returns
assert(p_flat ==> divided(function.v(), gridof(p_self.v(), p_function.v()), gridof(p_self.v(), FunV { sym: pos_weightv(p_self.v().position), dirs: p_self.v().position.dirs })));
@fn py::quad::Quad::integrate__vec
@params self, function, flat, tensorize
@types quad, vec, bool, rep -> real
@requires
wfq(p_self.v()), p_function.v().len() == npoints(p_self.v().nodes, p_self.v().nodes.len() as int),
@ensures
integrated(r.v(), p_self.v(), p_function.v(), p_flat),
@at returns
assert(p_flat ==> divided(function.v(), p_function.v(), gridof(p_self.v(), FunV { sym: pos_weightv(p_self.v().position), dirs: p_self.v().position.dirs })));
@fn py::quad::Quad::integrate__ser
@params self, function, flat, tensorize
@types quad, ser, bool, rep -> real
@requires
wfq(p_self.v()), p_self.v().position.dim > 0, wfp(p_function.v().position), p_function.v().position.dim == p_self.v().position.dim, p_self.v().position.mean.len() == p_self.v().position.dim, p_function.v().position.mean.len() == p_self.v().position.dim,
@ensures
exists|g: Seq<real>| #[trigger] evaluated(g, p_self.v(), p_function.v()) && integrated(r.v(), p_self.v(), g, p_flat),
@at assign.function0
let ghost g0 = function.v();
@at returns
assert(p_flat ==> divided(function.v(), g0, gridof(p_self.v(), FunV { sym: pos_weightv(p_self.v().position), dirs: p_self.v().position.dirs })));
assert(evaluated(g0, p_self.v(), p_function.v()));
@fn py::quad::Quad::series
@params self, coeffs, index_set
@types quad, vec, str -> ser
@requires
wfq(p_self.v()),
@ensures
r.v().coeffs == p_coeffs.v(), ser_of_quad(r.v(), p_self.v(), p_index_set.v()),
