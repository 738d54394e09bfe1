// a quadrature with a diagonal covariance and positive variances
pub open spec fn wfqd(q: QuadV) -> bool { wfq(q) && q.position.dim > 0 && q.position.types.len() == q.position.dim && squarem(q.position.cov, q.position.dim) && diagonal(q.position.cov) && forall|i: int| 0 <= i < q.position.dim ==> q.position.cov[i][i] > 0real }
pub open spec fn gridof(q: QuadV, f: FunV) -> Seq<real> { core_discretizev(ccodev(f), q.nodes, q.position.mean, pos_factorv(q.position)) }
pub open spec fn flags(q: QuadV) -> Seq<int> { fourier_flags(q.position.types) }
pub open spec fn varfof(q: QuadV, f: Seq<real>, degree: int, set: Seq<char>) -> Seq<Seq<real>> { core_varfv(degree, f, q.nodes, q.weights, flags(q), set) }
// the operator object of a quadrature: its position, its factor
pub open spec fn of_quad(r: VarfV, q: QuadV, set: Seq<char>) -> bool { r.position == q.position && r.factor == q.factor && r.index_set == set }
// one derivative in direction d (a direction of the quadrature): differentiate the corresponding index, divide by the standard deviation
pub open spec fn derive(q: QuadV, m: Seq<Seq<real>>, d: int, degree: int, set: Seq<char>) -> Seq<Seq<real>> {
    let i = idx(q.position.dirs, d); mdiv(core_varfdv(q.position.dim, degree, i, m, flags(q)[i], set), rsqrt(q.position.cov[i][i]))
}
// the derivatives listed, in order; directions that the quadrature does not have are skipped
pub open spec fn derived(q: QuadV, m: Seq<Seq<real>>, ds: Seq<int>, k: int, degree: int, set: Seq<char>) -> Seq<Seq<real>> decreases k {
    if k <= 0 { m } else if q.position.dirs.contains(ds[k - 1]) { derive(q, derived(q, m, ds, k - 1, degree, set), ds[k - 1], degree, set) } else { derived(q, m, ds, k - 1, degree, set) }
}
pub open spec fn varfdof(q: QuadV, f: FunV, degree: int, ds: Seq<int>, set: Seq<char>) -> Seq<Seq<real>> { derived(q, varfof(q, gridof(q, f), degree, set), ds, ds.len() as int, degree, set) }
// the list of directions of a multi-index: direction i as many times as the entry says
pub open spec fn dvec(q: QuadV, m: Seq<int>) -> Seq<int> { flatv(Seq::new(q.position.dirs.len(), |i: int| repv(q.position.dirs[i], m[i])), q.position.dirs.len() as int) }
pub open spec fn opterm(q: QuadV, s: Map<Seq<int>, FunV>, m: Seq<int>, degree: int, set: Seq<char>) -> Seq<Seq<real>> { varfdof(q, s[m], degree, dvec(q, m), set) }
pub open spec fn opsum(q: QuadV, s: Map<Seq<int>, FunV>, ks: Seq<Seq<int>>, k: int, degree: int, set: Seq<char>) -> Seq<Seq<real>> decreases k {
    if k <= 1 { opterm(q, s, ks[0], degree, set) } else { madd(opsum(q, s, ks, k - 1, degree, set), opterm(q, s, ks[k - 1], degree, set)) }
}
pub open spec fn is_opsum(r: Seq<Seq<real>>, q: QuadV, s: Map<Seq<int>, FunV>, degree: int, set: Seq<char>) -> bool { exists|ks: Seq<Seq<int>>| #[trigger] enumerates(ks, s) && ks.len() > 0 && r == opsum(q, s, ks, ks.len() as int, degree, set) }
// the operator seen through the factor of the quadrature
pub open spec fn op_seen(q: QuadV, op: OpV) -> OpV { if q.factor == (FunV { sym: eint(1), dirs: q.position.dirs }) { op } else { op_mapv(op, q.factor) } }
// f divided by the factor of the quadrature, wherever that is not zero
pub open spec fn divided(m: Seq<real>, f: Seq<real>, w: Seq<real>) -> bool { m.len() == f.len() && forall|i: int| 0 <= i < f.len() && w[i] != 0real ==> #[trigger] m[i] == f[i] / w[i] }
pub proof fn lemma_fil_derived(q: QuadV, m: Seq<Seq<real>>, ds: Seq<int>, k: int, c: spec_fn(int) -> bool, degree: int, set: Seq<char>)
    requires 0 <= k <= ds.len(), forall|e: int| #[trigger] c(e) == q.position.dirs.contains(e)
    ensures derived(q, m, fil(ds, k, c), fil(ds, k, c).len() as int, degree, set) == derived(q, m, ds, k, degree, set)
    decreases k
{
    if k > 0 {
        lemma_fil_derived(q, m, ds, k - 1, c, degree, set);
        let p = fil(ds, k - 1, c); let r = fil(ds, k, c);
        if c(ds[k - 1]) { lemma_derived_prefix(q, m, r, p, p.len() as int, degree, set); assert(r[r.len() - 1] == ds[k - 1]); assert(q.position.dirs.contains(r[r.len() - 1])); }
    }
}
pub proof fn lemma_derived_prefix(q: QuadV, m: Seq<Seq<real>>, r: Seq<int>, p: Seq<int>, k: int, degree: int, set: Seq<char>)
    requires 0 <= k <= p.len() <= r.len(), forall|i: int| 0 <= i < k ==> r[i] == p[i]
    ensures derived(q, m, r, k, degree, set) == derived(q, m, p, k, degree, set)
    decreases k
{ if k > 0 { lemma_derived_prefix(q, m, r, p, k - 1, degree, set); } }
pub proof fn lemma_shift0(m: Seq<Seq<real>>) ensures mshift(m, 0real) == m
{ assert forall|i: int| 0 <= i < m.len() implies #[trigger] vshift(m[i], 0real) == m[i] by { assert(vshift(m[i], 0real) =~= m[i]); } assert(mshift(m, 0real) =~= m); }
// the sum of a number or an operator and an operator (Varf.__add__, Varf.__radd__: C21)
#[verifier::external_body] pub fn nv_add(a: &Nv, b: &Vf) -> (r: Nv)
    ensures r.v() is Vf, match a.v() { NvV::Num(k) => same_but_matrix(r.v()->Vf_0, b.v()) && r.v()->Vf_0.matrix == mshift(b.v().matrix, k as real), NvV::Vf(x) => compatiblev(x, b.v()) && same_but_matrix(r.v()->Vf_0, x) && r.v()->Vf_0.matrix == madd(x.matrix, b.v().matrix) } { unimplemented!() }
pub open spec fn ser_of_quad(r: SerV, q: QuadV, set: Seq<char>) -> bool { r.position == q.position && r.factor == q.factor && r.index_set == set }
// coordinates of the quadrature points relative to the series: dilation and translation
pub open spec fn relf(q: QuadV, s: SerV) -> Seq<Seq<real>> { matmul(minv(pos_factorv(s.position)), pos_factorv(q.position)) }
pub open spec fn relt(q: QuadV, s: SerV) -> Seq<real> { matvec(minv(pos_factorv(s.position)), vadd(q.position.mean, vscale(s.position.mean, -1real))) }
pub open spec fn relnodes(q: QuadV, s: SerV) -> Seq<Seq<real>> { Seq::new(q.nodes.len(), |i: int| vshift(vscale(q.nodes[i], relf(q, s)[i][i]), relt(q, s)[i])) }
pub open spec fn evaluated(r: Seq<real>, q: QuadV, s: SerV) -> bool { r == vmulv(core_transformv(s.degree, s.coeffs, relnodes(q, s), q.weights, false, flags(q), s.index_set), gridof(q, s.factor)) }
pub open spec fn integrated(r: real, q: QuadV, g: Seq<real>, flat: bool) -> bool {
    if flat { exists|m: Seq<real>| #[trigger] divided(m, g, gridof(q, FunV { sym: pos_weightv(q.position), dirs: q.position.dirs })) && r == core_integratev(m, q.nodes, q.weights, flags(q)) }
    else { r == core_integratev(g, q.nodes, q.weights, flags(q)) }
}
pub proof fn lemma_npoints(a: Seq<Seq<real>>, b: Seq<Seq<real>>, k: int) requires 0 <= k <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).len() == b[i].len() ensures npoints(a, k) == npoints(b, k) decreases k
{ if k > 0 { lemma_npoints(a, b, k - 1); assert(a[k - 1].len() == b[k - 1].len()); } }
