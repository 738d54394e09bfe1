// series: as many coefficients as the index set has multi-indices
pub open spec fn wfs(s: SerV) -> bool { wfp(s.position) && s.degree >= 0 && (s.position.dim == 0 ==> s.coeffs.len() == 1) && (s.position.dim > 0 ==> s.coeffs.len() == nsize(s.position.dim, s.degree, s.index_set)) }
pub open spec fn wfv(s: VarfV) -> bool { wfp(s.position) && s.position.dim > 0 && s.degree >= 0 && squarem(s.matrix, s.matrix.len() as int) && s.matrix.len() == nsize(s.position.dim, s.degree, s.index_set) }
// positions in position p of the given directions
pub open spec fn reldirs(p: PosV, d: Seq<int>) -> Seq<int> { Seq::new(d.len(), |i: int| idx(p.dirs, d[i])) }
pub open spec fn same_but_coeffs(r: SerV, s: SerV) -> bool { r.position == s.position && r.factor == s.factor && r.index_set == s.index_set }
pub open spec fn same_but_matrix(r: VarfV, s: VarfV) -> bool { r.position == s.position && r.factor == s.factor && r.index_set == s.index_set }
// the position q is p restricted to the directions d
pub open spec fn pos_restricted(q: PosV, p: PosV, d: Seq<int>) -> bool {
    q.dirs == d && q.dim == d.len() && q.is_diag && forall|i: int| 0 <= i < d.len() ==> q.mean[i] == p.mean[idx(p.dirs, #[trigger] d[i])] && q.cov[i][i] == p.cov[idx(p.dirs, d[i])][idx(p.dirs, d[i])] && q.types[i] == p.types[idx(p.dirs, d[i])]
}
pub open spec fn compatible(a: SerV, b: SerV) -> bool { pos_close(a.position, b.position) && a.index_set == b.index_set && a.factor == b.factor && a.coeffs.len() == b.coeffs.len() }
pub open spec fn compatiblev(a: VarfV, b: VarfV) -> bool { pos_close(a.position, b.position) && a.index_set == b.index_set && a.factor == b.factor && shapev(a.matrix) == shapev(b.matrix) }
pub open spec fn commond(a: SerV, b: SerV) -> Set<int> { a.position.dirs.to_set().intersect(b.position.dirs.to_set()) }
pub open spec fn can_inner(a: SerV, b: SerV) -> bool { a.position.dim == 0 || b.position.dim == 0 || a.degree == b.degree && a.index_set == b.index_set && fun_psym(a.factor, commond(a, b)) == fun_psym(b.factor, commond(a, b)) }
// product of two series: a number times a series, or the contraction of the shared directions
pub open spec fn prod2(r: SerV, a: SerV, b: SerV) -> bool {
    if a.position.dim == 0 { same_but_coeffs(r, b) && r.coeffs == vscale(b.coeffs, a.coeffs[0]) }
    else if b.position.dim == 0 { same_but_coeffs(r, a) && r.coeffs == vscale(a.coeffs, b.coeffs[0]) }
    else {
        &&& r.coeffs == core_innerv(a.coeffs, b.coeffs, a.position.dirs, b.position.dirs, a.index_set)
        &&& tensored(r.position, seq![a.position, b.position], 2) && ascending(r.position.dirs)
        &&& r.index_set == a.index_set
        &&& r.factor.sym == emul(ediv(a.factor.sym, fun_psym(a.factor, commond(a, b))), ediv(b.factor.sym, fun_psym(b.factor, commond(a, b)))) && r.factor.dirs == r.position.dirs
    }
}
pub open spec fn chain(c: Seq<SerV>, s: Seq<SerV>, k: int) -> bool { c.len() == k && s.len() >= k && k >= 1 && c[0] == s[0] && forall|i: int| 0 <= i && i + 1 < k ==> prod2(#[trigger] c[i + 1], c[i], s[i + 1]) && can_inner(c[i], s[i + 1]) }
pub open spec fn chained(r: SerV, s: Seq<SerV>) -> bool { exists|c: Seq<SerV>| #[trigger] chain(c, s, s.len() as int) && r == c.last() }
pub proof fn lemma_no_dirs(r: PosV, a: PosV, b: PosV) requires tensored(r, seq![a, b], 2), wfp(r), r.dirs.len() == 0 ensures a.dirs.to_set() == b.dirs.to_set()
{
    let s = seq![a, b];
    assert forall|d: int| a.dirs.to_set().contains(d) <==> b.dirs.to_set().contains(d) by { reveal_with_fuel(nin, 3); assert(!r.dirs.contains(d)); assert(s[0].dirs.contains(d) == a.dirs.to_set().contains(d)); assert(s[1].dirs.contains(d) == b.dirs.to_set().contains(d)); assert(nin(s, 2, d) != 1); assert(nin(s, 2, d) == nin(s, 1, d) + if s[1].dirs.contains(d) { 1int } else { 0int }); assert(nin(s, 1, d) == if s[0].dirs.contains(d) { 1int } else { 0int }); }
    assert(a.dirs.to_set() =~= b.dirs.to_set());
}
pub proof fn lemma_chain2(r: SerV, a: SerV, b: SerV) requires chained(r, seq![a, b]) ensures prod2(r, a, b), can_inner(a, b)
{
    let s = seq![a, b]; let c = choose|c: Seq<SerV>| #[trigger] chain(c, s, 2) && r == c.last();
    let i: int = 0; assert(prod2(c[i + 1], c[i], s[i + 1]));
}
