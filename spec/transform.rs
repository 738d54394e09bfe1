// ================================================================ discrete transforms on tensor quadrature grids
pub open spec fn bfun(four: u32, n: int, x: real) -> real {
    if four == 0 { herm(n as nat, x) }
    else if n == 0 { 1real / sqrt_spec(2real * PI()) }
    else if n % 2 == 0 { cos_spec(ireal(n / 2) * x) / sqrt_spec(PI()) }
    else { sin_spec(ireal((n + 1) / 2) * x) / sqrt_spec(PI()) }
}
pub struct Tr { pub k: Kind, pub d: int, pub v: Seq<R>, pub nodes: Seq<Seq<R>>, pub weights: Seq<Seq<R>>, pub four: Seq<u32> }
pub open spec fn rag3(p: Vec<Vec<Vec<R>>>, b: Seq<u32>, i: int, l: int) -> bool {
    p@.len() == b.len() && (forall|q: int| 0 <= q < i ==> (#[trigger] p@[q])@.len() == b[q]) && (forall|q: int, a: int| 0 <= q < i && 0 <= a < b[q] ==> (#[trigger] p@[q]@[a])@.len() == l)
}
pub open spec fn wprod(w: Seq<Seq<R>>, g: MI, n: int) -> real decreases n { if n <= 0 { 1real } else { wprod(w, g, n - 1) * w[n - 1][g[n - 1] as int].v() } }
// value of the basis function m at grid point g
pub open spec fn bprod(t: Tr, g: MI, m: MI, n: int) -> real decreases n { if n <= 0 { 1real } else { bprod(t, g, m, n - 1) * bfun(t.four[n - 1], m[n - 1] as int, t.nodes[n - 1][g[n - 1] as int].v()) } }
pub open spec fn tdm(t: Tr) -> int { t.nodes.len() as int }
pub open spec fn fsum(t: Tr, m: MI, n: int) -> real decreases n {
    if n <= 0 { 0real } else { let g = gpt(npts(t.nodes), n - 1); fsum(t, m, n - 1) + t.v[n - 1].v() * wprod(t.weights, g, tdm(t)) * bprod(t, g, m, tdm(t)) }
}
pub open spec fn bsum(t: Tr, i: int, n: int) -> real decreases n {
    if n <= 0 { 0real } else { let g = gpt(npts(t.nodes), i); bsum(t, i, n - 1) + t.v[n - 1].v() * 1real * bprod(t, g, elist(t.k, tdm(t), t.d)[n - 1], tdm(t)) }
}
pub open spec fn tr_ok(t: Tr, forward: bool) -> bool {
    let b = npts(t.nodes);
    &&& okp(t.k, tdm(t), t.d) && (t.k is CrossNc ==> t.d >= 1) && grid_ok(b) && t.nodes.len() < 0x8000_0000
    &&& forall|q: int| 0 <= q < t.nodes.len() ==> (#[trigger] t.nodes[q]).len() <= 0x7fff_ffff
    &&& t.four.len() >= t.nodes.len() && (forall|q: int| 0 <= q < t.nodes.len() ==> (#[trigger] t.four[q] == 0 || t.four[q] == 1 && t.d % 2 == 0))
    &&& (forward ==> t.weights.len() >= t.nodes.len() && (forall|q: int| 0 <= q < t.nodes.len() ==> (#[trigger] t.weights[q]).len() >= t.nodes[q].len()) && t.v.len() >= gprod(b, 0))
    &&& (!forward ==> forall|l: Seq<MI>| #[trigger] valid_list(t.k, tdm(t), t.d, l) ==> t.v.len() >= l.len())
}
pub open spec fn tr_out(t: Tr, forward: bool, r: Seq<R>) -> bool {
    let l = elist(t.k, tdm(t), t.d); let n = gprod(npts(t.nodes), 0);
    valid_list(t.k, tdm(t), t.d, l) && if forward { r.len() == l.len() && forall|j: int| 0 <= j < r.len() ==> (#[trigger] r[j]).v() == fsum(t, l[j], n) }
    else { r.len() == n && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).v() == bsum(t, i, l.len() as int) }
}
// ---- the table of one-dimensional basis functions: directions below i complete; of direction i, points below j
pub open spec fn tab(p: Vec<Vec<Vec<R>>>, t: Tr, i: int, j: int) -> bool {
    forall|q: int, a: int, n: int| 0 <= q < tdm(t) && 0 <= a < t.nodes[q].len() && 0 <= n <= t.d && (q < i || q == i && a < j) ==> #[trigger] at3(p, q, a, n) == bfun(t.four[q], n, t.nodes[q][a].v())
}
// as tab, and of point (i, j) the functions of frequency below f are in place
pub open spec fn tabf(p: Vec<Vec<Vec<R>>>, t: Tr, i: int, j: int, f: int) -> bool {
    tab(p, t, i, j) && forall|n: int| 0 <= n <= t.d && (n + 1) / 2 < f ==> #[trigger] at3(p, i, j, n) == bfun(t.four[i], n, t.nodes[i][j].v())
}
pub proof fn lemma_tab_row(p: Vec<Vec<Vec<R>>>, o: Vec<Vec<Vec<R>>>, t: Tr, i: int, b: MI)
    requires tab(o, t, i, 0), 0 <= i < tdm(t), b == npts(t.nodes), rag3(o, b, i, t.d + 1), o@.len() == b.len(), p@.len() == b.len(), forall|q: int| 0 <= q < b.len() && q != i ==> p@[q] == o@[q],
        forall|q: int| 0 <= q < t.nodes.len() ==> (#[trigger] t.nodes[q]).len() <= 0x7fff_ffff, t.d >= 0
    ensures tab(p, t, i, 0)
{
    assert forall|q: int, a: int, n: int| 0 <= q < tdm(t) && 0 <= a < t.nodes[q].len() && 0 <= n <= t.d && q < i implies #[trigger] at3(p, q, a, n) == bfun(t.four[q], n, t.nodes[q][a].v()) by {
        assert(p@[q] == o@[q]); assert(o@[q]@.len() == b[q]); assert(o@[q]@[a]@.len() == t.d + 1); lemma_at3(p, q, a, n); lemma_at3(o, q, a, n); assert(at3(o, q, a, n) == bfun(t.four[q], n, t.nodes[q][a].v()));
    }
}
pub proof fn lemma_tab_cell(p: Vec<Vec<Vec<R>>>, o: Vec<Vec<Vec<R>>>, t: Tr, i: int, j: int, b: MI)
    requires tab(o, t, i, j), 0 <= i < tdm(t), 0 <= j < t.nodes[i].len(), b == npts(t.nodes), rag3(o, b, i + 1, t.d + 1), rag3(p, b, i + 1, t.d + 1), t.four[i] == 0, t.d >= 0,
        forall|q: int| 0 <= q < t.nodes.len() ==> (#[trigger] t.nodes[q]).len() <= 0x7fff_ffff,
        forall|q: int, a: int| 0 <= q <= i && 0 <= a < b[q] && !(q == i && a == j) ==> #[trigger] p@[q]@[a] == o@[q]@[a],
        forall|n: int| 0 <= n <= t.d ==> (#[trigger] p@[i]@[j]@[n]).v() == herm(n as nat, t.nodes[i][j].v())
    ensures tab(p, t, i, j + 1)
{
    assert forall|q: int, a: int, n: int| 0 <= q < tdm(t) && 0 <= a < t.nodes[q].len() && 0 <= n <= t.d && (q < i || q == i && a < j + 1) implies #[trigger] at3(p, q, a, n) == bfun(t.four[q], n, t.nodes[q][a].v()) by {
        assert(p@[q]@.len() == b[q]); assert(p@[q]@[a]@.len() == t.d + 1); assert(o@[q]@.len() == b[q]); assert(o@[q]@[a]@.len() == t.d + 1);
        lemma_at3(p, q, a, n); lemma_at3(o, q, a, n);
        if q == i && a == j { assert(p@[i]@[j]@[n].v() == herm(n as nat, t.nodes[i][j].v())); } else { assert(p@[q]@[a] == o@[q]@[a]); assert(at3(o, q, a, n) == bfun(t.four[q], n, t.nodes[q][a].v())); }
    }
}
// ---- integrals: degree 0
pub open spec fn wsum(t: Tr, n: int) -> real decreases n { if n <= 0 { 0real } else { wsum(t, n - 1) + t.v[n - 1].v() * wprod(t.weights, gpt(npts(t.nodes), n - 1), tdm(t)) } }
pub open spec fn fpow(four: Seq<u32>, n: int) -> real decreases n { if n <= 0 { 1real } else { fpow(four, n - 1) * (if four[n - 1] == 1 { sqrt_spec(2real * PI()) } else { 1real }) } }
pub proof fn lemma_bprod0(t: Tr, g: MI, m: MI, n: int) requires 0 <= n <= tdm(t), m == zeros(tdm(t)), forall|q: int| 0 <= q < tdm(t) ==> #[trigger] t.four[q] == 0 || t.four[q] == 1 ensures fpow(t.four, n) * bprod(t, g, m, n) == 1real decreases n
{
    if n > 0 {
        lemma_bprod0(t, g, m, n - 1); lemma_dens();
        let (f, b) = (fpow(t.four, n - 1), bprod(t, g, m, n - 1)); let s = sqrt_spec(2real * PI()); let x = t.nodes[n - 1][g[n - 1] as int].v(); let q = n - 1;
        assert(t.four[q] == 0 || t.four[q] == 1);
        if t.four[n - 1] == 1 { let z = 1real / s; assert((f * s) * (b * z) == 1real) by (nonlinear_arith) requires f * b == 1real, z == 1real / s, s > 0real; }
        else { assert(herm(0, x) == 1real); assert((f * 1real) * (b * 1real) == 1real) by (nonlinear_arith) requires f * b == 1real; }
    } else { assert(1real * 1real == 1real); }
}
pub proof fn lemma_fsum0(t: Tr, m: MI, n: int) requires m == zeros(tdm(t)), forall|q: int| 0 <= q < tdm(t) ==> #[trigger] t.four[q] == 0 || t.four[q] == 1 ensures fpow(t.four, tdm(t)) * fsum(t, m, n) == wsum(t, n) decreases n
{
    let f = fpow(t.four, tdm(t));
    if n > 0 {
        lemma_fsum0(t, m, n - 1); let g = gpt(npts(t.nodes), n - 1); lemma_bprod0(t, g, m, tdm(t));
        let (s, w, b) = (fsum(t, m, n - 1), t.v[n - 1].v() * wprod(t.weights, g, tdm(t)), bprod(t, g, m, tdm(t)));
        assert(f * (s + w * b) == f * s + w) by (nonlinear_arith) requires f * b == 1real;
    } else { assert(f * 0real == 0real); }
}
pub proof fn lemma_tri0(dim: int, t: Tr) requires okp(Kind::Triangle, dim, 0), valid_list(Kind::Triangle, dim, 0, elist(Kind::Triangle, dim, 0)) ensures elist(Kind::Triangle, dim, 0).len() >= 1, elist(Kind::Triangle, dim, 0)[0] == zeros(dim)
{ lemma_list_first(Kind::Triangle, dim, 0, elist(Kind::Triangle, dim, 0)); }
