// ================================================================ inner product over the shared directions
// f: directions of exactly one operand, s: directions of both, each in increasing order
pub open spec fn split(d1: Seq<u32>, d2: Seq<u32>, f: Seq<u32>, s: Seq<u32>) -> bool {
    &&& sinc(f) && sinc(s)
    &&& forall|t: int| 0 <= t < f.len() ==> in_seq(d1, #[trigger] f[t] as int) != in_seq(d2, f[t] as int)
    &&& forall|t: int| 0 <= t < s.len() ==> in_seq(d1, #[trigger] s[t] as int) && in_seq(d2, s[t] as int)
    &&& forall|t: int| 0 <= t < d1.len() ==> in_seq(f, #[trigger] d1[t] as int) || in_seq(s, d1[t] as int)
    &&& forall|t: int| 0 <= t < d2.len() ==> in_seq(f, #[trigger] d2[t] as int) || in_seq(s, d2[t] as int)
}
// multi-index over ds taking its entries from m in the free directions and from c in the shared ones
pub open spec fn comb(ds: Seq<u32>, f: Seq<u32>, s: Seq<u32>, m: MI, c: MI) -> MI {
    Seq::new(ds.len(), |t: int| if in_seq(f, ds[t] as int) { m[dpos(f, ds[t] as int)] } else { c[dpos(s, ds[t] as int)] })
}
// the index set in dimension n; a single empty multi-index in dimension 0
pub open spec fn cl(k: Kind, n: int, d: int) -> Seq<MI> { if n == 0 { seq![Seq::<u32>::empty()] } else { elist(k, n, d) } }
pub struct Inn { pub k: Kind, pub d: int, pub s1: Seq<R>, pub s2: Seq<R>, pub d1: Seq<u32>, pub d2: Seq<u32>, pub f: Seq<u32>, pub s: Seq<u32> }
#[verifier::opaque]
pub open spec fn iterm(p: Inn, m: MI, c: MI) -> real {
    coef(p.k, p.d1.len() as int, p.d, p.s1, comb(p.d1, p.f, p.s, m, c)) * coef(p.k, p.d2.len() as int, p.d, p.s2, comb(p.d2, p.f, p.s, m, c))
}
pub open spec fn isum(p: Inn, m: MI, n: int) -> real decreases n { if n <= 0 { 0real } else { isum(p, m, n - 1) + iterm(p, m, cl(p.k, p.s.len() as int, p.d)[n - 1]) } }
pub open spec fn inner_vec(p: Inn, r: Seq<R>) -> bool {
    let lf = cl(p.k, p.f.len() as int, p.d);
    r.len() == lf.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).v() == isum(p, lf[i], cl(p.k, p.s.len() as int, p.d).len() as int)
}
pub open spec fn inner_ok(k: Kind, d: int, n1: int, n2: int, d1: Seq<u32>, d2: Seq<u32>) -> bool {
    &&& sinc(d1) && sinc(d2) && 1 <= d1.len() && 1 <= d2.len()
    &&& is_deg(k, d1.len() as int, d, n1) && is_deg(k, d2.len() as int, d, n2) && n1 < 0x8000_0000 && n2 < 0x8000_0000
    &&& forall|f: Seq<u32>, s: Seq<u32>| #[trigger] split(d1, d2, f, s) && f.len() > 0 ==> okd(k, f.len() as int, d)
}
pub proof fn lemma_split_unique(d1: Seq<u32>, d2: Seq<u32>, f: Seq<u32>, s: Seq<u32>, g: Seq<u32>, t: Seq<u32>) requires split(d1, d2, f, s), split(d1, d2, g, t) ensures f == g, s == t
{
    lemma_split_sub(d1, d2, f, s, g, t); lemma_split_sub(d1, d2, g, t, f, s); lemma_sinc_unique(f, g); lemma_sinc_unique(s, t);
}
pub proof fn lemma_split_sub(d1: Seq<u32>, d2: Seq<u32>, f: Seq<u32>, s: Seq<u32>, g: Seq<u32>, t: Seq<u32>) requires split(d1, d2, f, s), split(d1, d2, g, t) ensures subseq(f, g), subseq(s, t)
{
    assert forall|i: int| 0 <= i < f.len() implies in_seq(g, #[trigger] f[i] as int) by {
        let v = f[i] as int;
        if in_seq(d1, v) { let q = dpos(d1, v); assert(in_seq(g, d1[q] as int) || in_seq(t, d1[q] as int)); } else { let q = dpos(d2, v); assert(in_seq(g, d2[q] as int) || in_seq(t, d2[q] as int)); }
        if in_seq(t, v) { let q = dpos(t, v); assert(in_seq(d1, t[q] as int) && in_seq(d2, t[q] as int)); }
    }
    assert forall|i: int| 0 <= i < s.len() implies in_seq(t, #[trigger] s[i] as int) by {
        let v = s[i] as int; let q = dpos(d1, v); assert(in_seq(g, d1[q] as int) || in_seq(t, d1[q] as int));
        if in_seq(g, v) { let q = dpos(g, v); assert(in_seq(d1, g[q] as int) != in_seq(d2, g[q] as int)); }
    }
}
// ---- merging the two direction lists: state after i directions of d1 and j of d2
pub struct Mrg { pub f: Seq<u32>, pub s: Seq<u32>, pub in1: Seq<bool>, pub fi: Seq<u32>, pub i1: Seq<u32>, pub i2: Seq<u32> }
pub open spec fn below(a: Seq<u32>, n: int, d: Seq<u32>, i: int) -> bool { i < d.len() ==> forall|t: int| 0 <= t < n ==> #[trigger] a[t] < d[i] }
#[verifier::opaque]
pub open spec fn mst(d1: Seq<u32>, d2: Seq<u32>, i: int, j: int, g: Mrg) -> bool {
    &&& 0 <= i <= d1.len() && 0 <= j <= d2.len() && g.f.len() + 2 * g.s.len() == i + j
    &&& g.in1.len() == g.f.len() && g.fi.len() == g.f.len() && g.i1.len() == g.s.len() && g.i2.len() == g.s.len()
    &&& sinc(g.f) && sinc(g.s) && below(g.f, g.f.len() as int, d1, i) && below(g.f, g.f.len() as int, d2, j) && below(g.s, g.s.len() as int, d1, i) && below(g.s, g.s.len() as int, d2, j)
    &&& below(d1, i, d2, j) && below(d2, j, d1, i)
    &&& forall|t: int| 0 <= t < g.f.len() ==> (if g.in1[t] { (#[trigger] g.fi[t]) < i && d1[g.fi[t] as int] == g.f[t] && !in_seq(d2, g.f[t] as int) } else { g.fi[t] < j && d2[g.fi[t] as int] == g.f[t] && !in_seq(d1, g.f[t] as int) })
    &&& forall|t: int| 0 <= t < g.s.len() ==> (#[trigger] g.i1[t]) < i && d1[g.i1[t] as int] == g.s[t] && g.i2[t] < j && d2[g.i2[t] as int] == g.s[t]
    &&& forall|t: int| 0 <= t < i ==> in_seq(g.f, #[trigger] d1[t] as int) || in_seq(g.s, d1[t] as int)
    &&& forall|t: int| 0 <= t < j ==> in_seq(g.f, #[trigger] d2[t] as int) || in_seq(g.s, d2[t] as int)
}
pub proof fn lemma_mst0(d1: Seq<u32>, d2: Seq<u32>, g: Mrg) requires g.f.len() == 0, g.s.len() == 0, g.in1.len() == 0, g.fi.len() == 0, g.i1.len() == 0, g.i2.len() == 0 ensures mst(d1, d2, 0, 0, g)
{ reveal(mst); }
// the head of d (at i) is absent from the other list e (at j): everything before j is smaller, everything from j on is larger
pub proof fn lemma_absent(d: Seq<u32>, i: int, e: Seq<u32>, j: int) requires sinc(e), 0 <= i < d.len(), 0 <= j <= e.len(), below(e, j, d, i), j < e.len() ==> d[i] < e[j] ensures !in_seq(e, d[i] as int)
{ if in_seq(e, d[i] as int) { let q = dpos(e, d[i] as int); assert(0 <= q < e.len() && e[q] == d[i]); if q < j { assert(e[q] < d[i]); } else if q > j { assert(e[j] < e[q]); } } }
pub proof fn lemma_in_push(f: Seq<u32>, v: u32) ensures in_seq(f.push(v), v as int), forall|q: int| #[trigger] in_seq(f, q) ==> in_seq(f.push(v), q)
{
    assert(f.push(v)[f.len() as int] == v);
    assert forall|q: int| #[trigger] in_seq(f, q) implies in_seq(f.push(v), q) by { let t = dpos(f, q); assert(0 <= t < f.len() && f[t] as int == q); assert(f.push(v)[t] == f[t]); }
}
pub proof fn lemma_mst_free1(d1: Seq<u32>, d2: Seq<u32>, i: int, j: int, g: Mrg, h: Mrg)
    requires sinc(d1), sinc(d2), mst(d1, d2, i, j, g), i < d1.len() < 0x1_0000_0000, j < d2.len() ==> d1[i] < d2[j],
        h == (Mrg { f: g.f.push(d1[i]), in1: g.in1.push(true), fi: g.fi.push(i as u32), ..g })
    ensures mst(d1, d2, i + 1, j, h)
{
    reveal(mst); lemma_absent(d1, i, d2, j); lemma_in_push(g.f, d1[i]);
    if i + 1 < d1.len() { assert(d1[i] < d1[i + 1]); }
    assert forall|a: int, b: int| 0 <= a < b < h.f.len() implies #[trigger] h.f[a] < #[trigger] h.f[b] by { if b == g.f.len() { assert(g.f[a] < d1[i]); } else { assert(g.f[a] < g.f[b]); } }
    assert forall|t: int| 0 <= t < i + 1 implies in_seq(h.f, #[trigger] d1[t] as int) || in_seq(h.s, d1[t] as int) by { }
    assert forall|t: int| 0 <= t < h.f.len() implies (if h.in1[t] { (#[trigger] h.fi[t]) < i + 1 && d1[h.fi[t] as int] == h.f[t] && !in_seq(d2, h.f[t] as int) } else { h.fi[t] < j && d2[h.fi[t] as int] == h.f[t] && !in_seq(d1, h.f[t] as int) }) by { if t < g.f.len() { assert(h.fi[t] == g.fi[t] && h.in1[t] == g.in1[t] && h.f[t] == g.f[t]); } else { assert(h.fi[t] == i && h.in1[t] && h.f[t] == d1[i]); } }
}
pub proof fn lemma_mst_free2(d1: Seq<u32>, d2: Seq<u32>, i: int, j: int, g: Mrg, h: Mrg)
    requires sinc(d1), sinc(d2), mst(d1, d2, i, j, g), j < d2.len() < 0x1_0000_0000, i < d1.len() ==> d2[j] < d1[i],
        h == (Mrg { f: g.f.push(d2[j]), in1: g.in1.push(false), fi: g.fi.push(j as u32), ..g })
    ensures mst(d1, d2, i, j + 1, h)
{
    reveal(mst); lemma_absent(d2, j, d1, i); lemma_in_push(g.f, d2[j]);
    if j + 1 < d2.len() { assert(d2[j] < d2[j + 1]); }
    assert forall|a: int, b: int| 0 <= a < b < h.f.len() implies #[trigger] h.f[a] < #[trigger] h.f[b] by { if b == g.f.len() { assert(g.f[a] < d2[j]); } else { assert(g.f[a] < g.f[b]); } }
    assert forall|t: int| 0 <= t < h.f.len() implies (if h.in1[t] { (#[trigger] h.fi[t]) < i && d1[h.fi[t] as int] == h.f[t] && !in_seq(d2, h.f[t] as int) } else { h.fi[t] < j + 1 && d2[h.fi[t] as int] == h.f[t] && !in_seq(d1, h.f[t] as int) }) by { if t < g.f.len() { assert(h.fi[t] == g.fi[t] && h.in1[t] == g.in1[t] && h.f[t] == g.f[t]); } else { assert(h.fi[t] == j && !h.in1[t] && h.f[t] == d2[j]); } }
}
pub proof fn lemma_mst_both(d1: Seq<u32>, d2: Seq<u32>, i: int, j: int, g: Mrg, h: Mrg)
    requires sinc(d1), sinc(d2), mst(d1, d2, i, j, g), i < d1.len() < 0x1_0000_0000, j < d2.len() < 0x1_0000_0000, d1[i] == d2[j],
        h == (Mrg { s: g.s.push(d1[i]), i1: g.i1.push(i as u32), i2: g.i2.push(j as u32), ..g })
    ensures mst(d1, d2, i + 1, j + 1, h)
{
    reveal(mst); lemma_in_push(g.s, d1[i]);
    if i + 1 < d1.len() { assert(d1[i] < d1[i + 1]); } if j + 1 < d2.len() { assert(d2[j] < d2[j + 1]); }
    assert forall|a: int, b: int| 0 <= a < b < h.s.len() implies #[trigger] h.s[a] < #[trigger] h.s[b] by { if b == g.s.len() { assert(g.s[a] < d1[i]); } else { assert(g.s[a] < g.s[b]); } }
    assert forall|t: int| 0 <= t < h.s.len() implies (#[trigger] h.i1[t]) < i + 1 && d1[h.i1[t] as int] == h.s[t] && h.i2[t] < j + 1 && d2[h.i2[t] as int] == h.s[t] by { if t < g.s.len() { assert(h.i1[t] == g.i1[t] && h.i2[t] == g.i2[t] && h.s[t] == g.s[t]); } }
}
// ---- the finished bookkeeping
#[verifier::opaque]
pub open spec fn mdone(d1: Seq<u32>, d2: Seq<u32>, g: Mrg) -> bool {
    &&& split(d1, d2, g.f, g.s) && sinc(d1) && sinc(d2)
    &&& g.in1.len() == g.f.len() && g.fi.len() == g.f.len() && g.i1.len() == g.s.len() && g.i2.len() == g.s.len()
    &&& forall|t: int| 0 <= t < g.f.len() ==> (if g.in1[t] { (#[trigger] g.fi[t]) < d1.len() && d1[g.fi[t] as int] == g.f[t] } else { g.fi[t] < d2.len() && d2[g.fi[t] as int] == g.f[t] })
    &&& forall|t: int| 0 <= t < g.s.len() ==> (#[trigger] g.i1[t]) < d1.len() && d1[g.i1[t] as int] == g.s[t] && g.i2[t] < d2.len() && d2[g.i2[t] as int] == g.s[t]
}
pub proof fn lemma_mdone(d1: Seq<u32>, d2: Seq<u32>, g: Mrg) requires sinc(d1), sinc(d2), mst(d1, d2, d1.len() as int, d2.len() as int, g)
    ensures mdone(d1, d2, g), split(d1, d2, g.f, g.s), g.in1.len() == g.f.len(), g.fi.len() == g.f.len(), g.i1.len() == g.s.len(), g.i2.len() == g.s.len(), g.f.len() + 2 * g.s.len() == d1.len() + d2.len(), g.s.len() <= d1.len()
{
    reveal(mst); reveal(mdone);
    assert forall|t: int| 0 <= t < g.f.len() implies in_seq(d1, #[trigger] g.f[t] as int) != in_seq(d2, g.f[t] as int) by { let q = g.fi[t] as int; if g.in1[t] { assert(d1[q] == g.f[t]); } else { assert(d2[q] == g.f[t]); } }
    assert forall|t: int| 0 <= t < g.s.len() implies in_seq(d1, #[trigger] g.s[t] as int) && in_seq(d2, g.s[t] as int) by { let q = g.i1[t] as int; let w = g.i2[t] as int; assert(d1[q] == g.s[t] && d2[w] == g.s[t]); }
    assert(subseq(g.s, d1)); lemma_sublen(g.s, d1);
}
pub open spec fn fillf(g: Mrg, m: MI, k: int, m1: MI, m2: MI) -> bool { forall|t: int| 0 <= t < k ==> (if g.in1[t] { m1[#[trigger] g.fi[t] as int] == m[t] } else { m2[g.fi[t] as int] == m[t] }) }
pub open spec fn fills(g: Mrg, c: MI, k: int, m1: MI, m2: MI) -> bool { forall|t: int| 0 <= t < k ==> m1[#[trigger] g.i1[t] as int] == c[t] && m2[g.i2[t] as int] == c[t] }
pub proof fn lemma_fillf_step(d1: Seq<u32>, d2: Seq<u32>, g: Mrg, m: MI, k: int, m1: MI, m2: MI)
    requires mdone(d1, d2, g), 0 <= k < g.f.len(), m1.len() == d1.len(), m2.len() == d2.len(), m.len() == g.f.len(), fillf(g, m, k, m1, m2)
    ensures g.in1[k] ==> g.fi[k] < d1.len() && fillf(g, m, k + 1, m1.update(g.fi[k] as int, m[k]), m2), !g.in1[k] ==> g.fi[k] < d2.len() && fillf(g, m, k + 1, m1, m2.update(g.fi[k] as int, m[k]))
{
    reveal(mdone); let q = g.fi[k];
    assert forall|t: int| 0 <= t < k && g.in1[t] == g.in1[k] implies #[trigger] g.fi[t] != q by { assert(g.f[t] < g.f[k]); }
    let n1 = if g.in1[k] { m1.update(q as int, m[k]) } else { m1 }; let n2 = if g.in1[k] { m2 } else { m2.update(q as int, m[k]) };
    assert forall|t: int| 0 <= t < k + 1 implies (if g.in1[t] { n1[#[trigger] g.fi[t] as int] == m[t] } else { n2[g.fi[t] as int] == m[t] }) by { if t < k { let w = g.fi[t]; if g.in1[t] == g.in1[k] { assert(w != q); } } }
}
pub proof fn lemma_fills_step(d1: Seq<u32>, d2: Seq<u32>, g: Mrg, m: MI, c: MI, k: int, m1: MI, m2: MI)
    requires mdone(d1, d2, g), 0 <= k < g.s.len(), m1.len() == d1.len(), m2.len() == d2.len(), m.len() == g.f.len(), c.len() == g.s.len(), fillf(g, m, g.f.len() as int, m1, m2), fills(g, c, k, m1, m2)
    ensures g.i1[k] < d1.len(), g.i2[k] < d2.len(), fillf(g, m, g.f.len() as int, m1.update(g.i1[k] as int, c[k]), m2.update(g.i2[k] as int, c[k])), fills(g, c, k + 1, m1.update(g.i1[k] as int, c[k]), m2.update(g.i2[k] as int, c[k]))
{
    reveal(mdone); let q = g.i1[k]; let w = g.i2[k]; let n1 = m1.update(q as int, c[k]); let n2 = m2.update(w as int, c[k]);
    assert(g.i1[k] < d1.len());
    assert forall|t: int| 0 <= t < k implies #[trigger] g.i1[t] != q && g.i2[t] != w by { assert(g.s[t] < g.s[k]); }
    assert forall|t: int| 0 <= t < g.f.len() implies (if g.in1[t] { n1[#[trigger] g.fi[t] as int] == m[t] } else { n2[g.fi[t] as int] == m[t] }) by {
        let x = g.fi[t]; assert(in_seq(d1, g.f[t] as int) != in_seq(d2, g.f[t] as int)); assert(in_seq(d1, g.s[k] as int) && in_seq(d2, g.s[k] as int));
        if g.in1[t] { if x == q { assert(d1[x as int] == g.s[k]); } } else { if x == w { assert(d2[x as int] == g.s[k]); } }
    }
}
pub proof fn lemma_filled(d1: Seq<u32>, d2: Seq<u32>, g: Mrg, m: MI, c: MI, m1: MI, m2: MI)
    requires mdone(d1, d2, g), m1.len() == d1.len(), m2.len() == d2.len(), m.len() == g.f.len(), c.len() == g.s.len(), fillf(g, m, g.f.len() as int, m1, m2), fills(g, c, g.s.len() as int, m1, m2)
    ensures m1 == comb(d1, g.f, g.s, m, c), m2 == comb(d2, g.f, g.s, m, c)
{
    reveal(mdone);
    assert forall|t: int| 0 <= t < d1.len() implies m1[t] == comb(d1, g.f, g.s, m, c)[t] by {
        let v = d1[t] as int; assert(in_seq(g.f, d1[t] as int) || in_seq(g.s, d1[t] as int)); lemma_dpos(d1, t);
        if in_seq(g.f, v) {
            let q = dpos(g.f, v); let x = g.fi[q]; assert(in_seq(d1, v)); assert(in_seq(d1, g.f[q] as int) != in_seq(d2, g.f[q] as int));
            if !g.in1[q] { assert(d2[x as int] == g.f[q]); } lemma_dpos(d1, x as int);
        } else { let q = dpos(g.s, v); let x = g.i1[q]; assert(d1[x as int] == g.s[q]); lemma_dpos(d1, x as int); }
    }
    assert forall|t: int| 0 <= t < d2.len() implies m2[t] == comb(d2, g.f, g.s, m, c)[t] by {
        let v = d2[t] as int; assert(in_seq(g.f, d2[t] as int) || in_seq(g.s, d2[t] as int)); lemma_dpos(d2, t);
        if in_seq(g.f, v) {
            let q = dpos(g.f, v); let x = g.fi[q]; assert(in_seq(d2, v)); assert(in_seq(d1, g.f[q] as int) != in_seq(d2, g.f[q] as int));
            if g.in1[q] { assert(d1[x as int] == g.f[q]); } lemma_dpos(d2, x as int);
        } else { let q = dpos(g.s, v); let x = g.i1[q]; assert(d2[g.i2[q] as int] == g.s[q]); lemma_dpos(d2, g.i2[q] as int); }
    }
    assert(m1 =~= comb(d1, g.f, g.s, m, c)); assert(m2 =~= comb(d2, g.f, g.s, m, c));
}
// a sub-multi-index of an element of the set is in the set
pub proof fn lemma_comb_free(k: Kind, d: int, ds: Seq<u32>, f: Seq<u32>, s: Seq<u32>, m: MI, c: MI)
    requires sinc(ds), sinc(f), ds.len() >= 1, f.len() < 0x1_0000_0000, s.len() == 0, forall|t: int| 0 <= t < ds.len() ==> in_seq(f, #[trigger] ds[t] as int) || in_seq(s, ds[t] as int), is_mi(k, f.len() as int, d, m)
    ensures is_mi(k, ds.len() as int, d, comb(ds, f, s, m, c))
{
    assert forall|t: int| 0 <= t < ds.len() implies in_seq(f, #[trigger] ds[t] as int) by { assert(in_seq(f, ds[t] as int) || in_seq(s, ds[t] as int)); }
    lemma_pofs(k, f, ds); lemma_extr_inset(k, f.len() as int, d, m, pofs(f, ds));
    assert forall|t: int| 0 <= t < ds.len() implies extr(m, pofs(f, ds))[t] == comb(ds, f, s, m, c)[t] by { assert(in_seq(f, ds[t] as int)); assert(pofs(f, ds)[t] < f.len()); }
    assert(extr(m, pofs(f, ds)) =~= comb(ds, f, s, m, c));
}
pub proof fn lemma_comb_shared(k: Kind, d: int, ds: Seq<u32>, f: Seq<u32>, s: Seq<u32>, m: MI, c: MI)
    requires sinc(ds), sinc(s), ds.len() >= 1, s.len() < 0x1_0000_0000, f.len() == 0, forall|t: int| 0 <= t < ds.len() ==> in_seq(f, #[trigger] ds[t] as int) || in_seq(s, ds[t] as int), is_mi(k, s.len() as int, d, c)
    ensures is_mi(k, ds.len() as int, d, comb(ds, f, s, m, c))
{
    assert forall|t: int| 0 <= t < ds.len() implies in_seq(s, #[trigger] ds[t] as int) by { assert(in_seq(f, ds[t] as int) || in_seq(s, ds[t] as int)); }
    lemma_pofs(k, s, ds); lemma_extr_inset(k, s.len() as int, d, c, pofs(s, ds));
    assert forall|t: int| 0 <= t < ds.len() implies extr(c, pofs(s, ds))[t] == comb(ds, f, s, m, c)[t] by { assert(in_seq(s, ds[t] as int)); assert(pofs(s, ds)[t] < s.len()); }
    assert(extr(c, pofs(s, ds)) =~= comb(ds, f, s, m, c));
}
pub open spec fn inn_ok(p: Inn) -> bool { inner_ok(p.k, p.d, p.s1.len() as int, p.s2.len() as int, p.d1, p.d2) && split(p.d1, p.d2, p.f, p.s) }
pub proof fn lemma_iterm_at(p: Inn, m: MI, c: MI, i1: int, i2: int)
    requires inn_ok(p), 0 <= i1 < p.s1.len(), 0 <= i2 < p.s2.len(), elist(p.k, p.d1.len() as int, p.d)[i1] == comb(p.d1, p.f, p.s, m, c), elist(p.k, p.d2.len() as int, p.d)[i2] == comb(p.d2, p.f, p.s, m, c)
    ensures iterm(p, m, c) == p.s1[i1].v() * p.s2[i2].v()
{ reveal(iterm); lemma_coef_at(p.k, p.d1.len() as int, p.d, p.s1, i1); lemma_coef_at(p.k, p.d2.len() as int, p.d, p.s2, i2); }
pub proof fn lemma_iterm_zero(p: Inn, m: MI, c: MI)
    requires inn_ok(p), !elist(p.k, p.d1.len() as int, p.d).contains(comb(p.d1, p.f, p.s, m, c)) || !elist(p.k, p.d2.len() as int, p.d).contains(comb(p.d2, p.f, p.s, m, c))
    ensures iterm(p, m, c) == 0real
{
    reveal(iterm); let a = coef(p.k, p.d1.len() as int, p.d, p.s1, comb(p.d1, p.f, p.s, m, c)); let b = coef(p.k, p.d2.len() as int, p.d, p.s2, comb(p.d2, p.f, p.s, m, c));
    assert(a * b == 0real) by (nonlinear_arith) requires a == 0real || b == 0real;
}
