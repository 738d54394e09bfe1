// ================================================================ consistent hyperbolic cross: successor
pub proof fn lemma_mx1_eq(a: MI, b: MI, j: int)
    requires a.len() == b.len(), forall|t: int| 0 <= t <= j && t < a.len() ==> mx1(#[trigger] a[t]) == mx1(b[t]) ensures pprod(a, j) == pprod(b, j) decreases j + 1
{ if 0 <= j < a.len() { lemma_mx1_eq(a, b, j - 1); assert(mx1(a[j]) == mx1(b[j])); } }
pub proof fn lemma_pp_mx1(a: MI, b: MI, j: int)
    requires a.len() == b.len(), 0 <= j < a.len(), pprod(a, j) == pprod(b, j), pprod(a, j - 1) == pprod(b, j - 1) ensures mx1(a[j]) == mx1(b[j])
{
    lemma_pprod_mono(a, j - 1, j - 1);
    let p = pprod(a, j - 1); assert(pprod(a, j) == p * mx1(a[j])); assert(pprod(b, j) == p * mx1(b[j]));
    assert(mx1(a[j]) == mx1(b[j])) by (nonlinear_arith) requires p * mx1(a[j]) == p * mx1(b[j]), p >= 1;
}
pub open spec fn clr(m: MI) -> MI { Seq::new(m.len(), |t: int| if m[t] == 1 { 0u32 } else { m[t] }) }
pub proof fn lemma_clr(m: MI, j: int) ensures pprod(clr(m), j) == pprod(m, j) decreases j + 1
{ if 0 <= j < m.len() { lemma_clr(m, j - 1); assert(mx1(clr(m)[j]) == mx1(m[j])); } }
pub proof fn lemma_key_crs(m: MI)
    ensures key(Kind::Cross, m).len() == 2 * m.len(), forall|i: int| #![trigger key(Kind::Cross, m)[i]] 0 <= i < m.len() ==> key(Kind::Cross, m)[i] == m[i] as int,
        forall|i: int| #![trigger key(Kind::Cross, m)[i]] m.len() <= i < 2 * m.len() ==> key(Kind::Cross, m)[i] == pprod(m, i - m.len())
{ }
pub proof fn lemma_lt_crs(a: MI, b: MI)
    requires a.len() == b.len()
    ensures cx(pp(a), pp(b)) ==> lt(Kind::Cross, a, b), pp(a) == pp(b) && cx(ms(a), ms(b)) ==> lt(Kind::Cross, a, b),
        lt(Kind::Cross, a, b) ==> cx(pp(a), pp(b)) || (pp(a) == pp(b) && cx(ms(a), ms(b))),
        pp(a) == pp(b) && (forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i]) ==> a == b || lt(Kind::Cross, a, b)
{
    let k = Kind::Cross; let n = a.len() as int; let ka = key(k, a); let kb = key(k, b);
    lemma_key_crs(a); lemma_key_crs(b);
    if cx(pp(a), pp(b)) {
        let t = choose|t: int| cx_at(pp(a), pp(b), t);
        assert forall|j: int| n + t < j < 2 * n implies ka[j] == kb[j] by { assert(pp(a)[j - n] == pp(b)[j - n]); }
        assert(pp(a)[t] < pp(b)[t]);
        assert(cx_at(ka, kb, n + t));
    }
    if pp(a) == pp(b) {
        assert forall|j: int| n <= j < 2 * n implies ka[j] == kb[j] by { assert(pp(a)[j - n] == pp(b)[j - n]); }
        if cx(ms(a), ms(b)) {
            let t = choose|t: int| cx_at(ms(a), ms(b), t);
            assert forall|j: int| t < j < 2 * n implies ka[j] == kb[j] by { if j < n { assert(ms(a)[j] == ms(b)[j]); } }
            assert(ms(a)[t] < ms(b)[t]);
            assert(cx_at(ka, kb, t));
        }
        if forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i] {
            assert forall|i: int| 0 <= i < ka.len() implies ka[i] <= kb[i] by { if i < n { assert(a[i] <= b[i]); } }
            lemma_cx_le(ka, kb); if ka == kb { lemma_key_inj(k, a, b); }
        }
    }
    if lt(k, a, b) {
        let t = choose|t: int| cx_at(ka, kb, t);
        if t >= n {
            assert forall|j: int| t - n < j < n implies pp(a)[j] == pp(b)[j] by { assert(ka[n + j] == kb[n + j]); }
            assert(cx_at(pp(a), pp(b), t - n));
        } else {
            assert forall|j: int| 0 <= j < n implies pp(a)[j] == pp(b)[j] by { assert(ka[n + j] == kb[n + j]); }
            assert(pp(a) =~= pp(b));
            assert forall|j: int| t < j < n implies ms(a)[j] == ms(b)[j] by { assert(ka[j] == kb[j]); }
            assert(cx_at(ms(a), ms(b), t));
        }
    }
}
pub open spec fn bit_pos(m: MI, i: int) -> int decreases m.len() - i { if i >= m.len() || m[i] == 0 { i } else { bit_pos(m, i + 1) } }
pub proof fn lemma_bit_pos(m: MI, i: int)
    requires 0 <= i <= m.len() ensures i <= bit_pos(m, i) <= m.len(), forall|t: int| i <= t < bit_pos(m, i) ==> m[t] != 0, bit_pos(m, i) < m.len() ==> m[bit_pos(m, i)] == 0 decreases m.len() - i
{ if i >= m.len() || m[i] == 0 { } else { lemma_bit_pos(m, i + 1); } }
// entries with equal partial products differ only between 0 and 1
pub proof fn lemma_pp_same(a: MI, b: MI, j: int)
    requires a.len() == b.len(), pp(a) == pp(b), 0 <= j < a.len() ensures mx1(a[j]) == mx1(b[j])
{
    assert(pp(a)[j] == pprod(a, j)); assert(pp(b)[j] == pprod(b, j));
    if j > 0 { assert(pp(a)[j - 1] == pprod(a, j - 1)); assert(pp(b)[j - 1] == pprod(b, j - 1)); } else { assert(pprod(a, -1) == 1); assert(pprod(b, -1) == 1); }
    lemma_pp_mx1(a, b, j);
}
pub open spec fn crs_bit(m: MI, p: int, m2: MI) -> bool {
    m2.len() == m.len() && 0 <= p < m.len() && p == bit_pos(m, 0) && m2[p] == 1 && (forall|t: int| 0 <= t < p ==> m2[t] == clr(m)[t]) && (forall|t: int| p < t < m.len() ==> m2[t] == m[t])
}
pub proof fn lemma_crs_bit(d: int, m: MI, p: int, m2: MI)
    requires crs_bit(m, p, m2), inset(Kind::Cross, d, m)
    ensures is_succ(Kind::Cross, d, m, m2)
{
    let k = Kind::Cross; let n = m.len() as int;
    lemma_bit_pos(m, 0);
    assert forall|j: int| 0 <= j < n implies pprod(m2, j) == pprod(m, j) by {
        assert forall|t: int| 0 <= t <= j && t < m2.len() implies mx1(#[trigger] m2[t]) == mx1(m[t]) by { if t < p { assert(m2[t] == clr(m)[t]); } else if t > p { assert(m2[t] == m[t]); } }
        lemma_mx1_eq(m2, m, j);
    }
    assert(pp(m2) =~= pp(m));
    lemma_lt_crs(m, m2); assert(cx_at(ms(m), ms(m2), p));
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) && lt(k, m, y) implies y == m2 || #[trigger] lt(k, m2, y) by {
        lemma_lt_crs(m, y); lemma_lt_crs(m2, y);
        if pp(m) == pp(y) {
            assert(cx(ms(m), ms(y)) || cx(pp(m), pp(y)));
            if cx(pp(m), pp(y)) { lemma_cx_irrefl(pp(m)); }
            let t = choose|t: int| cx_at(ms(m), ms(y), t);
            lemma_pp_same(m, y, t);
            assert(ms(m)[t] < ms(y)[t]); assert(m[t] == 0);
            assert forall|j: int| t < j < n implies m[j] == y[j] by { assert(ms(m)[j] == ms(y)[j]); }
            if t > p { assert forall|j: int| t < j < n implies ms(m2)[j] == ms(y)[j] by { assert(m2[j] == m[j]); } assert(m2[t] == m[t]); assert(cx_at(ms(m2), ms(y), t)); }
            else {
                assert(t == p);
                assert forall|j: int| 0 <= j < n implies m2[j] <= y[j] by {
                    lemma_pp_same(m, y, j);
                    if j < p { assert(m2[j] == clr(m)[j]); } else if j > p { assert(m2[j] == m[j]); }
                }
            }
        }
    }
}
// f is the smallest divisor of q above a
pub open spec fn next_fac(q: int, a: int, f: int) -> bool { a < f <= q && q % f == 0 && forall|g: int| a < g < f ==> #[trigger] (q % g) != 0 }
pub open spec fn crs_fac(m: MI, i: int, m2: MI) -> bool {
    let c = clr(m); let a = mx1(c[0]);
    &&& m2.len() == m.len() && m.len() >= 1 && i == tri_pos(c, 0) && bit_pos(m, 0) == m.len()
    &&& forall|t: int| 0 <= t < i ==> m2[t] == 0
    &&& forall|t: int| i + 1 < t < m.len() ==> m2[t] == c[t]
    &&& i + 1 < m.len() ==> { let q = a * (c[i + 1] as int); let f = m2[i] as int; next_fac(q, a, f) && m2[i + 1] as int == (if f == q { 0 } else { q / f }) }
    &&& i + 1 == m.len() ==> m2[i] as int == a + 1
}
pub proof fn lemma_crs_head(m: MI, i: int)
    requires m.len() >= 1, i == tri_pos(clr(m), 0)
    ensures 0 <= i < m.len(), forall|j: int| 0 <= j <= i ==> pprod(m, j) == mx1(clr(m)[0]), i + 1 < m.len() ==> clr(m)[i + 1] >= 2 && pprod(m, i + 1) == mx1(clr(m)[0]) * (clr(m)[i + 1] as int)
{
    let c = clr(m); lemma_tri_pos(c, 0);
    assert forall|j: int| 0 <= j <= i implies pprod(m, j) == mx1(c[0]) by { lemma_crs_head_to(c, i, j); lemma_clr(m, j); }
    if i + 1 < m.len() { lemma_crs_head_to(c, i, i); lemma_clr(m, i + 1); assert(pprod(c, i + 1) == pprod(c, i) * mx1(c[i + 1])); }
}
pub proof fn lemma_crs_head_to(c: MI, i: int, j: int)
    requires 0 <= j <= i < c.len(), forall|t: int| 0 < t <= i ==> c[t] == 0 ensures pprod(c, j) == mx1(c[0]) decreases j
{ assert(pprod(c, -1) == 1); assert(pprod(c, j) == pprod(c, j - 1) * mx1(c[j])); if j > 0 { lemma_crs_head_to(c, i, j - 1); } }
pub proof fn lemma_crs_pp2(m: MI, i: int, m2: MI)
    requires crs_fac(m, i, m2)
    ensures forall|j: int| 0 <= j < i ==> pprod(m2, j) == 1, pprod(m2, i) == m2[i] as int, m2[i] as int > mx1(clr(m)[0]), forall|j: int| i < j < m.len() ==> pprod(m2, j) == pprod(m, j), forall|j: int| 0 <= j < m.len() ==> m2[j] != 1
{
    let c = clr(m); let a = mx1(c[0]); lemma_crs_head(m, i); lemma_tri_pos(c, 0);
    assert forall|j: int| 0 <= j < i implies pprod(m2, j) == 1 by { lemma_ones(m2, j); }
    if i > 0 { lemma_ones(m2, i - 1); } assert(pprod(m2, -1) == 1);
    assert(pprod(m2, i) == pprod(m2, i - 1) * mx1(m2[i]));
    assert(1 * mx1(m2[i]) == m2[i] as int);
    if i + 1 < m.len() {
        let q = a * (c[i + 1] as int); let f = m2[i] as int;
        assert(f * (q / f) == q) by { lemma_fundamental_div_mod(q, f); }
        assert(mx1(m2[i + 1]) == q / f && m2[i + 1] != 1) by {
            if f == q { assert(q / f == 1) by { lemma_div_by_self(q); } }
            else { assert(q / f >= 2) by (nonlinear_arith) requires f * (q / f) == q, f < q, f >= 1; }
        }
        assert(pprod(m2, i + 1) == pprod(m2, i) * mx1(m2[i + 1]));
        assert forall|j: int| i < j < m.len() implies pprod(m2, j) == pprod(m, j) by { lemma_crs_tail(m, i, m2, j); }
    }
    assert forall|j: int| 0 <= j < m.len() implies m2[j] != 1 by { if j > i + 1 { assert(m2[j] == c[j]); } }
}
pub proof fn lemma_ones(m: MI, j: int) requires j < m.len(), forall|t: int| 0 <= t <= j ==> m[t] == 0 ensures pprod(m, j) == 1 decreases j + 1
{ if j >= 0 { lemma_ones(m, j - 1); } }
pub proof fn lemma_crs_tail(m: MI, i: int, m2: MI, j: int)
    requires crs_fac(m, i, m2), i < j < m.len(), pprod(m2, i + 1) == pprod(m, i + 1) ensures pprod(m2, j) == pprod(m, j) decreases j - i
{ if j > i + 1 { lemma_crs_tail(m, i, m2, j - 1); lemma_tri_pos(clr(m), 0); assert(m2[j] == clr(m)[j]); assert(clr(m)[j] == (if m[j] == 1 { 0u32 } else { m[j] })); assert(mx1(m2[j]) == mx1(m[j]));
    assert(pprod(m2, j) == pprod(m2, j - 1) * mx1(m2[j])); assert(pprod(m, j) == pprod(m, j - 1) * mx1(m[j])); } }
// no zero entry: later elements have larger partial products
pub proof fn lemma_crs_later(m: MI, y: MI)
    requires m.len() == y.len(), bit_pos(m, 0) == m.len(), lt(Kind::Cross, m, y) ensures cx(pp(m), pp(y))
{
    lemma_bit_pos(m, 0); lemma_lt_crs(m, y);
    if pp(m) == pp(y) && cx(ms(m), ms(y)) { let t = choose|t: int| cx_at(ms(m), ms(y), t); assert(ms(m)[t] < ms(y)[t]); lemma_pp_same(m, y, t); }
}
pub proof fn lemma_crs_fac(d: int, m: MI, i: int, m2: MI)
    requires crs_fac(m, i, m2), inset(Kind::Cross, d, m), i + 1 == m.len() ==> mx1(clr(m)[0]) < max1(d)
    ensures is_succ(Kind::Cross, d, m, m2)
{
    let k = Kind::Cross; let n = m.len() as int; let a = mx1(clr(m)[0]);
    lemma_crs_pp2(m, i, m2); lemma_crs_head(m, i);
    lemma_lt_crs(m, m2);
    assert(cx_at(pp(m), pp(m2), i)) by { assert forall|j: int| i < j < n implies pp(m)[j] == pp(m2)[j] by { } }
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) && lt(k, m, y) implies y == m2 || #[trigger] lt(k, m2, y) by {
        lemma_crs_later(m, y); lemma_lt_crs(m2, y);
        let t = choose|t: int| cx_at(pp(m), pp(y), t);
        assert(pp(m)[t] < pp(y)[t]);
        assert forall|j: int| t < j < n implies pprod(y, j) == pprod(m, j) by { assert(pp(m)[j] == pp(y)[j]); }
        if t < i { lemma_pprod_mono(y, t, t + 1); assert(pprod(y, t + 1) == pprod(m, t + 1)); }
        else if t > i { assert(cx_at(pp(m2), pp(y), t)) by { assert forall|j: int| t < j < n implies pp(m2)[j] == pp(y)[j] by { } } }
        else {
            let g = pprod(y, i);
            if i + 1 < n {
                let q = pprod(m, i + 1);
                assert(pprod(y, i + 1) == g * mx1(y[i + 1])); assert(pprod(y, i + 1) == q);
                assert(q % g == 0) by { lemma_mod_multiples_basic(mx1(y[i + 1]), g); assert(mx1(y[i + 1]) * g == g * mx1(y[i + 1])) by (nonlinear_arith); lemma_pprod_mono(y, i, i); }
                assert(g >= m2[i] as int);
            }
            assert(g >= pprod(m2, i));
            assert forall|j: int| 0 <= j < n implies pp(m2)[j] <= pp(y)[j] by { lemma_pprod_mono(y, j, j); }
            lemma_cx_le(pp(m2), pp(y));
            if pp(m2) == pp(y) {
                assert forall|j: int| 0 <= j < n implies m2[j] <= y[j] by { lemma_pp_same(m2, y, j); }
            }
        }
    }
}
pub proof fn lemma_crs_last(d: int, m: MI)
    requires m.len() >= 1, bit_pos(m, 0) == m.len(), tri_pos(clr(m), 0) == m.len() - 1, mx1(clr(m)[0]) >= max1(d)
    ensures is_last(Kind::Cross, d, m)
{
    let k = Kind::Cross; let n = m.len() as int;
    lemma_crs_head(m, n - 1);
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) implies !#[trigger] lt(k, m, y) by {
        if lt(k, m, y) {
            lemma_crs_later(m, y);
            let t = choose|t: int| cx_at(pp(m), pp(y), t);
            assert(pp(m)[t] < pp(y)[t]); lemma_pprod_mono(y, t, n - 1);
        }
    }
}
// (d, 1, ..., 1) closes the enumeration
pub open spec fn crs_top(dim: int, d: int) -> MI { Seq::new(dim as nat, |i: int| if i == 0 { d as u32 } else { 1u32 }) }
pub proof fn lemma_crs_top(dim: int, d: int)
    requires dim >= 1, 1 <= d < 0x1_0000_0000
    ensures is_mi(Kind::Cross, dim, d, crs_top(dim, d)), is_last(Kind::Cross, d, crs_top(dim, d))
{
    let z = crs_top(dim, d); let c = clr(z);
    lemma_top_prod(dim, d, dim - 1);
    lemma_bit_pos(z, 0); lemma_tri_pos(c, 0);
    assert(bit_pos(z, 0) == z.len());
    let i = tri_pos(c, 0); if i + 1 < z.len() { assert(c[i + 1] == 0); }
    lemma_crs_last(d, z);
}
pub proof fn lemma_top_prod(dim: int, d: int, j: int) requires 0 <= j < dim, 1 <= d < 0x1_0000_0000 ensures pprod(crs_top(dim, d), j) == d decreases j
{ let z = crs_top(dim, d); assert(pprod(z, -1) == 1); assert(z[j] == (if j == 0 { d as u32 } else { 1u32 })); assert(pprod(z, j) == pprod(z, j - 1) * mx1(z[j])); if j > 0 { lemma_top_prod(dim, d, j - 1); assert(mx1(z[j]) == 1); } else { assert(mx1(z[j]) == d); } }
pub proof fn lemma_last_is_last(k: Kind, dim: int, d: int, l: Seq<MI>, z: MI)
    requires valid_list(k, dim, d, l), is_mi(k, dim, d, z), is_last(k, d, z) ensures l.len() > 0, l.last() == z
{ let j = choose|j: int| 0 <= j < l.len() && l[j] == z; if j < l.len() - 1 { assert(is_mi(k, dim, d, l[j + 1])); assert(lt(k, l[j], l[j + 1])); } }
