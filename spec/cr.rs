// ================================================================ cube and rectangle: successor
pub open spec fn iscr(k: Kind) -> bool { k is Cube || k is Rectangle }
pub proof fn lemma_w_char(k: Kind, m: MI, mx: int, ix: int, n: int)
    requires 0 <= ix < n <= m.len(), wgt(k, m, ix) == mx, forall|j: int| 0 <= j < ix ==> #[trigger] wgt(k, m, j) <= mx, forall|j: int| ix < j < n ==> #[trigger] wgt(k, m, j) < mx
    ensures wmax_to(k, m, n) == mx, wind_to(k, m, n) == ix
    decreases n
{
    if n - 1 > ix { lemma_w_char(k, m, mx, ix, n - 1); assert(wgt(k, m, n - 1) < mx); }
    else {
        lemma_wmax_ge(k, m, n - 1);
        if n - 1 > 0 { assert(wgt(k, m, wind_to(k, m, n - 1)) <= mx); }
        assert(wgt(k, m, ix) >= 0) by (nonlinear_arith) requires wgt(k, m, ix) == fac(k, ix) * (m[ix] as int), fac(k, ix) >= 1, m[ix] >= 0;
    }
}
pub proof fn lemma_cr_inset(k: Kind, d: int, m: MI)
    requires iscr(k), m.len() >= 1
    ensures inset(k, d, m) <==> wmax(k, m) <= d
{
    lemma_wmax_ge(k, m, m.len() as int);
    if inset(k, d, m) { let i = wind(k, m); assert(m[i] as int <= d || k is Rectangle); assert(wgt(k, m, i) == fac(k, i) * (m[i] as int)); }
    else {
        assert forall|i: int| 0 <= i < m.len() && wmax(k, m) <= d implies fac(k, i) * (#[trigger] m[i] as int) <= d by { assert(wgt(k, m, i) <= wmax(k, m)); }
        if wmax(k, m) <= d && k is Cube {
            assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] as int <= d by { assert(fac(k, i) * (m[i] as int) <= d); }
        }
    }
}
pub open spec fn inc_ok(k: Kind, m: MI, i: int) -> bool { fac(k, i) * (m[i] + 1) < wmax(k, m) + (if i < wind(k, m) { 1int } else { 0 }) }
pub open spec fn first_inc(k: Kind, m: MI, i: int) -> int decreases m.len() - i { if i >= m.len() || inc_ok(k, m, i) { i } else { first_inc(k, m, i + 1) } }
pub proof fn lemma_first_inc(k: Kind, m: MI, i: int)
    requires 0 <= i <= m.len()
    ensures i <= first_inc(k, m, i) <= m.len(), forall|t: int| i <= t < first_inc(k, m, i) ==> !#[trigger] inc_ok(k, m, t), first_inc(k, m, i) < m.len() ==> inc_ok(k, m, first_inc(k, m, i))
    decreases m.len() - i
{ if i >= m.len() || inc_ok(k, m, i) { } else { lemma_first_inc(k, m, i + 1); } }
// first position from i on whose factor divides the maximum
pub open spec fn next_div(k: Kind, m: MI, i: int) -> int decreases m.len() - i { if i >= m.len() || wmax(k, m) % fac(k, i) == 0 { i } else { next_div(k, m, i + 1) } }
pub proof fn lemma_next_div(k: Kind, m: MI, i: int)
    requires 0 <= i <= m.len()
    ensures i <= next_div(k, m, i) <= m.len(), forall|t: int| i <= t < next_div(k, m, i) ==> wmax(k, m) % #[trigger] fac(k, t) != 0, next_div(k, m, i) < m.len() ==> wmax(k, m) % fac(k, next_div(k, m, i)) == 0
    decreases m.len() - i
{ if i >= m.len() || wmax(k, m) % fac(k, i) == 0 { } else { lemma_next_div(k, m, i + 1); } }

// the three ways to move on
pub open spec fn cr_a(k: Kind, m: MI, i: int, m2: MI) -> bool {
    m2.len() == m.len() && 0 <= i < m.len() && i != wind(k, m) && m2[i] as int == m[i] + 1
    && (forall|t: int| 0 <= t < i && t != wind(k, m) ==> m2[t] == 0) && (forall|t: int| i < t < m.len() ==> m2[t] == m[t]) && m2[wind(k, m)] == m[wind(k, m)]
}
pub open spec fn cr_unit(k: Kind, n: int, mx: int, q: int, m2: MI) -> bool { m2.len() == n && 0 <= q < n && fac(k, q) * (m2[q] as int) == mx && forall|t: int| 0 <= t < n && t != q ==> m2[t] == 0 }
pub open spec fn le_all(a: Seq<int>, b: Seq<int>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i] }
pub proof fn lemma_key_cr(k: Kind, m: MI)
    requires iscr(k)
    ensures key(k, m).len() == m.len() + 2, key(k, m)[m.len() as int] == wind(k, m), key(k, m)[m.len() as int + 1] == wmax(k, m), forall|i: int| #![trigger key(k, m)[i]] #![trigger m[i]] 0 <= i < m.len() ==> key(k, m)[i] == m[i] as int
{ }
// what lt means
pub proof fn lemma_lt_cr(k: Kind, a: MI, b: MI)
    requires iscr(k), a.len() == b.len()
    ensures wmax(k, a) < wmax(k, b) ==> lt(k, a, b), wmax(k, a) == wmax(k, b) && wind(k, a) < wind(k, b) ==> lt(k, a, b),
        wmax(k, a) == wmax(k, b) && wind(k, a) == wind(k, b) && (forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i]) ==> a == b || lt(k, a, b),
        lt(k, a, b) ==> wmax(k, a) < wmax(k, b) || (wmax(k, a) == wmax(k, b) && (wind(k, a) < wind(k, b) || (wind(k, a) == wind(k, b) && cx(ms(a), ms(b))))),
        wmax(k, a) == wmax(k, b) && wind(k, a) == wind(k, b) && cx(ms(a), ms(b)) ==> lt(k, a, b),
{
    lemma_key_cr(k, a); lemma_key_cr(k, b);
    let ka = key(k, a); let kb = key(k, b); let n = a.len() as int;
    if wmax(k, a) < wmax(k, b) { assert(cx_at(ka, kb, n + 1)); }
    if wmax(k, a) == wmax(k, b) && wind(k, a) < wind(k, b) { assert(cx_at(ka, kb, n)); }
    if wmax(k, a) == wmax(k, b) && wind(k, a) == wind(k, b) && (forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i]) {
        lemma_cx_le(ka, kb);
        if ka == kb { lemma_key_inj(k, a, b); }
    }
    if lt(k, a, b) {
        let t = choose|t: int| cx_at(ka, kb, t);
        if t < n { assert(ka[n] == kb[n]); assert(ka[n + 1] == kb[n + 1]);
            assert forall|j: int| t < j < n implies ms(a)[j] == ms(b)[j] by { assert(ka[j] == kb[j]); }
            assert(cx_at(ms(a), ms(b), t)); }
        else if t == n { assert(ka[n + 1] == kb[n + 1]); }
    }
    if wmax(k, a) == wmax(k, b) && wind(k, a) == wind(k, b) && cx(ms(a), ms(b)) {
        let t = choose|t: int| cx_at(ms(a), ms(b), t);
        assert forall|j: int| t < j < n + 2 implies ka[j] == kb[j] by { if j < n { assert(ms(a)[j] == ms(b)[j]); } }
        assert(cx_at(ka, kb, t));
    }
}
// an entry of an element of the group (wmax, wind)
pub proof fn lemma_group_entry(k: Kind, y: MI, t: int)
    requires iscr(k), 0 <= t < y.len()
    ensures t != wind(k, y) ==> fac(k, t) * (y[t] as int) < wmax(k, y) + (if t < wind(k, y) { 1int } else { 0 }), fac(k, wind(k, y)) * (y[wind(k, y)] as int) == wmax(k, y)
{ lemma_wmax_ge(k, y, y.len() as int); assert(wgt(k, y, t) == fac(k, t) * (y[t] as int)); }
pub proof fn lemma_fac_inj(k: Kind, i: int, a: int, b: int) requires fac(k, i) * a == fac(k, i) * b ensures a == b
{ assert(a == b) by (nonlinear_arith) requires fac(k, i) * a == fac(k, i) * b, fac(k, i) == 1 || fac(k, i) == 2; }
// elements of the same group which come later agree with m above some incrementable position
pub proof fn lemma_same_group(k: Kind, m: MI, y: MI) -> (t: int)
    requires iscr(k), m.len() == y.len(), m.len() >= 1, wmax(k, m) == wmax(k, y), wind(k, m) == wind(k, y), cx(ms(m), ms(y))
    ensures cx_at(ms(m), ms(y), t), t != wind(k, m), inc_ok(k, m, t), m[t] < y[t], forall|j: int| t < j < m.len() ==> m[j] == y[j]
{
    let t = choose|t: int| cx_at(ms(m), ms(y), t);
    let w = wind(k, m);
    lemma_group_entry(k, y, t); lemma_group_entry(k, m, t);
    lemma_wmax_ge(k, m, m.len() as int);
    lemma_fac_inj(k, w, m[w] as int, y[w] as int);
    assert(ms(m)[t] < ms(y)[t]);
    assert forall|j: int| t < j < m.len() implies m[j] == y[j] by { assert(ms(m)[j] == ms(y)[j]); }
    assert(fac(k, t) * (m[t] + 1) <= fac(k, t) * (y[t] as int)) by (nonlinear_arith) requires m[t] + 1 <= y[t] as int, fac(k, t) >= 1;
    t
}
pub proof fn lemma_cr_a(k: Kind, d: int, m: MI, i: int, m2: MI)
    requires iscr(k), m.len() >= 1, cr_a(k, m, i, m2), i == first_inc(k, m, 0), inset(k, d, m)
    ensures is_succ(k, d, m, m2), wmax(k, m2) == wmax(k, m), wind(k, m2) == wind(k, m)
{
    let n = m.len() as int; let mx = wmax(k, m); let w = wind(k, m);
    lemma_first_inc(k, m, 0); lemma_wmax_ge(k, m, n);
    assert forall|j: int| 0 <= j < w implies #[trigger] wgt(k, m2, j) <= mx by { assert(wgt(k, m, j) <= mx); if j < i { assert(wgt(k, m2, j) == fac(k, j) * 0); } }
    assert forall|j: int| w < j < n implies #[trigger] wgt(k, m2, j) < mx by { assert(wgt(k, m, j) < mx); if j < i { assert(wgt(k, m2, j) == 0); if mx == 0 { assert(wgt(k, m, j) >= 0); } } }
    lemma_w_char(k, m2, mx, w, n);
    lemma_cr_inset(k, d, m); lemma_cr_inset(k, d, m2);
    lemma_lt_cr(k, m, m2);
    assert(cx_at(ms(m), ms(m2), i));
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) && lt(k, m, y) implies y == m2 || #[trigger] lt(k, m2, y) by {
        lemma_lt_cr(k, m, y); lemma_lt_cr(k, m2, y);
        if wmax(k, y) == mx && wind(k, y) == w {
            let t = lemma_same_group(k, m, y);
            if t > i { assert forall|j: int| t < j < n implies ms(m2)[j] == ms(y)[j] by { assert(m2[j] == m[j]); } assert(cx_at(ms(m2), ms(y), t)); }
            else {
                assert(t == i);
                lemma_group_entry(k, y, i); lemma_group_entry(k, m, i); lemma_fac_inj(k, w, m[w] as int, y[w] as int);
                assert forall|j: int| 0 <= j < n implies m2[j] <= y[j] by { if j > i { assert(m2[j] == m[j]); } }
            }
        }
    }
}
pub proof fn lemma_unit_key(k: Kind, n: int, mx: int, q: int, m2: MI)
    requires iscr(k), cr_unit(k, n, mx, q, m2), mx > 0 ensures wmax(k, m2) == mx, wind(k, m2) == q
{
    assert forall|j: int| 0 <= j < q implies #[trigger] wgt(k, m2, j) <= mx by { assert(wgt(k, m2, j) == fac(k, j) * 0); }
    assert forall|j: int| q < j < n implies #[trigger] wgt(k, m2, j) < mx by { assert(wgt(k, m2, j) == fac(k, j) * 0); }
    lemma_w_char(k, m2, mx, q, n);
}
pub proof fn lemma_unit_le(k: Kind, m2: MI, y: MI)
    requires iscr(k), y.len() >= 1, cr_unit(k, y.len() as int, wmax(k, y), wind(k, y), m2), wmax(k, y) > 0
    ensures y == m2 || lt(k, m2, y)
{
    lemma_unit_key(k, y.len() as int, wmax(k, y), wind(k, y), m2);
    lemma_group_entry(k, y, 0); lemma_wmax_ge(k, y, y.len() as int);
    lemma_fac_inj(k, wind(k, y), m2[wind(k, y)] as int, y[wind(k, y)] as int);
    lemma_lt_cr(k, m2, y);
}
pub proof fn lemma_cr_b(k: Kind, d: int, m: MI, q: int, m2: MI)
    requires iscr(k), m.len() >= 1, first_inc(k, m, 0) == m.len(), inset(k, d, m), q == next_div(k, m, wind(k, m) + 1), q < m.len(), cr_unit(k, m.len() as int, wmax(k, m), q, m2), wmax(k, m) > 0
    ensures is_succ(k, d, m, m2), wmax(k, m2) == wmax(k, m), wind(k, m2) == q
{
    let n = m.len() as int; let mx = wmax(k, m); let w = wind(k, m);
    lemma_first_inc(k, m, 0); lemma_wmax_ge(k, m, n); lemma_next_div(k, m, w + 1);
    lemma_unit_key(k, n, mx, q, m2);
    lemma_cr_inset(k, d, m); lemma_cr_inset(k, d, m2);
    lemma_lt_cr(k, m, m2);
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) && lt(k, m, y) implies y == m2 || #[trigger] lt(k, m2, y) by {
        lemma_lt_cr(k, m, y); lemma_lt_cr(k, m2, y);
        if wmax(k, y) == mx && wind(k, y) == w { let t = lemma_same_group(k, m, y); }
        if wmax(k, y) == mx { lemma_div_at(k, y); if wind(k, y) == q { lemma_unit_le(k, m2, y); } }
    }
}
pub proof fn lemma_div_at(k: Kind, y: MI)
    requires iscr(k), y.len() >= 1 ensures wmax(k, y) % fac(k, wind(k, y)) == 0
{
    let w = wind(k, y); lemma_group_entry(k, y, 0); let a = y[w] as int; let mx = wmax(k, y);
    if fac(k, w) == 2 { assert(mx == 2 * a); assert(mx % 2 == 0); } else { assert(fac(k, w) == 1); assert(mx % 1 == 0); }
}
// nothing is left in the group of the current maximum
pub proof fn lemma_cr_group_end(k: Kind, m: MI, y: MI)
    requires iscr(k), m.len() >= 1, y.len() == m.len(), first_inc(k, m, 0) == m.len(), next_div(k, m, wind(k, m) + 1) == m.len(), lt(k, m, y)
    ensures wmax(k, y) > wmax(k, m)
{
    lemma_first_inc(k, m, 0); lemma_wmax_ge(k, m, m.len() as int); lemma_wmax_ge(k, y, m.len() as int); lemma_next_div(k, m, wind(k, m) + 1);
    lemma_lt_cr(k, m, y);
    if wmax(k, y) == wmax(k, m) {
        if wind(k, y) == wind(k, m) { let t = lemma_same_group(k, m, y); }
        lemma_div_at(k, y);
    }
}
pub proof fn lemma_cr_c(k: Kind, d: int, m: MI, m2: MI)
    requires iscr(k), m.len() >= 1, first_inc(k, m, 0) == m.len(), inset(k, d, m), next_div(k, m, wind(k, m) + 1) == m.len(), cr_unit(k, m.len() as int, wmax(k, m) + 1, 0, m2), wmax(k, m) < d
    ensures is_succ(k, d, m, m2), wmax(k, m2) == wmax(k, m) + 1, wind(k, m2) == 0
{
    let n = m.len() as int; let mx = wmax(k, m);
    lemma_wmax_ge(k, m, n);
    lemma_unit_key(k, n, mx + 1, 0, m2);
    lemma_cr_inset(k, d, m); lemma_cr_inset(k, d, m2);
    lemma_lt_cr(k, m, m2);
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) && lt(k, m, y) implies y == m2 || #[trigger] lt(k, m2, y) by {
        lemma_cr_group_end(k, m, y); lemma_lt_cr(k, m2, y); lemma_wmax_ge(k, y, n);
        if wmax(k, y) == mx + 1 && wind(k, y) == 0 { lemma_unit_le(k, m2, y); }
    }
}
pub proof fn lemma_cr_last(k: Kind, d: int, m: MI)
    requires iscr(k), m.len() >= 1, first_inc(k, m, 0) == m.len(), next_div(k, m, wind(k, m) + 1) == m.len(), wmax(k, m) >= d
    ensures is_last(k, d, m)
{
    assert forall|y: MI| y.len() == m.len() && inset(k, d, y) implies !#[trigger] lt(k, m, y) by {
        if lt(k, m, y) { lemma_cr_group_end(k, m, y); lemma_cr_inset(k, d, y); }
    }
}
