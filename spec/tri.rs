// ================================================================ triangle: successor, rank, size
pub proof fn lemma_psum_eq(a: MI, b: MI, i: int)
    requires a.len() == b.len(), forall|j: int| 0 <= j <= i && j < a.len() ==> a[j] == b[j] ensures psum(a, i) == psum(b, i) decreases i + 1
{ if 0 <= i < a.len() { lemma_psum_eq(a, b, i - 1); } }
pub proof fn lemma_psum_zero(m: MI, i: int, j: int)
    requires -1 <= i <= j < m.len(), forall|t: int| i < t <= j ==> m[t] == 0 ensures psum(m, i) == psum(m, j) decreases j + 1
{ if i < j { lemma_psum_zero(m, i, j - 1); } }
// m2 is obtained from m by moving to the next partial-sum vector at position i
pub open spec fn tri_step(m: MI, i: int, m2: MI) -> bool {
    &&& m2.len() == m.len() && 0 <= i < m.len()
    &&& forall|t: int| 0 < t <= i ==> m[t] == 0
    &&& i + 1 < m.len() ==> m[i + 1] > 0 && m2[i + 1] as int == m[i + 1] - 1
    &&& forall|t: int| i + 1 < t < m.len() ==> m2[t] == m[t]
    &&& m2[i] as int == m[0] + 1
    &&& forall|t: int| 0 <= t < i ==> m2[t] == 0
}
pub proof fn lemma_tri_step_ps(m: MI, i: int, m2: MI)
    requires tri_step(m, i, m2)
    ensures forall|j: int| 0 <= j <= i ==> psum(m, j) == m[0] as int, forall|j: int| 0 <= j < i ==> psum(m2, j) == 0,
        psum(m2, i) == m[0] + 1, forall|j: int| i < j < m.len() ==> psum(m2, j) == psum(m, j)
{
    assert forall|j: int| 0 <= j <= i implies psum(m, j) == m[0] as int by { lemma_psum_zero(m, 0, j); assert(psum(m, -1) == 0); assert(psum(m, 0) == psum(m, -1) + m[0] as int); }
    assert forall|j: int| 0 <= j < i implies psum(m2, j) == 0 by { lemma_psum_zero(m2, -1, j); assert(psum(m2, -1) == 0); }
    if i > 0 { lemma_psum_zero(m2, -1, i - 1); } assert(psum(m2, -1) == 0);
    assert(psum(m2, i) == psum(m2, i - 1) + m2[i] as int);
    assert forall|j: int| i < j < m.len() implies psum(m2, j) == psum(m, j) by { lemma_tri_tail(m, i, m2, j); }
}
pub proof fn lemma_tri_tail(m: MI, i: int, m2: MI, j: int)
    requires tri_step(m, i, m2), i < j < m.len(), psum(m, i) == m[0] as int, psum(m2, i) == m[0] + 1 ensures psum(m2, j) == psum(m, j) decreases j
{
    assert(psum(m, j) == psum(m, j - 1) + m[j] as int); assert(psum(m2, j) == psum(m2, j - 1) + m2[j] as int);
    if j > i + 1 { lemma_tri_tail(m, i, m2, j - 1); }
}
// the step is the immediate successor for the order by partial sums, among all multi-indices
pub proof fn lemma_tri_next(k: Kind, m: MI, i: int, m2: MI)
    requires tri_step(m, i, m2), k is Triangle || k is CrossNc
    ensures lt(k, m, m2), forall|y: MI| y.len() == m.len() && lt(k, m, y) ==> y == m2 || #[trigger] lt(k, m2, y)
{
    lemma_tri_step_ps(m, i, m2);
    let n = m.len() as int;
    assert(cx_at(ps(m), ps(m2), i));
    assert forall|y: MI| y.len() == m.len() && lt(k, m, y) implies y == m2 || #[trigger] lt(k, m2, y) by {
        let t = choose|t: int| cx_at(ps(m), ps(y), t);
        assert forall|j: int| t < j < n implies psum(y, j) == psum(m, j) by { assert(ps(m)[j] == ps(y)[j]); }
        assert(ps(m)[t] < ps(y)[t]);
        if t < i {
            lemma_psum_mono(y, t, t + 1);
            assert(psum(y, t + 1) == psum(m, t + 1));
        } else if t > i {
            assert(cx_at(ps(m2), ps(y), t));
        } else {
            assert forall|j: int| 0 <= j < n implies ps(m2)[j] <= ps(y)[j] by { lemma_psum_mono(y, j, j); }
            lemma_cx_le(ps(m2), ps(y));
            if ps(m2) == ps(y) { lemma_ps_inj(m2, y); }
        }
    }
}
pub proof fn lemma_tri_succ(d: int, m: MI, i: int, m2: MI)
    requires tri_step(m, i, m2), total(m) <= d, i == m.len() - 1 ==> m[0] < d
    ensures is_succ(Kind::Triangle, d, m, m2), inset(Kind::Triangle, d, m2)
{
    lemma_tri_next(Kind::Triangle, m, i, m2); lemma_tri_step_ps(m, i, m2);
}
pub proof fn lemma_tri_last(d: int, m: MI)
    requires m.len() >= 1, m[0] as int == d, forall|t: int| 0 < t < m.len() ==> m[t] == 0
    ensures is_last(Kind::Triangle, d, m)
{
    assert forall|y: MI| y.len() == m.len() && inset(Kind::Triangle, d, y) implies !#[trigger] lt(Kind::Triangle, m, y) by {
        if lt(Kind::Triangle, m, y) {
            let t = choose|t: int| cx_at(ps(m), ps(y), t);
            lemma_psum_mono(y, t, y.len() - 1);
            lemma_psum_zero(m, 0, t); assert(psum(m, -1) == 0); assert(psum(m, 0) == m[0] as int);
            assert(ps(m)[t] < ps(y)[t]);
        }
    }
}
pub proof fn lemma_le_total(m: MI, i: int)
    requires 0 <= i < m.len() ensures m[i] as int <= total(m), 0 <= psum(m, i) <= total(m)
{ lemma_psum_mono(m, i, m.len() - 1); lemma_psum_mono(m, i - 1, i - 1); assert(psum(m, i) == psum(m, i - 1) + m[i] as int); }

// ---- rank
pub open spec fn tri_rank_to(m: MI, n: int) -> int decreases n { if n <= 0 { 0 } else { tri_rank_to(m, n - 1) + (if psum(m, n - 1) > 0 { binom((n - 1 + psum(m, n - 1)) as nat, n as nat) as int } else { 0 }) } }
pub open spec fn tri_rank(m: MI) -> int { tri_rank_to(m, m.len() as int) }
pub proof fn lemma_binom_zero(n: nat, k: nat) requires k > n ensures binom(n, k) == 0 decreases n { if n > 0 && k > 0 { lemma_binom_zero((n - 1) as nat, k); lemma_binom_zero((n - 1) as nat, (k - 1) as nat); } }
pub proof fn lemma_binom_diag(n: nat) ensures binom(n, n) == 1 decreases n { if n > 0 { lemma_binom_zero((n - 1) as nat, n); lemma_binom_diag((n - 1) as nat); } }
// hockey stick: sum_{j<=i} C(j+s, j+1) = C(i+s+1, i+1) - 1
pub proof fn lemma_hockey(m: MI, i: int, s: int)
    requires -1 <= i < m.len(), s >= 0, forall|j: int| 0 <= j <= i ==> psum(m, j) == s
    ensures tri_rank_to(m, i + 1) == binom((i + s + 1) as nat, (i + 1) as nat) - 1
    decreases i + 1
{
    if i == -1 { assert(tri_rank_to(m, 0) == 0); assert(binom(s as nat, 0) == 1); }
    else {
        lemma_hockey(m, i - 1, s);
        assert(psum(m, i) == s);
        assert(tri_rank_to(m, i + 1) == tri_rank_to(m, i) + (if s > 0 { binom((i + s) as nat, (i + 1) as nat) as int } else { 0 }));
        if s == 0 { lemma_binom_zero(i as nat, (i + 1) as nat); }
        let a = (i + s + 1) as nat; let b = (i + 1) as nat;
        assert(binom(a, b) == binom((a - 1) as nat, b) + binom((a - 1) as nat, (b - 1) as nat));
    }
}
pub proof fn lemma_rank_ext(a: MI, b: MI, i: int, n: int)
    requires a.len() == b.len(), 0 <= i <= n <= a.len(), forall|j: int| i <= j < n ==> psum(a, j) == psum(b, j)
    ensures tri_rank_to(a, n) - tri_rank_to(a, i) == tri_rank_to(b, n) - tri_rank_to(b, i)
    decreases n
{ if n > i { lemma_rank_ext(a, b, i, n - 1); } }
pub proof fn lemma_rank_zero(m: MI, n: int)
    requires 0 <= n <= m.len(), forall|j: int| 0 <= j < n ==> psum(m, j) == 0 ensures tri_rank_to(m, n) == 0 decreases n
{ if n > 0 { lemma_rank_zero(m, n - 1); } }
pub proof fn lemma_tri_rank_step(m: MI, i: int, m2: MI)
    requires tri_step(m, i, m2) ensures tri_rank(m2) == tri_rank(m) + 1
{
    lemma_tri_step_ps(m, i, m2);
    lemma_hockey(m, i, m[0] as int);
    lemma_rank_zero(m2, i);
    let s = m[0] + 1;
    assert(psum(m2, i) == s);
    assert(tri_rank_to(m2, i + 1) == tri_rank_to(m2, i) + binom((i + s) as nat, (i + 1) as nat) as int);
    lemma_rank_ext(m, m2, i + 1, m.len() as int);
}
// the canonical successor
pub open spec fn tri_pos(m: MI, i: int) -> int decreases m.len() - i { if i + 1 >= m.len() || m[i + 1] != 0 { i } else { tri_pos(m, i + 1) } }
pub open spec fn tri_next(m: MI) -> MI {
    let i = tri_pos(m, 0);
    Seq::new(m.len(), |t: int| if t < i { 0u32 } else if t == i { (m[0] + 1) as u32 } else if t == i + 1 { (m[t] - 1) as u32 } else { m[t] })
}
pub proof fn lemma_tri_pos(m: MI, i: int)
    requires 0 <= i < m.len()
    ensures i <= tri_pos(m, i) < m.len(), forall|t: int| i < t <= tri_pos(m, i) ==> m[t] == 0, tri_pos(m, i) + 1 < m.len() ==> m[tri_pos(m, i) + 1] > 0
    decreases m.len() - i
{ if i + 1 >= m.len() || m[i + 1] != 0 { } else { lemma_tri_pos(m, i + 1); } }
pub proof fn lemma_tri_next_step(d: int, m: MI)
    requires m.len() >= 1, total(m) <= d, d < 0x1_0000_0000, !(m[0] as int == d && tri_pos(m, 0) == m.len() - 1)
    ensures tri_step(m, tri_pos(m, 0), tri_next(m)), is_succ(Kind::Triangle, d, m, tri_next(m))
{
    lemma_tri_pos(m, 0);
    let i = tri_pos(m, 0);
    lemma_le_total(m, 0);
    if i + 1 < m.len() {
        lemma_psum_mono(m, i + 1, m.len() - 1); lemma_psum_mono(m, 0, i);
        assert(psum(m, i + 1) == psum(m, i) + m[i + 1] as int); assert(psum(m, -1) == 0); assert(psum(m, 0) == m[0] as int);
        assert(m[0] + 1 <= d);
    }
    assert(m[0] < d);
    let m2 = tri_next(m);
    assert(tri_step(m, i, m2));
    lemma_tri_succ(d, m, i, m2);
}
pub proof fn lemma_tri_list_rank(dim: int, d: int, l: Seq<MI>, i: int)
    requires valid_list(Kind::Triangle, dim, d, l), dim >= 1, 0 <= d < 0x1_0000_0000, 0 <= i < l.len()
    ensures tri_rank(l[i]) == i
    decreases i
{
    let k = Kind::Triangle;
    if i == 0 { lemma_list_first(k, dim, d, l); lemma_zeros(k, dim, d); lemma_rank_zero(l[0], dim); }
    else {
        lemma_tri_list_rank(dim, d, l, i - 1);
        let m = l[i - 1]; assert(is_mi(k, dim, d, m)); assert(is_mi(k, dim, d, l[i])); assert(lt(k, m, l[i]));
        lemma_tri_pos(m, 0);
        if m[0] as int == d && tri_pos(m, 0) == m.len() - 1 {
            lemma_tri_last(d, m);
        } else {
            lemma_tri_next_step(d, m);
            lemma_list_step(k, dim, d, l, i - 1, tri_next(m));
            lemma_tri_rank_step(m, tri_pos(m, 0), tri_next(m));
        }
    }
}
pub proof fn lemma_tri_size(dim: int, d: int, l: Seq<MI>)
    requires valid_list(Kind::Triangle, dim, d, l), dim >= 1, 0 <= d < 0x1_0000_0000
    ensures l.len() == binom((d + dim) as nat, dim as nat)
{
    let k = Kind::Triangle;
    lemma_list_first(k, dim, d, l);
    let n = l.len() - 1;
    let m = l[n];
    assert(is_mi(k, dim, d, m));
    lemma_tri_pos(m, 0);
    if m[0] as int == d && tri_pos(m, 0) == m.len() - 1 {
        lemma_tri_list_rank(dim, d, l, n);
        assert forall|j: int| 0 <= j < dim implies psum(m, j) == d by { lemma_psum_zero(m, 0, j); assert(psum(m, -1) == 0); assert(psum(m, 0) == m[0] as int); }
        lemma_hockey(m, dim - 1, d);
    } else {
        lemma_tri_next_step(d, m);
        lemma_list_step(k, dim, d, l, n, tri_next(m));
    }
}

pub proof fn lemma_rank_mono(m: MI, i: int, n: int)
    requires 0 <= i <= n <= m.len() ensures 0 <= tri_rank_to(m, i) <= tri_rank_to(m, n) decreases n, i
{ if i < n { lemma_rank_mono(m, i, n - 1); } else if i > 0 { lemma_rank_mono(m, i - 1, i - 1); } }
// ---- sizes determine the dimension (degree >= 1)
pub open spec fn tri_dim(w: int, d: int, n: int) -> bool { 0 <= w && d + w < 0x4000_0000 && binom((d + w) as nat, w as nat) == n }
pub proof fn lemma_binom_pos(n: nat, k: nat) requires k <= n ensures binom(n, k) >= 1 decreases n { if k > 0 { lemma_binom_pos((n - 1) as nat, (k - 1) as nat); } }
pub proof fn lemma_binom_mono(d: nat, a: nat, b: nat) ensures a <= b ==> binom(d + a, a) <= binom(d + b, b) decreases b { if a < b { lemma_binom_mono(d, a, (b - 1) as nat); assert(binom(d + b, b) == binom((d + b - 1) as nat, b) + binom((d + b - 1) as nat, (b - 1) as nat)); } }
pub proof fn lemma_binom_strict(d: nat, a: nat, b: nat) requires d >= 1, a < b ensures binom(d + a, a) < binom(d + b, b) { lemma_binom_mono(d, a, (b - 1) as nat); lemma_binom_pos((d + b - 1) as nat, b); assert(binom(d + b, b) == binom((d + b - 1) as nat, b) + binom((d + b - 1) as nat, (b - 1) as nat)); }
pub proof fn lemma_tri_dim(w: int, d: int, n: int) requires tri_dim(w, d, n), d >= 0 ensures binom(d as nat, 0) == 1, forall|x: int| 0 <= x <= w ==> #[trigger] binom((d + x) as nat, x as nat) <= n { assert forall|x: int| 0 <= x <= w implies #[trigger] binom((d + x) as nat, x as nat) <= n by { lemma_binom_mono(d as nat, x as nat, w as nat); } }
