// ================================================================ boxes: how many multi-indices satisfy fac(i) * m[i] <= d
pub open spec fn side(k: Kind, d: int, i: int) -> int { d / fac(k, i) + 1 }
pub open spec fn boxn(k: Kind, d: int, n: int) -> int decreases n { if n <= 0 { 1 } else { boxn(k, d, n - 1) * side(k, d, n - 1) } }
// all m.push(x) with m in l and x < v, one after the other
pub open spec fn ext1(l: Seq<MI>, x: int) -> Seq<MI> { Seq::new(l.len(), |i: int| l[i].push(x as u32)) }
pub open spec fn ext(l: Seq<MI>, v: int) -> Seq<MI> decreases v { if v <= 0 { Seq::empty() } else { ext(l, v - 1) + ext1(l, v - 1) } }
pub open spec fn boxl(k: Kind, d: int, n: int) -> Seq<MI> decreases n { if n <= 0 { seq![Seq::<u32>::empty()] } else { ext(boxl(k, d, n - 1), side(k, d, n - 1)) } }
pub open spec fn nodup(l: Seq<MI>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> #[trigger] l[i] != #[trigger] l[j] }
pub proof fn lemma_ext1(l: Seq<MI>, x: int, n: int)
    requires nodup(l), 0 <= x < 0x1_0000_0000, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).len() == n
    ensures nodup(ext1(l, x)), ext1(l, x).len() == l.len(), forall|m: MI| #[trigger] ext1(l, x).contains(m) <==> m.len() == n + 1 && m[n] as int == x && l.contains(m.drop_last()),
{
    let r = ext1(l, x);
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by { assert(r[i].drop_last() =~= l[i]); assert(r[j].drop_last() =~= l[j]); assert(l[i] != l[j]); }
    assert forall|m: MI| #[trigger] r.contains(m) <==> m.len() == n + 1 && m[n] as int == x && l.contains(m.drop_last()) by {
        if r.contains(m) { let i = choose|i: int| 0 <= i < r.len() && r[i] == m; assert(m.drop_last() =~= l[i]); assert(l[i].len() == n); }
        if m.len() == n + 1 && m[n] as int == x && l.contains(m.drop_last()) { let i = choose|i: int| 0 <= i < l.len() && l[i] == m.drop_last(); assert(r[i] =~= m); }
    }
}
pub proof fn lemma_ext(l: Seq<MI>, v: int, n: int)
    requires nodup(l), 0 <= v <= 0x1_0000_0000, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).len() == n
    ensures nodup(ext(l, v)), ext(l, v).len() == l.len() * v, forall|m: MI| #[trigger] ext(l, v).contains(m) <==> m.len() == n + 1 && 0 <= (m[n] as int) < v && l.contains(m.drop_last()),
    decreases v
{
    if v > 0 {
        lemma_ext(l, v - 1, n); lemma_ext1(l, v - 1, n);
        let a = ext(l, v - 1); let b = ext1(l, v - 1); let r = a + b;
        assert(l.len() * (v - 1) + l.len() == l.len() * v) by (nonlinear_arith);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies #[trigger] r[i] != #[trigger] r[j] by {
            if j < a.len() { assert(a[i] != a[j]); } else if i >= a.len() { assert(b[i - a.len()] != b[j - a.len()]); }
            else { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
        }
        assert forall|m: MI| #[trigger] r.contains(m) <==> m.len() == n + 1 && 0 <= (m[n] as int) < v && l.contains(m.drop_last()) by {
            if r.contains(m) { let i = choose|i: int| 0 <= i < r.len() && r[i] == m; if i < a.len() { assert(a.contains(m)); } else { assert(b[i - a.len()] == m); assert(b.contains(m)); } }
            if m.len() == n + 1 && 0 <= (m[n] as int) < v && l.contains(m.drop_last()) {
                if (m[n] as int) < v - 1 { assert(a.contains(m)); let i = choose|i: int| 0 <= i < a.len() && a[i] == m; assert(r[i] == m); }
                else { assert(b.contains(m)); let i = choose|i: int| 0 <= i < b.len() && b[i] == m; assert(r[a.len() + i] == m); }
            }
        }
    }
}
pub open spec fn in_box(k: Kind, d: int, n: int, m: MI) -> bool { m.len() == n && forall|i: int| 0 <= i < n ==> fac(k, i) * (#[trigger] m[i] as int) <= d }
pub proof fn lemma_side(k: Kind, d: int, i: int, x: int) requires d >= 0, x >= 0 ensures fac(k, i) * x <= d <==> x < side(k, d, i)
{ if fac(k, i) == 2 { assert(2 * x <= d <==> x < d / 2 + 1); } else { assert(fac(k, i) == 1); assert(d / 1 == d); } }
pub proof fn lemma_boxl(k: Kind, d: int, n: int)
    requires n >= 0, 0 <= d < 0xffff_ffff
    ensures nodup(boxl(k, d, n)), boxl(k, d, n).len() == boxn(k, d, n), forall|m: MI| #[trigger] boxl(k, d, n).contains(m) <==> in_box(k, d, n, m), forall|i: int| 0 <= i < boxl(k, d, n).len() ==> (#[trigger] boxl(k, d, n)[i]).len() == n
    decreases n
{
    if n == 0 {
        let r = boxl(k, d, 0);
        assert forall|m: MI| #[trigger] r.contains(m) <==> in_box(k, d, 0, m) by { if m.len() == 0 { assert(m =~= Seq::<u32>::empty()); assert(r[0] == m); } }
    } else {
        lemma_boxl(k, d, n - 1);
        let l = boxl(k, d, n - 1); let v = side(k, d, n - 1);
        assert(0 <= v <= 0x1_0000_0000) by { assert(0 <= d / 2 <= d); assert(d / 1 == d); }
        lemma_ext(l, v, n - 1);
        let r = boxl(k, d, n);
        assert forall|m: MI| #[trigger] r.contains(m) <==> in_box(k, d, n, m) by {
            if m.len() == n {
                lemma_side(k, d, n - 1, m[n - 1] as int);
                let p = m.drop_last();
                if in_box(k, d, n, m) { assert forall|i: int| 0 <= i < n - 1 implies fac(k, i) * (#[trigger] p[i] as int) <= d by { assert(fac(k, i) * (m[i] as int) <= d); } assert(l.contains(p)); }
                if r.contains(m) { assert forall|i: int| 0 <= i < n implies fac(k, i) * (#[trigger] m[i] as int) <= d by { if i < n - 1 { assert(fac(k, i) * (p[i] as int) <= d); } } }
            }
        }
        assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).len() == n by { assert(r.contains(r[i])); }
    }
}
pub proof fn lemma_cr_size(k: Kind, dim: int, d: int, l: Seq<MI>)
    requires iscr(k), valid_list(k, dim, d, l), dim >= 1, 0 <= d < 0xffff_ffff
    ensures l.len() == boxn(k, d, dim)
{
    lemma_boxl(k, d, dim);
    let b = boxl(k, d, dim);
    assert forall|m: MI| l.contains(m) <==> b.contains(m) by {
        assert(in_box(k, d, dim, m) <==> is_mi(k, dim, d, m)) by {
            if k is Cube && m.len() == dim {
                if in_box(k, d, dim, m) { assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] as int <= d by { assert(fac(k, i) * (m[i] as int) <= d); } }
                if is_mi(k, dim, d, m) { assert forall|i: int| 0 <= i < dim implies fac(k, i) * (#[trigger] m[i] as int) <= d by { assert(m[i] as int <= d); } }
            }
        }
        if l.contains(m) { let i = choose|i: int| 0 <= i < l.len() && l[i] == m; assert(is_mi(k, dim, d, l[i])); }
    }
    assert(l.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() && i != j implies l[i] != l[j] by { if l[i] == l[j] { lemma_sorted_distinct(k, l, i, j); } } }
    assert(b.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if i < j { assert(b[i] != b[j]); } else { assert(b[j] != b[i]); } } }
    l.unique_seq_to_set(); b.unique_seq_to_set();
    assert(l.to_set() =~= b.to_set());
}
pub proof fn lemma_boxn_pow(d: int, n: int)
    requires n >= 0, d >= 0 ensures boxn(Kind::Cube, d, n) == npow(d + 1, n as nat) decreases n
{ if n > 0 { lemma_boxn_pow(d, n - 1); assert(side(Kind::Cube, d, n - 1) == d + 1) by { assert(d / 1 == d); } assert(npow(d + 1, n as nat) == (d + 1) * npow(d + 1, (n - 1) as nat)); assert(boxn(Kind::Cube, d, n) == boxn(Kind::Cube, d, n - 1) * (d + 1)); assert(npow(d + 1, (n - 1) as nat) * (d + 1) == (d + 1) * npow(d + 1, (n - 1) as nat)) by (nonlinear_arith); } }
pub proof fn lemma_boxn_mono(k: Kind, d: int, i: int, n: int)
    requires 0 <= i <= n, d >= 0 ensures 1 <= boxn(k, d, i) <= boxn(k, d, n) decreases n, i
{
    if i < n {
        lemma_boxn_mono(k, d, i, n - 1);
        let s = side(k, d, n - 1); assert(s >= 1) by { assert(d / 2 >= 0); assert(d / 1 == d); }
        assert(boxn(k, d, n - 1) * s >= boxn(k, d, n - 1)) by (nonlinear_arith) requires s >= 1, boxn(k, d, n - 1) >= 1;
    } else if i > 0 { lemma_boxn_mono(k, d, i - 1, i - 1); let s = side(k, d, i - 1); assert(s >= 1) by { assert(d / 2 >= 0); assert(d / 1 == d); }
        assert(boxn(k, d, i - 1) * s >= 1) by (nonlinear_arith) requires s >= 1, boxn(k, d, i - 1) >= 1; }
}
