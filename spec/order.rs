// ================================================================ order facts shared by every index set
pub proof fn lemma_cx_irrefl(a: Seq<int>) ensures !cx(a, a) { }
pub proof fn lemma_cx_trans(a: Seq<int>, b: Seq<int>, c: Seq<int>)
    requires cx(a, b), cx(b, c), a.len() == b.len(), b.len() == c.len() ensures cx(a, c)
{
    let i = choose|i: int| cx_at(a, b, i); let j = choose|j: int| cx_at(b, c, j);
    let k = if i >= j { i } else { j };
    assert(cx_at(a, c, k));
}
pub proof fn lemma_cx_total(a: Seq<int>, b: Seq<int>)
    requires a.len() == b.len() ensures a == b || cx(a, b) || cx(b, a)
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= b); }
    else {
        let n = a.len() - 1;
        if a[n] < b[n] { assert(cx_at(a, b, n)); }
        else if b[n] < a[n] { assert(cx_at(b, a, n)); }
        else {
            let a1 = a.drop_last(); let b1 = b.drop_last();
            lemma_cx_total(a1, b1);
            if a1 == b1 {
                assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i < n { assert(a1[i] == b1[i]); } }
                assert(a =~= b);
            }
            else if cx(a1, b1) { let k = choose|k: int| cx_at(a1, b1, k);
                assert forall|j: int| k < j < a.len() implies a[j] == b[j] by { if j < n { assert(a1[j] == b1[j]); } }
                assert(cx_at(a, b, k)); }
            else { let k = choose|k: int| cx_at(b1, a1, k);
                assert forall|j: int| k < j < a.len() implies a[j] == b[j] by { if j < n { assert(a1[j] == b1[j]); } }
                assert(cx_at(b, a, k)); }
        }
    }
}
pub proof fn lemma_key_len(k: Kind, a: MI, b: MI) requires a.len() == b.len() ensures key(k, a).len() == key(k, b).len() { }
pub proof fn lemma_ps_inj(a: MI, b: MI) requires a.len() == b.len(), ps(a) == ps(b) ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert(ps(a)[i] == psum(a, i)); assert(ps(b)[i] == psum(b, i));
        assert(psum(a, i) == psum(a, i - 1) + a[i] as int); assert(psum(b, i) == psum(b, i - 1) + b[i] as int);
        if i > 0 { assert(ps(a)[i - 1] == psum(a, i - 1)); assert(ps(b)[i - 1] == psum(b, i - 1)); }
        else { assert(psum(a, i - 1) == 0); assert(psum(b, i - 1) == 0); }
    }
    assert(a =~= b);
}
pub proof fn lemma_key_inj(k: Kind, a: MI, b: MI) requires a.len() == b.len(), key(k, a) == key(k, b) ensures a == b
{
    match k {
        Kind::Triangle | Kind::CrossNc => { lemma_ps_inj(a, b); }
        _ => {
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
                assert(key(k, a)[i] == key(k, b)[i]); assert(key(k, a)[i] == ms(a)[i]); assert(key(k, b)[i] == ms(b)[i]);
            }
            assert(a =~= b);
        }
    }
}
pub proof fn lemma_lt_irrefl(k: Kind, a: MI) ensures !lt(k, a, a) { }
pub proof fn lemma_lt_trans(k: Kind, a: MI, b: MI, c: MI)
    requires lt(k, a, b), lt(k, b, c), a.len() == b.len(), b.len() == c.len() ensures lt(k, a, c)
{ lemma_key_len(k, a, b); lemma_key_len(k, b, c); lemma_cx_trans(key(k, a), key(k, b), key(k, c)); }
pub proof fn lemma_lt_total(k: Kind, a: MI, b: MI)
    requires a.len() == b.len() ensures a == b || lt(k, a, b) || lt(k, b, a)
{ lemma_key_len(k, a, b); lemma_cx_total(key(k, a), key(k, b)); if key(k, a) == key(k, b) { lemma_key_inj(k, a, b); } }

pub proof fn lemma_psum_mono(m: MI, i: int, j: int)
    requires -1 <= i <= j < m.len() ensures 0 <= psum(m, i) <= psum(m, j) decreases j + 1, i + 1
{ if i < j { lemma_psum_mono(m, i, j - 1); } else if i >= 0 { lemma_psum_mono(m, i - 1, i - 1); } }
pub proof fn lemma_pprod_mono(m: MI, i: int, j: int)
    requires -1 <= i <= j < m.len() ensures 1 <= pprod(m, i) <= pprod(m, j) decreases j + 1, i + 1
{
    if i < j { lemma_pprod_mono(m, i, j - 1); assert(pprod(m, j) == pprod(m, j - 1) * mx1(m[j])); assert(pprod(m, j) >= pprod(m, j - 1)) by (nonlinear_arith) requires pprod(m, j) == pprod(m, j - 1) * mx1(m[j]), mx1(m[j]) >= 1, pprod(m, j - 1) >= 1; }
    else if i >= 0 { lemma_pprod_mono(m, i - 1, i - 1); assert(pprod(m, i) == pprod(m, i - 1) * mx1(m[i])); assert(pprod(m, i) >= 1) by (nonlinear_arith) requires pprod(m, i) == pprod(m, i - 1) * mx1(m[i]), mx1(m[i]) >= 1, pprod(m, i - 1) >= 1; }
}
// zeros is the first element of every set
pub proof fn lemma_wmax_ge(k: Kind, m: MI, n: int)
    requires 0 <= n <= m.len()
    ensures wmax_to(k, m, n) >= 0, forall|i: int| 0 <= i < n ==> #[trigger] wgt(k, m, i) <= wmax_to(k, m, n),
        n > 0 ==> 0 <= wind_to(k, m, n) < n && wgt(k, m, wind_to(k, m, n)) == wmax_to(k, m, n),
        n == 0 ==> wind_to(k, m, n) == 0,
        forall|i: int| wind_to(k, m, n) < i < n ==> #[trigger] wgt(k, m, i) < wmax_to(k, m, n),
    decreases n
{ if n > 0 { lemma_wmax_ge(k, m, n - 1); assert(wgt(k, m, n - 1) >= 0); } }
pub proof fn lemma_zeros(k: Kind, dim: int, d: int)
    requires dim >= 0, d >= 0
    ensures is_mi(k, dim, d, zeros(dim)), forall|i: int| psum(zeros(dim), i) == 0, forall|i: int| pprod(zeros(dim), i) == 1
{
    let z = zeros(dim);
    assert forall|i: int| psum(z, i) == 0 by { lemma_z_psum(dim, i); }
    assert forall|i: int| pprod(z, i) == 1 by { lemma_z_pprod(dim, i); }
}
pub proof fn lemma_z_psum(dim: int, i: int) requires dim >= 0 ensures psum(zeros(dim), i) == 0 decreases i + 1 { if 0 <= i < dim { lemma_z_psum(dim, i - 1); } }
pub proof fn lemma_z_pprod(dim: int, i: int) requires dim >= 0 ensures pprod(zeros(dim), i) == 1 decreases i + 1 { if 0 <= i < dim { lemma_z_pprod(dim, i - 1); } }
// componentwise smaller-or-equal key
pub proof fn lemma_cx_le(a: Seq<int>, b: Seq<int>) requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] <= b[i] ensures a == b || cx(a, b)
{ lemma_cx_total(a, b); }
pub proof fn lemma_zeros_min(k: Kind, m: MI)
    ensures m == zeros(m.len() as int) || lt(k, zeros(m.len() as int), m)
{
    let n = m.len() as int; let z = zeros(n);
    lemma_zeros(k, n, 0);
    lemma_key_len(k, z, m);
    match k {
        Kind::Triangle | Kind::CrossNc => {
            assert forall|i: int| 0 <= i < n implies key(k, z)[i] <= key(k, m)[i] by { lemma_psum_mono(m, i, i); }
            lemma_cx_le(key(k, z), key(k, m));
        }
        Kind::Cross => {
            assert forall|i: int| 0 <= i < 2 * n implies key(k, z)[i] <= key(k, m)[i] by {
                if i < n { assert(key(k, z)[i] == 0); assert(key(k, m)[i] == m[i] as int); }
                else { lemma_pprod_mono(m, i - n, i - n); assert(key(k, z)[i] == pprod(z, i - n)); assert(key(k, m)[i] == pprod(m, i - n)); }
            }
            lemma_cx_le(key(k, z), key(k, m));
        }
        _ => {
            lemma_wmax_ge(k, m, n); lemma_wmax_ge(k, z, n);
            let a = key(k, z); let b = key(k, m);
            assert forall|i: int| 0 <= i < n implies a[i] <= b[i] by { assert(a[i] == 0); assert(b[i] == m[i] as int); }
            assert(a[n] == wind(k, z)); assert(a[n + 1] == wmax(k, z)); assert(b[n] == wind(k, m)); assert(b[n + 1] == wmax(k, m));
            assert(wmax(k, z) == 0) by { if n > 0 { assert(wgt(k, z, wind(k, z)) == 0) by (nonlinear_arith) requires wgt(k, z, wind(k, z)) == fac(k, wind(k, z)) * 0 {} } }
            if wmax(k, m) > 0 { assert(cx_at(a, b, n + 1)); }
            else {
                assert forall|i: int| 0 <= i < n implies m[i] == 0 by {
                    assert(wgt(k, m, i) <= 0);
                    assert(m[i] == 0) by (nonlinear_arith) requires fac(k, i) * (m[i] as int) <= 0, fac(k, i) >= 1, m[i] >= 0;
                }
                assert(m =~= z);
            }
        }
    }
    if key(k, z) == key(k, m) { lemma_key_inj(k, z, m); }
}

// ---- sorted covering lists are unique
pub proof fn lemma_sorted_distinct(k: Kind, l: Seq<MI>, i: int, j: int)
    requires sorted(k, l), 0 <= i < l.len(), 0 <= j < l.len(), l[i] == l[j] ensures i == j
{ if i < j { lemma_lt_irrefl(k, l[i]); } else if j < i { lemma_lt_irrefl(k, l[i]); } }
pub proof fn lemma_list_prefix(k: Kind, dim: int, d: int, l1: Seq<MI>, l2: Seq<MI>, n: int)
    requires valid_list(k, dim, d, l1), valid_list(k, dim, d, l2), 0 <= n <= l1.len(), n <= l2.len()
    ensures forall|i: int| 0 <= i < n ==> l1[i] == l2[i]
    decreases n
{
    if n > 0 {
        lemma_list_prefix(k, dim, d, l1, l2, n - 1);
        let i = n - 1;
        assert(is_mi(k, dim, d, l1[i])); assert(is_mi(k, dim, d, l2[i]));
        let j = choose|j: int| 0 <= j < l2.len() && l2[j] == l1[i];
        let jj = choose|j: int| 0 <= j < l1.len() && l1[j] == l2[i];
        if j < i { assert(l1[j] == l2[j]); lemma_sorted_distinct(k, l1, i, j); }
        if jj < i { assert(l1[jj] == l2[jj]); lemma_sorted_distinct(k, l2, i, jj); }
        if j > i && jj > i {
            assert(lt(k, l2[i], l2[j])); assert(lt(k, l1[i], l1[jj]));
            lemma_lt_trans(k, l1[i], l2[i], l1[i]); lemma_lt_irrefl(k, l1[i]);
        }
    }
}
pub proof fn lemma_list_unique(k: Kind, dim: int, d: int, l1: Seq<MI>, l2: Seq<MI>)
    requires valid_list(k, dim, d, l1), valid_list(k, dim, d, l2)
    ensures l1 == l2
{
    let n = if l1.len() <= l2.len() { l1.len() as int } else { l2.len() as int };
    lemma_list_prefix(k, dim, d, l1, l2, n);
    if l1.len() < l2.len() {
        let m = l2[n]; assert(is_mi(k, dim, d, m)); let j = choose|j: int| 0 <= j < l1.len() && l1[j] == m;
        assert(l2[j] == m); lemma_sorted_distinct(k, l2, j, n);
    }
    if l2.len() < l1.len() {
        let m = l1[n]; assert(is_mi(k, dim, d, m)); let j = choose|j: int| 0 <= j < l2.len() && l2[j] == m;
        assert(l1[j] == m); lemma_sorted_distinct(k, l1, j, n);
    }
    assert(l1 =~= l2);
}
// consecutive entries are immediate successors
pub proof fn lemma_list_step(k: Kind, dim: int, d: int, l: Seq<MI>, i: int, b: MI)
    requires valid_list(k, dim, d, l), 0 <= i < l.len(), is_succ(k, d, l[i], b)
    ensures i + 1 < l.len(), l[i + 1] == b
{
    assert(is_mi(k, dim, d, l[i]));
    assert(is_mi(k, dim, d, b));
    let j = choose|j: int| 0 <= j < l.len() && l[j] == b;
    if j == i { lemma_lt_irrefl(k, b); }
    if j < i { assert(lt(k, l[j], l[i])); lemma_lt_trans(k, b, l[i], b); lemma_lt_irrefl(k, b); }
    if j > i + 1 {
        let c = l[i + 1]; assert(is_mi(k, dim, d, c));
        assert(lt(k, l[i], c)); assert(lt(k, c, l[j]));
        assert(c == b || lt(k, b, c));
        if c == b { lemma_lt_irrefl(k, b); } else { lemma_lt_trans(k, b, c, b); lemma_lt_irrefl(k, b); }
    }
}
pub proof fn lemma_list_first(k: Kind, dim: int, d: int, l: Seq<MI>)
    requires valid_list(k, dim, d, l), dim >= 0, d >= 0
    ensures l.len() > 0, l[0] == zeros(dim)
{
    lemma_zeros(k, dim, d);
    let z = zeros(dim);
    assert(is_mi(k, dim, d, z));
    let j = choose|j: int| 0 <= j < l.len() && l[j] == z;
    if j > 0 {
        assert(is_mi(k, dim, d, l[0])); assert(lt(k, l[0], z));
        lemma_zeros_min(k, l[0]);
        if l[0] == z { lemma_lt_irrefl(k, z); } else { lemma_lt_trans(k, z, l[0], z); lemma_lt_irrefl(k, z); }
    }
}
// ---- one step of the enumeration loop
pub open spec fn covers_upto(k: Kind, dim: int, d: int, l: Seq<MI>, m: MI) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> is_mi(k, dim, d, #[trigger] l[i]) && lt(k, l[i], m)
    &&& sorted(k, l)
    &&& forall|y: MI| #[trigger] is_mi(k, dim, d, y) ==> l.contains(y) || y == m || lt(k, m, y)
    &&& is_mi(k, dim, d, m)
}
pub proof fn lemma_cover_init(k: Kind, dim: int, d: int)
    requires dim >= 0, d >= 0
    ensures covers_upto(k, dim, d, Seq::<MI>::empty(), zeros(dim))
{
    lemma_zeros(k, dim, d);
    assert forall|y: MI| #[trigger] is_mi(k, dim, d, y) implies y == zeros(dim) || lt(k, zeros(dim), y) by { lemma_zeros_min(k, y); }
}
pub proof fn lemma_cover_push(k: Kind, dim: int, d: int, l: Seq<MI>, m: MI)
    requires covers_upto(k, dim, d, l, m)
    ensures sorted(k, l.push(m)), !l.contains(m), forall|i: int| 0 <= i < l.push(m).len() ==> is_mi(k, dim, d, #[trigger] l.push(m)[i])
{
    if l.contains(m) { let j = choose|j: int| 0 <= j < l.len() && l[j] == m; lemma_lt_irrefl(k, m); }
}
pub proof fn lemma_cover_step(k: Kind, dim: int, d: int, l: Seq<MI>, m: MI, m2: MI)
    requires covers_upto(k, dim, d, l, m), is_succ(k, d, m, m2)
    ensures covers_upto(k, dim, d, l.push(m), m2)
{
    lemma_cover_push(k, dim, d, l, m);
    let l2 = l.push(m);
    assert forall|i: int| 0 <= i < l2.len() implies is_mi(k, dim, d, #[trigger] l2[i]) && lt(k, l2[i], m2) by {
        if i < l.len() { assert(lt(k, l[i], m)); lemma_lt_trans(k, l[i], m, m2); }
    }
    assert forall|y: MI| #[trigger] is_mi(k, dim, d, y) implies l2.contains(y) || y == m2 || lt(k, m2, y) by {
        if l.contains(y) { let j = choose|j: int| 0 <= j < l.len() && l[j] == y; assert(l2[j] == y); }
        else if y == m { assert(l2[l.len() as int] == y); }
        else { assert(lt(k, m, y)); }
    }
}
pub proof fn lemma_cover_last(k: Kind, dim: int, d: int, l: Seq<MI>, m: MI)
    requires covers_upto(k, dim, d, l, m), is_last(k, d, m)
    ensures valid_list(k, dim, d, l.push(m))
{
    lemma_cover_push(k, dim, d, l, m);
    let l2 = l.push(m);
    assert forall|y: MI| #[trigger] is_mi(k, dim, d, y) implies l2.contains(y) by {
        if l.contains(y) { let j = choose|j: int| 0 <= j < l.len() && l[j] == y; assert(l2[j] == y); }
        else if y == m { assert(l2[l.len() as int] == y); }
        else { assert(lt(k, m, y)); }
    }
}

// ---- sizes and degrees
pub open spec fn size_is(k: Kind, dim: int, d: int, n: int) -> bool { okp(k, dim, d) ==> forall|l: Seq<MI>| #[trigger] valid_list(k, dim, d, l) && l.len() < 0x1_0000_0000 ==> n == l.len() }
// the sublist of a valid list that lies in a smaller set
pub open spec fn sub(k: Kind, d: int, l: Seq<MI>) -> Seq<MI> decreases l.len() {
    if l.len() == 0 { l } else if inset(k, d, l.last()) { sub(k, d, l.drop_last()).push(l.last()) } else { sub(k, d, l.drop_last()) }
}
pub proof fn lemma_sub(k: Kind, d: int, l: Seq<MI>)
    requires sorted(k, l)
    ensures sub(k, d, l).len() <= l.len(), forall|m: MI| #[trigger] sub(k, d, l).contains(m) <==> l.contains(m) && inset(k, d, m), sorted(k, sub(k, d, l)),
        (exists|i: int| 0 <= i < l.len() && !inset(k, d, #[trigger] l[i])) ==> sub(k, d, l).len() < l.len()
    decreases l.len()
{
    if l.len() > 0 {
        let p = l.drop_last(); let x = l.last(); let s = sub(k, d, p); let r = sub(k, d, l);
        assert(sorted(k, p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies lt(k, #[trigger] p[i], #[trigger] p[j]) by { assert(p[i] == l[i]); assert(p[j] == l[j]); } }
        lemma_sub(k, d, p);
        assert forall|m: MI| #[trigger] r.contains(m) <==> l.contains(m) && inset(k, d, m) by {
            if l.contains(m) { let i = choose|i: int| 0 <= i < l.len() && l[i] == m; if i < p.len() { assert(p[i] == m); assert(p.contains(m)); } else { assert(m == x); } }
            if p.contains(m) { let i = choose|i: int| 0 <= i < p.len() && p[i] == m; assert(l[i] == m); assert(l.contains(m)); }
            assert(l[l.len() - 1] == x); assert(l.contains(x));
            if inset(k, d, x) {
                if r.contains(m) { let i = choose|i: int| 0 <= i < r.len() && r[i] == m; if i < s.len() { assert(s[i] == m); assert(s.contains(m)); } }
                if s.contains(m) { let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(r[i] == m); }
                assert(r[s.len() as int] == x);
            }
        }
        if inset(k, d, x) {
            assert forall|i: int, j: int| 0 <= i < j < r.len() implies lt(k, #[trigger] r[i], #[trigger] r[j]) by {
                if j < s.len() { assert(r[i] == s[i]); assert(r[j] == s[j]); }
                else { assert(r[i] == s[i]); assert(s.contains(s[i])); let t = choose|t: int| 0 <= t < p.len() && p[t] == s[i]; assert(p[t] == l[t]); assert(lt(k, l[t], l[l.len() - 1])); }
            }
        }
        if exists|i: int| 0 <= i < l.len() && !inset(k, d, #[trigger] l[i]) {
            let i = choose|i: int| 0 <= i < l.len() && !inset(k, d, #[trigger] l[i]);
            if i < p.len() { assert(p[i] == l[i]); }
        }
    }
}
pub open spec fn hits<F: Fn(u32) -> u32>(f: F, t: u32, image: u32) -> bool { (forall|x: u32| x <= t ==> f.requires((x,))) && (forall|x: u32, y: u32| x <= t && f.ensures((x,), y) ==> y <= image) && (forall|y: u32| f.ensures((t,), y) ==> y == image) }
// (d, 0, ..., 0)
pub open spec fn corner(dim: int, d: int) -> MI { Seq::new(dim as nat, |i: int| if i == 0 { d as u32 } else { 0u32 }) }
pub proof fn lemma_corner(k: Kind, dim: int, d: int)
    requires dim >= 1, 0 <= d < 0x1_0000_0000
    ensures is_mi(k, dim, d, corner(dim, d)), forall|e: int| 0 <= e < d && (k is Cross || k is CrossNc ==> e >= 1) ==> !inset(k, e, corner(dim, d))
{
    let c = corner(dim, d);
    lemma_c_psum(dim, d, dim - 1); lemma_c_pprod(dim, d, dim - 1);
    assert forall|e: int| 0 <= e < d && (k is Cross || k is CrossNc ==> e >= 1) implies !inset(k, e, c) by {
        assert(c[0] as int == d);
        assert(fac(k, 0) * (c[0] as int) == d) by (nonlinear_arith) requires fac(k, 0) == 1, c[0] as int == d;
    }
    assert forall|i: int| 0 <= i < c.len() implies fac(k, i) * (#[trigger] c[i] as int) <= d by {
        assert(fac(k, i) * (c[i] as int) <= d) by (nonlinear_arith) requires i == 0 ==> fac(k, i) == 1 && c[i] as int == d, i != 0 ==> c[i] == 0, d >= 0;
    }
}
pub proof fn lemma_c_psum(dim: int, d: int, i: int) requires 0 <= i < dim, 0 <= d < 0x1_0000_0000 ensures psum(corner(dim, d), i) == d decreases i
{ assert(psum(corner(dim, d), -1) == 0); if i > 0 { lemma_c_psum(dim, d, i - 1); } }
pub proof fn lemma_c_pprod(dim: int, d: int, i: int) requires 0 <= i < dim, 0 <= d < 0x1_0000_0000 ensures pprod(corner(dim, d), i) == max1(d) decreases i
{ assert(pprod(corner(dim, d), -1) == 1); if i > 0 { lemma_c_pprod(dim, d, i - 1); } }
pub proof fn lemma_npow_mono(a: int, b: int, e: nat) requires 1 <= a <= b ensures 1 <= npow(a, e) <= npow(b, e) decreases e
{ if e > 0 { let f = (e - 1) as nat; lemma_npow_mono(a, b, f); assert(1 <= a * npow(a, f) <= b * npow(b, f)) by (nonlinear_arith) requires 1 <= a <= b, 1 <= npow(a, f) <= npow(b, f); } }
pub proof fn lemma_okp_mono(k: Kind, dim: int, d: int, e: int) requires okp(k, dim, e), 0 <= d <= e, k is Cross ==> d >= 1 ensures okp(k, dim, d)
{ if k is CrossNc { lemma_npow_mono(max1(d) + dim - 1, max1(e) + dim - 1, dim as nat); } }
pub proof fn lemma_inset_mono(k: Kind, d: int, e: int, m: MI) requires inset(k, d, m), d <= e ensures inset(k, e, m) { }
pub proof fn lemma_sub_valid(k: Kind, dim: int, d: int, r: int, l: Seq<MI>)
    requires valid_list(k, dim, d, l), r <= d ensures valid_list(k, dim, r, sub(k, r, l)), sub(k, r, l).len() <= l.len()
{
    lemma_sub(k, r, l);
    let s = sub(k, r, l);
    assert forall|i: int| 0 <= i < s.len() implies is_mi(k, dim, r, #[trigger] s[i]) by { assert(s.contains(s[i])); let j = choose|j: int| 0 <= j < l.len() && l[j] == s[i]; assert(is_mi(k, dim, d, l[j])); }
    assert forall|m: MI| #[trigger] is_mi(k, dim, r, m) implies s.contains(m) by { lemma_inset_mono(k, r, d, m); assert(is_mi(k, dim, d, m)); }
}
pub proof fn lemma_size_le(k: Kind, dim: int, d: int, l: Seq<MI>, x: int, n: int)
    requires valid_list(k, dim, d, l), l.len() < 0x1_0000_0000, okp(k, dim, x), x <= d, size_is(k, dim, x, n)
    ensures n <= l.len()
{ lemma_sub_valid(k, dim, d, x, l); }
// no smaller degree has the same number of elements
pub proof fn lemma_get_degree(k: Kind, dim: int, d: int, l: Seq<MI>, r: int)
    requires valid_list(k, dim, d, l), l.len() < 0x1_0000_0000, okp(k, dim, d), 0 <= r, k is Cross || k is CrossNc ==> r >= 1, size_is(k, dim, r, l.len() as int)
    ensures r >= d
{
    if r < d {
        lemma_okp_mono(k, dim, r, d); lemma_sub(k, r, l); lemma_corner(k, dim, d);
        let s = sub(k, r, l);
        assert(l.contains(corner(dim, d)));
        lemma_sub_valid(k, dim, d, r, l);
    }
}
