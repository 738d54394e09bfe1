// ================================================================ index sets, enumeration orders
pub enum Kind { Triangle, Cube, Cross, CrossNc, Rectangle }
// an arbitrary but fixed index set: template functions are proved once, for ABS
pub uninterp spec fn ABS() -> Kind;
pub type MI = Seq<u32>;

pub open spec fn psum(m: MI, k: int) -> int decreases k + 1 { if k < 0 || k >= m.len() { 0 } else { psum(m, k - 1) + m[k] as int } }
pub open spec fn total(m: MI) -> int { psum(m, m.len() - 1) }
pub open spec fn mx1(x: u32) -> int { if x >= 1 { x as int } else { 1 } }
pub open spec fn pprod(m: MI, k: int) -> int decreases k + 1 { if k < 0 || k >= m.len() { 1 } else { pprod(m, k - 1) * mx1(m[k]) } }
pub open spec fn prod1(m: MI) -> int { pprod(m, m.len() - 1) }
pub open spec fn fac(k: Kind, i: int) -> int { if k is Rectangle && i != 0 { 2 } else { 1 } }
pub open spec fn max1(d: int) -> int { if d >= 1 { d } else { 1 } }

// membership: what the five index sets are (dimension = m.len())
pub open spec fn inset(k: Kind, d: int, m: MI) -> bool {
    match k {
        Kind::Triangle => total(m) <= d,
        Kind::Cube => forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] as int <= d,
        Kind::Rectangle => forall|i: int| 0 <= i < m.len() ==> fac(k, i) * (#[trigger] m[i] as int) <= d,
        Kind::Cross => prod1(m) <= max1(d),
        Kind::CrossNc => prod1(m) <= max1(d),
    }
}

// ---- orders: each set is enumerated in colexicographic order of a key
pub open spec fn cx_at(a: Seq<int>, b: Seq<int>, k: int) -> bool { 0 <= k < a.len() && a[k] < b[k] && forall|j: int| k < j < a.len() ==> a[j] == b[j] }
pub open spec fn cx(a: Seq<int>, b: Seq<int>) -> bool { exists|k: int| cx_at(a, b, k) }
pub open spec fn ms(m: MI) -> Seq<int> { Seq::new(m.len(), |i: int| m[i] as int) }
pub open spec fn ps(m: MI) -> Seq<int> { Seq::new(m.len(), |i: int| psum(m, i)) }
pub open spec fn pp(m: MI) -> Seq<int> { Seq::new(m.len(), |i: int| pprod(m, i)) }
// weighted maximum and the last direction attaining it
pub open spec fn wgt(k: Kind, m: MI, i: int) -> int { fac(k, i) * (m[i] as int) }
pub open spec fn wmax_to(k: Kind, m: MI, n: int) -> int decreases n { if n <= 0 { 0 } else if wgt(k, m, n - 1) >= wmax_to(k, m, n - 1) { wgt(k, m, n - 1) } else { wmax_to(k, m, n - 1) } }
pub open spec fn wind_to(k: Kind, m: MI, n: int) -> int decreases n { if n <= 0 { 0 } else if wgt(k, m, n - 1) >= wmax_to(k, m, n - 1) { n - 1 } else { wind_to(k, m, n - 1) } }
pub open spec fn wmax(k: Kind, m: MI) -> int { wmax_to(k, m, m.len() as int) }
pub open spec fn wind(k: Kind, m: MI) -> int { wind_to(k, m, m.len() as int) }
// triangle, non-consistent cross: partial sums.  cube, rectangle: (weighted maximum, its last position, entries).
// consistent cross: partial products of max(1, m_i), then the entries.
pub open spec fn key(k: Kind, m: MI) -> Seq<int> {
    match k {
        Kind::Triangle | Kind::CrossNc => ps(m),
        Kind::Cube | Kind::Rectangle => ms(m).push(wind(k, m)).push(wmax(k, m)),
        Kind::Cross => ms(m) + pp(m),
    }
}
pub open spec fn lt(k: Kind, a: MI, b: MI) -> bool { cx(key(k, a), key(k, b)) }
// b is the immediate successor of a in the set / a is the last element of the set
pub open spec fn is_succ(k: Kind, d: int, a: MI, b: MI) -> bool {
    b.len() == a.len() && inset(k, d, b) && lt(k, a, b) && forall|y: MI| y.len() == a.len() && inset(k, d, y) && lt(k, a, y) ==> y == b || #[trigger] lt(k, b, y)
}
pub open spec fn is_last(k: Kind, d: int, a: MI) -> bool { forall|y: MI| y.len() == a.len() && inset(k, d, y) ==> !#[trigger] lt(k, a, y) }

// ---- the enumeration: the elements of the set, each once, in increasing order
pub open spec fn is_mi(k: Kind, dim: int, d: int, m: MI) -> bool { m.len() == dim && inset(k, d, m) }
pub open spec fn sorted(k: Kind, l: Seq<MI>) -> bool { forall|i: int, j: int| 0 <= i < j < l.len() ==> lt(k, #[trigger] l[i], #[trigger] l[j]) }
pub open spec fn valid_list(k: Kind, dim: int, d: int, l: Seq<MI>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> is_mi(k, dim, d, #[trigger] l[i])
    &&& sorted(k, l)
    &&& forall|m: MI| #[trigger] is_mi(k, dim, d, m) ==> l.contains(m)
}
pub open spec fn zeros(n: int) -> MI { Seq::new(n as nat, |i: int| 0u32) }
pub open spec fn lv(l: Seq<Vec<u32>>) -> Seq<MI> { Seq::new(l.len(), |i: int| l[i]@) }

// ---- string key of a multi-index
pub open spec fn hp_to(m: MI, n: int) -> Seq<u8> decreases n { if n <= 0 { Seq::empty() } else { hp_to(m, n - 1) + (digits(m[n - 1] as nat) + seq![45u8]) } }
pub open spec fn hp(m: MI) -> Seq<u8> { hp_to(m, m.len() as int) }
pub open spec fn ht_ok(t: Map<Seq<u8>, u32>, l: Seq<MI>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> t.dom().contains(hp(#[trigger] l[i])) && t[hp(l[i])] as int == i
    &&& forall|s: Seq<u8>| #[trigger] t.dom().contains(s) ==> exists|i: int| 0 <= i < l.len() && hp(#[trigger] l[i]) == s
}
// representation invariant of a multi-index iterator object
pub open spec fn iter_ok(k: Kind, dim: int, d: int, it: MIter) -> bool {
    &&& it.dim as int == dim
    &&& valid_list(k, dim, d, lv(it.list@))
    &&& 0 < it.list@.len() < 0x1_0000_0000
    &&& ht_ok(it.hash_table@, lv(it.list@))
    &&& it.list@[0]@ == zeros(dim)
    &&& it.index_list < it.list@.len()
    &&& it.multi_index@ == it.list@[it.index_list as int]@
}
// admissible (dimension, degree): within these, no machine operation of the enumeration wraps
pub open spec fn okp(k: Kind, dim: int, d: int) -> bool {
    &&& 1 <= dim && 0 <= d && d + dim < 0x4000_0000
    &&& (k is Cross ==> d >= 1)
    &&& (k is CrossNc ==> npow(max1(d) + dim - 1, dim as nat) < 0x1_0000_0000)
}
// the hyperbolic crosses of degree 0 and 1 coincide: their degree is taken to be 1
pub open spec fn okd(k: Kind, dim: int, d: int) -> bool { okp(k, dim, d) && d <= 250 && dim < 0x3000_0000 && (k is CrossNc ==> d >= 1) }
// everything but the cursor
pub open spec fn same_set(a: MIter, b: MIter) -> bool { a.dim == b.dim && a.list == b.list && a.hash_table == b.hash_table && a.degree == b.degree }

pub proof fn lemma_lv(l: Seq<Vec<u32>>, i: int) requires 0 <= i < l.len() ensures lv(l)[i] == l[i]@ {}
