// ================================================================ orderings are consistent across degrees
// (every set but the non-consistent cross): the enumeration for degree d is a prefix of the one for any e >= d
pub open spec fn nested(k: Kind) -> bool { !(k is CrossNc) }
pub proof fn lemma_above(k: Kind, d: int, x: MI, y: MI)
    requires nested(k), x.len() == y.len(), x.len() >= 1, inset(k, d, x), !inset(k, d, y), d >= 0
    ensures lt(k, x, y)
{
    let n = x.len() as int;
    match k {
        Kind::Triangle => { assert(cx_at(ps(x), ps(y), n - 1)); }
        Kind::Cross => {
            let a = key(k, x); let b = key(k, y);
            assert(a[2 * n - 1] == pprod(x, n - 1)); assert(b[2 * n - 1] == pprod(y, n - 1));
            assert(cx_at(a, b, 2 * n - 1));
        }
        _ => { lemma_cr_inset(k, d, x); lemma_cr_inset(k, d, y); lemma_lt_cr(k, x, y); }
    }
}
pub proof fn lemma_prefix_to(k: Kind, dim: int, d: int, e: int, a: Seq<MI>, b: Seq<MI>, n: int)
    requires nested(k), dim >= 1, 0 <= d <= e, valid_list(k, dim, d, a), valid_list(k, dim, e, b), 0 <= n <= a.len()
    ensures n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    decreases n
{
    if n > 0 {
        lemma_prefix_to(k, dim, d, e, a, b, n - 1);
        let i = n - 1;
        assert(is_mi(k, dim, d, a[i])); lemma_inset_mono(k, d, e, a[i]); assert(is_mi(k, dim, e, a[i]));
        let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
        if j < i { assert(a[j] == b[j]); lemma_sorted_distinct(k, a, i, j); }
        if j > i {
            assert(lt(k, b[i], b[j])); assert(is_mi(k, dim, e, b[i]));
            if inset(k, d, b[i]) {
                assert(is_mi(k, dim, d, b[i]));
                let t = choose|t: int| 0 <= t < a.len() && a[t] == b[i];
                if t < i { assert(a[t] == b[t]); lemma_sorted_distinct(k, b, i, t); }
                if t == i { lemma_lt_irrefl(k, a[i]); }
                if t > i { assert(lt(k, a[i], a[t])); lemma_lt_trans(k, a[i], b[i], a[i]); lemma_lt_irrefl(k, a[i]); }
            } else { lemma_above(k, d, a[i], b[i]); lemma_lt_trans(k, a[i], b[i], a[i]); lemma_lt_irrefl(k, a[i]); }
        }
    }
}
pub proof fn lemma_prefix(k: Kind, dim: int, d: int, e: int, a: Seq<MI>, b: Seq<MI>)
    requires nested(k), dim >= 1, 0 <= d <= e, valid_list(k, dim, d, a), valid_list(k, dim, e, b)
    ensures a.len() <= b.len(), a == b.subrange(0, a.len() as int)
{ lemma_prefix_to(k, dim, d, e, a, b, a.len() as int); assert(a =~= b.subrange(0, a.len() as int)); }
