// finest common coarsening of two partitions
pub open spec fn djf(s: Set<Set<int>>) -> bool { forall|a: Set<int>, b: Set<int>, x: int| s.contains(a) && s.contains(b) && #[trigger] a.contains(x) && #[trigger] b.contains(x) ==> a == b }
pub open spec fn cov(s: Set<Set<int>>, x: int) -> bool { exists|a: Set<int>| s.contains(a) && #[trigger] a.contains(x) }
pub open spec fn sameu(s: Set<Set<int>>, t: Set<Set<int>>) -> bool { forall|x: int| #[trigger] cov(s, x) <==> cov(t, x) }
pub open spec fn within(q: Set<Set<int>>, a: Set<int>) -> bool { (forall|x: int| !a.contains(x)) || exists|b: Set<int>| q.contains(b) && #[trigger] a.subset_of(b) }
pub open spec fn coarser(q: Set<Set<int>>, s: Set<Set<int>>) -> bool { forall|a: Set<int>| s.contains(a) ==> #[trigger] within(q, a) }
pub open spec fn common(q: Set<Set<int>>, s: Set<Set<int>>, t: Set<Set<int>>) -> bool { djf(q) && coarser(q, s) && coarser(q, t) }
pub open spec fn finest(r: Set<Set<int>>, s: Set<Set<int>>, t: Set<Set<int>>) -> bool {
    common(r, s, t) && sameu(r, s) && forall|q: Set<Set<int>>| #[trigger] common(q, s, t) ==> coarser(q, r) }
// invariant of the merging: the block w grows out of blocks removed from c1 (of s) and c2 (of t)
pub open spec fn merging(s: Set<Set<int>>, t: Set<Set<int>>, c1: Set<Set<int>>, c2: Set<Set<int>>, w: Set<int>) -> bool {
    &&& c1.subset_of(s) && c2.subset_of(t)
    &&& forall|x: int| #[trigger] cov(s, x) <==> cov(c1, x) || w.contains(x)
    &&& forall|x: int| #[trigger] cov(s, x) <==> cov(c2, x) || w.contains(x)
    &&& forall|a: Set<int>| s.contains(a) ==> c1.contains(a) || #[trigger] a.subset_of(w)
    &&& forall|a: Set<int>| t.contains(a) ==> c2.contains(a) || #[trigger] a.subset_of(w)
    &&& forall|q: Set<Set<int>>| #[trigger] common(q, s, t) ==> within(q, w)
}
proof fn lem_base(s: Set<Set<int>>, t: Set<Set<int>>)
    requires djf(s), djf(t), sameu(s, t), s.subset_of(t)
    ensures finest(s, s, t)
{
    assert forall|a: Set<int>| s.contains(a) implies #[trigger] within(s, a) by { assert(a.subset_of(a)); }
    assert forall|a: Set<int>| t.contains(a) implies #[trigger] within(s, a) by {
        if exists|x: int| a.contains(x) {
            let x = choose|x: int| a.contains(x);
            assert(cov(t, x)); assert(cov(s, x));
            let b = choose|b: Set<int>| s.contains(b) && #[trigger] b.contains(x);
            assert(t.contains(b)); assert(a == b); assert(a.subset_of(b));
        }
    }
}
proof fn lem_start(s: Set<Set<int>>, t: Set<Set<int>>, w: Set<int>)
    requires djf(s), djf(t), sameu(s, t), s.contains(w)
    ensures merging(s, t, s.remove(w), t, w)
{
    let c1 = s.remove(w);
    assert forall|x: int| #[trigger] cov(s, x) <==> cov(c1, x) || w.contains(x) by {
        if cov(s, x) { let a = choose|a: Set<int>| s.contains(a) && #[trigger] a.contains(x); if a != w { assert(c1.contains(a)); } }
        if cov(c1, x) { let a = choose|a: Set<int>| c1.contains(a) && #[trigger] a.contains(x); assert(s.contains(a)); }
    }
    assert forall|x: int| #[trigger] cov(s, x) <==> cov(t, x) || w.contains(x) by { assert(cov(s, x) <==> cov(t, x)); }
    assert forall|a: Set<int>| s.contains(a) implies c1.contains(a) || #[trigger] a.subset_of(w) by { if a == w { assert(a.subset_of(w)); } }
}
proof fn lem_absorb(s: Set<Set<int>>, t: Set<Set<int>>, c1: Set<Set<int>>, c2: Set<Set<int>>, w: Set<int>, b: Set<int>, x: int, first: bool)
    requires djf(s), djf(t), sameu(s, t), merging(s, t, c1, c2, w), w.contains(x), b.contains(x), first ==> c1.contains(b), !first ==> c2.contains(b)
    ensures first ==> merging(s, t, c1.remove(b), c2, w.union(b)), !first ==> merging(s, t, c1, c2.remove(b), w.union(b))
{
    let w2 = w.union(b);
    let d1 = if first { c1.remove(b) } else { c1 };
    let d2 = if first { c2 } else { c2.remove(b) };
    assert forall|y: int| b.contains(y) implies cov(s, y) by { if first { assert(s.contains(b)); } else { assert(t.contains(b)); assert(cov(t, y)); assert(cov(s, y) <==> cov(t, y)); } }
    assert forall|y: int| #[trigger] cov(s, y) <==> cov(d1, y) || w2.contains(y) by {
        assert(cov(s, y) <==> cov(c1, y) || w.contains(y));
        if cov(c1, y) { let a = choose|a: Set<int>| c1.contains(a) && #[trigger] a.contains(y); if a != b || !first { assert(d1.contains(a)); } }
        if cov(d1, y) { let a = choose|a: Set<int>| d1.contains(a) && #[trigger] a.contains(y); assert(c1.contains(a)); }
    }
    assert forall|y: int| #[trigger] cov(s, y) <==> cov(d2, y) || w2.contains(y) by {
        assert(cov(s, y) <==> cov(c2, y) || w.contains(y));
        if cov(c2, y) { let a = choose|a: Set<int>| c2.contains(a) && #[trigger] a.contains(y); if a != b || first { assert(d2.contains(a)); } }
        if cov(d2, y) { let a = choose|a: Set<int>| d2.contains(a) && #[trigger] a.contains(y); assert(c2.contains(a)); }
    }
    assert(b.subset_of(w2));
    assert forall|a: Set<int>| s.contains(a) implies d1.contains(a) || #[trigger] a.subset_of(w2) by { if !c1.contains(a) { assert(a.subset_of(w)); } }
    assert forall|a: Set<int>| t.contains(a) implies d2.contains(a) || #[trigger] a.subset_of(w2) by { if !c2.contains(a) { assert(a.subset_of(w)); } }
    assert forall|q: Set<Set<int>>| #[trigger] common(q, s, t) implies within(q, w2) by {
        assert(within(q, w)); assert(within(q, b));
        let e = choose|e: Set<int>| q.contains(e) && #[trigger] w.subset_of(e);
        let f = choose|f: Set<int>| q.contains(f) && #[trigger] b.subset_of(f);
        assert(e.contains(x) && f.contains(x)); assert(e == f);
        assert(w2.subset_of(e));
    }
}
proof fn lem_done(s: Set<Set<int>>, t: Set<Set<int>>, c1: Set<Set<int>>, c2: Set<Set<int>>, w: Set<int>)
    requires djf(s), djf(t), sameu(s, t), merging(s, t, c1, c2, w),
        forall|a: Set<int>, x: int| (c1.contains(a) || c2.contains(a)) && #[trigger] a.contains(x) ==> !w.contains(x)
    ensures djf(c1.insert(w)), djf(c2.insert(w)), sameu(c1.insert(w), c2.insert(w)),
        forall|r: Set<Set<int>>| #[trigger] finest(r, c1.insert(w), c2.insert(w)) ==> finest(r, s, t)
{
    let d1 = c1.insert(w); let d2 = c2.insert(w);
    assert forall|x: int| #[trigger] cov(d1, x) <==> cov(s, x) by {
        assert(cov(s, x) <==> cov(c1, x) || w.contains(x));
        if cov(c1, x) { let a = choose|a: Set<int>| c1.contains(a) && #[trigger] a.contains(x); assert(d1.contains(a)); }
        if w.contains(x) { assert(d1.contains(w)); }
        if cov(d1, x) { let a = choose|a: Set<int>| d1.contains(a) && #[trigger] a.contains(x); if a != w { assert(c1.contains(a)); } }
    }
    assert forall|x: int| #[trigger] cov(d2, x) <==> cov(s, x) by {
        assert(cov(s, x) <==> cov(c2, x) || w.contains(x));
        if cov(c2, x) { let a = choose|a: Set<int>| c2.contains(a) && #[trigger] a.contains(x); assert(d2.contains(a)); }
        if w.contains(x) { assert(d2.contains(w)); }
        if cov(d2, x) { let a = choose|a: Set<int>| d2.contains(a) && #[trigger] a.contains(x); if a != w { assert(c2.contains(a)); } }
    }
    assert forall|r: Set<Set<int>>| #[trigger] finest(r, d1, d2) implies finest(r, s, t) by {
        assert forall|a: Set<int>| s.contains(a) implies #[trigger] within(r, a) by {
            if c1.contains(a) { assert(d1.contains(a)); assert(within(r, a)); } else { assert(d1.contains(w)); assert(within(r, w)); lem_within(r, a, w); } }
        assert forall|a: Set<int>| t.contains(a) implies #[trigger] within(r, a) by {
            if c2.contains(a) { assert(d2.contains(a)); assert(within(r, a)); } else { assert(a.subset_of(w)); assert(d2.contains(w)); assert(within(r, w)); lem_within(r, a, w); } }
        assert forall|x: int| #[trigger] cov(r, x) <==> cov(s, x) by { assert(cov(r, x) <==> cov(d1, x)); assert(cov(d1, x) <==> cov(s, x)); }
        assert forall|q: Set<Set<int>>| #[trigger] common(q, s, t) implies coarser(q, r) by {
            assert(within(q, w));
            assert forall|a: Set<int>| d1.contains(a) implies #[trigger] within(q, a) by {}
            assert forall|a: Set<int>| d2.contains(a) implies #[trigger] within(q, a) by {}
            assert(common(q, d1, d2));
        }
    }
}
proof fn lem_within(q: Set<Set<int>>, a: Set<int>, w: Set<int>) requires within(q, w), a.subset_of(w) ensures within(q, a)
{
    if exists|x: int| a.contains(x) { let x = choose|x: int| a.contains(x); assert(w.contains(x)); let b = choose|b: Set<int>| q.contains(b) && #[trigger] w.subset_of(b); assert(a.subset_of(b)); }
}
// no member of c meets w
pub open spec fn apart(c: Set<Set<int>>, w: Set<int>) -> bool { forall|a: Set<int>, x: int| c.contains(a) && #[trigger] a.contains(x) ==> !w.contains(x) }
pub open spec fn djl(l: Seq<Set<int>>) -> bool { forall|i: int, j: int, x: int| 0 <= i < l.len() && 0 <= j < l.len() && #[trigger] l[i].contains(x) && #[trigger] l[j].contains(x) ==> l[i] == l[j] }
// the members of c among the first k of l do not meet w
pub open spec fn passed(l: Seq<Set<int>>, k: int, c: Set<Set<int>>, w: Set<int>) -> bool { forall|j: int, x: int| 0 <= j < k && c.contains(l[j]) && #[trigger] l[j].contains(x) ==> !w.contains(x) }
