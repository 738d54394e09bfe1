// ---- the directions an expression involves
pub type G = Set<int>;
pub open spec fn agree(x: spec_fn(int) -> real, y: spec_fn(int) -> real, g: G) -> bool { forall|i: int| (forall|d: int| 0 <= d < xsubv().len() && #[trigger] xsubv()[d] == i ==> g.contains(d)) ==> #[trigger] x(i) == y(i) }
// the value is a function of the coordinates in g (and of symbols that are no coordinates)
pub open spec fn within(e: ExprV, g: G) -> bool { forall|x: spec_fn(int) -> real, y: spec_fn(int) -> real| agree(x, y, g) ==> #[trigger] at(e, x) == #[trigger] at(e, y) }
// no symbol of a coordinate outside g
pub open spec fn inside(e: ExprV, g: G) -> bool { forall|d: int| 0 <= d < xsubv().len() && free(e).contains(#[trigger] xsubv()[d]) ==> g.contains(d) }
pub open spec fn wff(f: FunV) -> bool { inside(f.sym, f.dirs.to_set()) && f.dirs.no_duplicates() }
// ---- dictionaries of factors
pub type M = Map<Set<int>, ExprV>;
pub open spec fn prods(s: Set<G>, m: M, x: spec_fn(int) -> real) -> real decreases s.len() {
    if s.len() > 0 { at(m[s.choose()], x) * prods(s.remove(s.choose()), m, x) } else { 1real }
}
pub open spec fn mprod(m: M, x: spec_fn(int) -> real) -> real { prods(m.dom(), m, x) }
pub open spec fn kprod(s: Seq<G>, k: int, m: M, x: spec_fn(int) -> real) -> real decreases k { if k <= 0 { 1real } else { kprod(s, k - 1, m, x) * at(m[s[k - 1]], x) } }
pub open spec fn meets(a: G, b: G) -> bool { exists|d: int| #[trigger] a.contains(d) && b.contains(d) }
// the groups: the empty one, and a partition of the directions
pub open spec fn groups(s: Set<G>, dirs: G) -> bool {
    &&& s.contains(Set::<int>::empty())
    &&& forall|a: G, d: int| s.contains(a) && #[trigger] a.contains(d) ==> dirs.contains(d)
    &&& forall|d: int| #[trigger] dirs.contains(d) ==> exists|a: G| #[trigger] s.contains(a) && a.contains(d)
    &&& forall|a: G, b: G| #[trigger] s.contains(a) && #[trigger] s.contains(b) && meets(a, b) ==> a == b
}
pub open spec fn factored(m: M, dirs: G) -> bool { groups(m.dom(), dirs) && forall|a: G| #[trigger] m.dom().contains(a) ==> within(m[a], a) }
proof fn lemma_within_mono(e: ExprV, g: G, h: G)
    requires within(e, g), g.subset_of(h)
    ensures within(e, h)
{
    assert forall|x: spec_fn(int) -> real, y: spec_fn(int) -> real| agree(x, y, h) implies #[trigger] at(e, x) == #[trigger] at(e, y) by {
        assert(agree(x, y, g)) by { assert forall|i: int| (forall|d: int| 0 <= d < xsubv().len() && #[trigger] xsubv()[d] == i ==> g.contains(d)) implies #[trigger] x(i) == y(i) by { assert(forall|d: int| 0 <= d < xsubv().len() && #[trigger] xsubv()[d] == i ==> h.contains(d)); } }
    }
}
proof fn lemma_within_mul(a: ExprV, b: ExprV, g: G)
    requires within(a, g), within(b, g)
    ensures within(emul(a, b), g)
{
    broadcast use ax_mul;
}
proof fn lemma_within_int(k: int, g: G) ensures within(eint(k), g) { broadcast use ax_int; }
proof fn lemma_key(e: ExprV, l: Seq<int>, k: Seq<int>, g: G)
    requires l.to_set() == free(e).intersect(xsubv().to_set()), k.len() == l.len(), forall|j: int| 0 <= j < k.len() ==> #[trigger] k[j] == idx(xsubv(), l[j]), g == k.to_set()
    ensures within(e, g), forall|d: int| #[trigger] g.contains(d) <==> 0 <= d < xsubv().len() && free(e).contains(xsubv()[d])
{
    ax_xsub();
    let xs = xsubv();
    assert forall|i: int| 0 <= i < xs.len() implies #[trigger] idx(xs, xs[i]) == i by { }
    assert forall|d: int| #[trigger] g.contains(d) <==> 0 <= d < xs.len() && free(e).contains(xs[d]) by {
        if g.contains(d) {
            let j = choose|j: int| 0 <= j < k.len() && k[j] == d;
            assert(l.to_set().contains(l[j]));
            assert(xs.to_set().contains(l[j]));
            let i = choose|i: int| 0 <= i < xs.len() && xs[i] == l[j];
            assert(idx(xs, xs[i]) == i);
        }
        if 0 <= d < xs.len() && free(e).contains(xs[d]) {
            assert(xs.to_set().contains(xs[d]));
            assert(l.to_set().contains(xs[d]));
            let j = choose|j: int| 0 <= j < l.len() && l[j] == xs[d];
            assert(k[j] == idx(xs, xs[d]));
            assert(k.contains(d)) by { assert(k[j] == d); }
        }
    }
    assert forall|x: spec_fn(int) -> real, y: spec_fn(int) -> real| agree(x, y, g) implies #[trigger] at(e, x) == #[trigger] at(e, y) by {
        assert forall|i: int| #[trigger] free(e).contains(i) implies x(i) == y(i) by {
            assert forall|d: int| 0 <= d < xsubv().len() && #[trigger] xsubv()[d] == i implies g.contains(d) by {}
        }
        ax_free(e, x, y);
    }
}
// ---- products over sets of keys do not depend on the order
proof fn lemma_prods_same(s: Set<G>, m: M, n: M, x: spec_fn(int) -> real)
    requires forall|a: G| #[trigger] s.contains(a) ==> at(m[a], x) == at(n[a], x)
    ensures prods(s, m, x) == prods(s, n, x)
    decreases s.len()
{
    if s.len() > 0 { let c = s.choose(); assert(s.contains(c)); assert(s.remove(c).len() < s.len()); lemma_prods_same(s.remove(c), m, n, x); }
}
proof fn lemma_prods_pick(s: Set<G>, m: M, x: spec_fn(int) -> real, b: G)
    requires s.contains(b)
    ensures prods(s, m, x) == at(m[b], x) * prods(s.remove(b), m, x)
    decreases s.len()
{
    assert(s.len() > 0);
    let c = s.choose();
    assert(s.contains(c));
    if c != b {
        let t = s.remove(c);
        lemma_prods_pick(t, m, x, b);
        let u = s.remove(b);
        assert(u.contains(c));
        lemma_prods_pick(u, m, x, c);
        assert(t.remove(b) =~= u.remove(c));
        let p = prods(t.remove(b), m, x);
        assert(at(m[c], x) * (at(m[b], x) * p) == at(m[b], x) * (at(m[c], x) * p)) by (nonlinear_arith);
    }
}
proof fn lemma_prods_empty(m: M, x: spec_fn(int) -> real) ensures prods(Set::<G>::empty(), m, x) == 1real { }
// a new key
proof fn lemma_insert(m: M, k: G, e: ExprV, x: spec_fn(int) -> real)
    requires !m.dom().contains(k)
    ensures mprod(m.insert(k, e), x) == mprod(m, x) * at(e, x)
{
    let n = m.insert(k, e);
    lemma_prods_pick(n.dom(), n, x, k);
    assert(n.dom().remove(k) =~= m.dom());
    lemma_prods_same(m.dom(), n, m, x);
    assert(at(e, x) * mprod(m, x) == mprod(m, x) * at(e, x)) by (nonlinear_arith);
}
// a factor absorbed by an existing key
proof fn lemma_absorb(m: M, k: G, e: ExprV, x: spec_fn(int) -> real)
    requires m.dom().contains(k)
    ensures mprod(m.insert(k, emul(m[k], e)), x) == mprod(m, x) * at(e, x)
{
    broadcast use ax_mul;
    let n = m.insert(k, emul(m[k], e));
    assert(n.dom() =~= m.dom());
    lemma_prods_pick(n.dom(), n, x, k);
    lemma_prods_pick(m.dom(), m, x, k);
    lemma_prods_same(m.dom().remove(k), n, m, x);
    let p = prods(m.dom().remove(k), m, x);
    assert((at(m[k], x) * at(e, x)) * p == (at(m[k], x) * p) * at(e, x)) by (nonlinear_arith);
}
proof fn lemma_drop(m: M, k: G, x: spec_fn(int) -> real)
    requires m.dom().contains(k)
    ensures mprod(m, x) == mprod(m.remove(k), x) * at(m[k], x)
{
    let n = m.remove(k);
    lemma_prods_pick(m.dom(), m, x, k);
    assert(n.dom() =~= m.dom().remove(k));
    lemma_prods_same(n.dom(), m, n, x);
    assert(at(m[k], x) * mprod(n, x) == mprod(n, x) * at(m[k], x)) by (nonlinear_arith);
}
// ---- one factor goes into the groups
// merged: K is k0 with every group it meets, ks those groups
pub open spec fn merged(s: Set<G>, k0: G, big: G, ks: Seq<G>) -> bool {
    &&& ks.no_duplicates()
    &&& forall|a: G| #[trigger] ks.contains(a) <==> s.contains(a) && meets(a, k0)
    &&& forall|d: int| #[trigger] big.contains(d) <==> k0.contains(d) || exists|a: G| #[trigger] ks.contains(a) && a.contains(d)
}
proof fn lemma_merge_groups(s: Set<G>, t: Set<G>, k0: G, big: G, ks: Seq<G>, dirs: G)
    requires groups(s, dirs), merged(s, k0, big, ks), forall|a: G| #[trigger] t.contains(a) <==> s.contains(a) && !ks.contains(a), forall|d: int| #[trigger] k0.contains(d) ==> dirs.contains(d), exists|d: int| k0.contains(d)
    ensures groups(t.insert(big), dirs), !t.contains(big)
{
    let n = t.insert(big);
    let e = Set::<int>::empty();
    assert(!ks.contains(e)) by { if ks.contains(e) { assert(meets(e, k0)); } }
    assert(t.contains(e));
    assert forall|a: G, d: int| n.contains(a) && #[trigger] a.contains(d) implies dirs.contains(d) by {
        if a == big { if !k0.contains(d) { let b = choose|b: G| #[trigger] ks.contains(b) && b.contains(d); assert(s.contains(b)); } } else { assert(s.contains(a)); }
    }
    assert forall|d: int| #[trigger] dirs.contains(d) implies exists|a: G| #[trigger] n.contains(a) && a.contains(d) by {
        let a = choose|a: G| #[trigger] s.contains(a) && a.contains(d);
        if ks.contains(a) { assert(big.contains(d)); assert(n.contains(big)); } else { assert(t.contains(a)); assert(n.contains(a)); }
    }
    assert forall|a: G| #[trigger] t.contains(a) implies !meets(a, big) by {
        if meets(a, big) {
            let d = choose|d: int| #[trigger] a.contains(d) && big.contains(d);
            if k0.contains(d) { assert(meets(a, k0)); }
            else { let b = choose|b: G| #[trigger] ks.contains(b) && b.contains(d); assert(s.contains(b)); assert(meets(a, b)); assert(a == b); }
        }
    }
    assert(!t.contains(big)) by { if t.contains(big) { let d = choose|d: int| k0.contains(d); assert(big.contains(d)); assert(meets(big, big)); } }
    assert forall|a: G, b: G| #[trigger] n.contains(a) && #[trigger] n.contains(b) && meets(a, b) implies a == b by {
        if a != b {
            let d = choose|d: int| #[trigger] a.contains(d) && b.contains(d);
            if a == big { assert(meets(b, big)) by { assert(b.contains(d) && big.contains(d)); } } else if b == big { assert(meets(a, big)); } else { assert(s.contains(a) && s.contains(b)); }
        }
    }
}
// the sum over terms of the products of their factors
pub open spec fn syms(m: Map<Set<int>, FunV>) -> M { Map::new(m.dom(), |k: G| m[k].sym) }
pub open spec fn tsum(r: Seq<Map<Set<int>, FunV>>, k: int, x: spec_fn(int) -> real) -> real decreases k { if k <= 0 { 0real } else { tsum(r, k - 1, x) + mprod(syms(r[k - 1]), x) } }
pub open spec fn good_part(m: Map<Set<int>, FunV>, dirs: G) -> bool { factored(syms(m), dirs) && forall|a: G| #[trigger] m.dom().contains(a) ==> m[a].dirs == fs_enum(a) }
pub open spec fn splits(f: FunV, r: Seq<Map<Set<int>, FunV>>) -> bool {
    &&& forall|x: spec_fn(int) -> real| #[trigger] at(f.sym, x) == tsum(r, r.len() as int, x)
    &&& forall|j: int| 0 <= j < r.len() ==> good_part(#[trigger] r[j], f.dirs.to_set())
}
proof fn lemma_tsum_push(r: Seq<Map<Set<int>, FunV>>, m: Map<Set<int>, FunV>, k: int, x: spec_fn(int) -> real)
    requires 0 <= k <= r.len()
    ensures tsum(r.push(m), k, x) == tsum(r, k, x)
    decreases k
{ if k > 0 { lemma_tsum_push(r, m, k - 1, x); } }
proof fn lemma_ones(s: Set<G>, m: M, x: spec_fn(int) -> real)
    requires forall|a: G| #[trigger] s.contains(a) ==> at(m[a], x) == 1real
    ensures prods(s, m, x) == 1real
    decreases s.len()
{ if s.len() > 0 { let c = s.choose(); assert(s.contains(c)); lemma_ones(s.remove(c), m, x); } }
proof fn lemma_start(m: M, dirs: Seq<int>)
    requires forall|a: G| #[trigger] m.dom().contains(a) ==> m[a] == eint(1), forall|a: G| #[trigger] m.dom().contains(a) <==> a == Set::<int>::empty() || exists|j: int| 0 <= j < dirs.len() && a == set![(#[trigger] dirs[j])]
    ensures factored(m, dirs.to_set()), forall|x: spec_fn(int) -> real| mprod(m, x) == 1real
{
    broadcast use ax_int;
    assert forall|x: spec_fn(int) -> real| mprod(m, x) == 1real by { lemma_ones(m.dom(), m, x); }
    assert forall|a: G| #[trigger] m.dom().contains(a) implies within(m[a], a) by { lemma_within_int(1, a); }
    let s = m.dom();
    assert forall|d: int| #[trigger] dirs.to_set().contains(d) implies exists|a: G| #[trigger] s.contains(a) && a.contains(d) by {
        let j = choose|j: int| 0 <= j < dirs.len() && dirs[j] == d; let a = set![dirs[j]]; assert(s.contains(a)); assert(a.contains(d));
    }
    assert forall|a: G, d: int| s.contains(a) && #[trigger] a.contains(d) implies dirs.to_set().contains(d) by { let j = choose|j: int| 0 <= j < dirs.len() && a == set![(#[trigger] dirs[j])]; assert(dirs[j] == d); }
    assert forall|a: G, b: G| #[trigger] s.contains(a) && #[trigger] s.contains(b) && meets(a, b) implies a == b by {
        let d = choose|d: int| #[trigger] a.contains(d) && b.contains(d);
        let i = choose|j: int| 0 <= j < dirs.len() && a == set![(#[trigger] dirs[j])];
        let j = choose|j: int| 0 <= j < dirs.len() && b == set![(#[trigger] dirs[j])];
        assert(dirs[i] == d && dirs[j] == d);
    }
}
// the groups met so far: the first k keys
pub open spec fn meld(ks: Seq<G>, k: int, k0: G, key: G, kk: Seq<G>) -> bool {
    &&& kk.no_duplicates()
    &&& forall|a: G| #[trigger] kk.contains(a) <==> ks.take(k).contains(a) && meets(a, k0)
    &&& forall|d: int| #[trigger] key.contains(d) <==> k0.contains(d) || exists|a: G| #[trigger] kk.contains(a) && a.contains(d)
}
proof fn lemma_meld_step(s: Set<G>, ks: Seq<G>, k: int, k0: G, key: G, kk: Seq<G>, dirs: G)
    requires groups(s, dirs), 0 <= k < ks.len(), ks.no_duplicates(), forall|a: G| #[trigger] ks.contains(a) <==> s.contains(a), meld(ks, k, k0, key, kk)
    ensures meets(ks[k], key) == meets(ks[k], k0), meets(ks[k], k0) ==> meld(ks, k + 1, k0, ks[k].union(key), kk.push(ks[k])), !meets(ks[k], k0) ==> meld(ks, k + 1, k0, key, kk)
{
    let e = ks[k];
    let t = ks.take(k);
    let u = ks.take(k + 1);
    assert(ks.contains(e));
    assert(u =~= t.push(e));
    assert forall|a: G| #[trigger] u.contains(a) <==> t.contains(a) || a == e by {
        if u.contains(a) { let i = choose|i: int| 0 <= i < u.len() && u[i] == a; if i < k { assert(t[i] == a); } }
        if t.contains(a) { let i = choose|i: int| 0 <= i < t.len() && t[i] == a; assert(u[i] == a); }
        assert(u[k] == e);
    }
    assert(!t.contains(e)) by { if t.contains(e) { let i = choose|i: int| 0 <= i < t.len() && t[i] == e; assert(ks[i] == ks[k]); } }
    assert(meets(e, key) ==> meets(e, k0)) by {
        if meets(e, key) {
            let d = choose|d: int| #[trigger] e.contains(d) && key.contains(d);
            if !k0.contains(d) {
                let a = choose|a: G| #[trigger] kk.contains(a) && a.contains(d);
                let i = choose|i: int| 0 <= i < t.len() && t[i] == a;
                assert(ks[i] == a); assert(ks.contains(a)); assert(meets(a, e)); assert(a == e);
            }
        }
    }
    assert(meets(e, k0) ==> meets(e, key)) by { if meets(e, k0) { let d = choose|d: int| #[trigger] e.contains(d) && k0.contains(d); assert(key.contains(d)); } }
    if meets(e, k0) {
        let n = kk.push(e);
        let b = e.union(key);
        assert forall|a: G| #[trigger] n.contains(a) <==> kk.contains(a) || a == e by {
            if n.contains(a) { let i = choose|i: int| 0 <= i < n.len() && n[i] == a; if i < kk.len() { assert(kk[i] == a); } }
            if kk.contains(a) { let i = choose|i: int| 0 <= i < kk.len() && kk[i] == a; assert(n[i] == a); }
            assert(n[kk.len() as int] == e);
        }
        assert(!kk.contains(e));
        assert(n.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { if i == kk.len() { assert(kk.contains(kk[j])); } else if j == kk.len() { assert(kk.contains(kk[i])); } } }
        assert forall|d: int| #[trigger] b.contains(d) <==> k0.contains(d) || exists|a: G| #[trigger] n.contains(a) && a.contains(d) by {
            if e.contains(d) { assert(n.contains(e)); }
            if key.contains(d) && !k0.contains(d) { let a = choose|a: G| #[trigger] kk.contains(a) && a.contains(d); assert(n.contains(a)); }
            if exists|a: G| #[trigger] n.contains(a) && a.contains(d) { let a = choose|a: G| #[trigger] n.contains(a) && a.contains(d); if a != e { assert(kk.contains(a)); } }
        }
    }
}
proof fn lemma_kprod_push(s: Seq<G>, g: G, k: int, m: M, x: spec_fn(int) -> real)
    requires 0 <= k <= s.len()
    ensures kprod(s.push(g), k, m, x) == kprod(s, k, m, x)
    decreases k
{ if k > 0 { lemma_kprod_push(s, g, k - 1, m, x); } }
// the value that goes with the merged key
pub open spec fn melded(v: ExprV, arg: ExprV, kk: Seq<G>, m: M) -> bool { forall|x: spec_fn(int) -> real| #[trigger] at(v, x) == at(arg, x) * kprod(kk, kk.len() as int, m, x) }
proof fn lemma_meld_value(v: ExprV, arg: ExprV, kk: Seq<G>, m: M, g: G, key: G)
    requires melded(v, arg, kk, m), within(v, key), within(m[g], g)
    ensures melded(emul(v, m[g]), arg, kk.push(g), m), within(emul(v, m[g]), g.union(key))
{
    broadcast use ax_mul;
    assert forall|x: spec_fn(int) -> real| #[trigger] at(emul(v, m[g]), x) == at(arg, x) * kprod(kk.push(g), kk.len() as int + 1, m, x) by {
        lemma_kprod_push(kk, g, kk.len() as int, m, x);
        let p = kprod(kk, kk.len() as int, m, x);
        assert(at(v, x) == at(arg, x) * p);
        assert((at(arg, x) * p) * at(m[g], x) == at(arg, x) * (p * at(m[g], x))) by (nonlinear_arith);
    }
    lemma_within_mono(v, key, g.union(key));
    lemma_within_mono(m[g], g, g.union(key));
    lemma_within_mul(v, m[g], g.union(key));
}
pub open spec fn dropped(m: M, ks: Seq<G>, k: int, n: M) -> bool {
    &&& forall|a: G| #[trigger] n.dom().contains(a) <==> m.dom().contains(a) && !ks.take(k).contains(a)
    &&& forall|a: G| #[trigger] n.dom().contains(a) ==> n[a] == m[a]
    &&& forall|x: spec_fn(int) -> real| #[trigger] mprod(m, x) == mprod(n, x) * kprod(ks, k, m, x)
}
proof fn lemma_drop_start(m: M, ks: Seq<G>)
    ensures dropped(m, ks, 0, m)
{ assert(ks.take(0).len() == 0); }
proof fn lemma_drop_step(m: M, ks: Seq<G>, k: int, n: M)
    requires dropped(m, ks, k, n), 0 <= k < ks.len(), ks.no_duplicates(), m.dom().contains(ks[k])
    ensures n.dom().contains(ks[k]), dropped(m, ks, k + 1, n.remove(ks[k]))
{
    let t = ks.take(k);
    let u = ks.take(k + 1);
    let e = ks[k];
    assert(!t.contains(e)) by { if t.contains(e) { let i = choose|i: int| 0 <= i < t.len() && t[i] == e; assert(ks[i] == ks[k]); } }
    assert forall|a: G| #[trigger] u.contains(a) <==> t.contains(a) || a == e by {
        if u.contains(a) { let i = choose|i: int| 0 <= i < u.len() && u[i] == a; if i < k { assert(t[i] == a); } }
        if t.contains(a) { let i = choose|i: int| 0 <= i < t.len() && t[i] == a; assert(u[i] == a); }
        assert(u[k] == e);
    }
    let r = n.remove(e);
    assert forall|x: spec_fn(int) -> real| #[trigger] mprod(m, x) == mprod(r, x) * kprod(ks, k + 1, m, x) by {
        lemma_drop(n, e, x);
        let p = mprod(r, x); let q = kprod(ks, k, m, x); let w = at(m[e], x);
        assert((p * w) * q == p * (q * w)) by (nonlinear_arith);
    }
}
// all groups met are gone, the merged one is there
proof fn lemma_merge(m: M, n: M, k0: G, key: G, ks: Seq<G>, kk: Seq<G>, v: ExprV, arg: ExprV, dirs: G)
    requires factored(m, dirs), ks.no_duplicates(), forall|a: G| #[trigger] ks.contains(a) <==> m.dom().contains(a), meld(ks, ks.len() as int, k0, key, kk), dropped(m, kk, kk.len() as int, n), melded(v, arg, kk, m), within(v, key),
        forall|d: int| #[trigger] k0.contains(d) ==> dirs.contains(d), !m.dom().contains(k0)
    ensures factored(n.insert(key, v), dirs), forall|x: spec_fn(int) -> real| #[trigger] mprod(n.insert(key, v), x) == mprod(m, x) * at(arg, x)
{
    assert(ks.take(ks.len() as int) =~= ks);
    assert(kk.take(kk.len() as int) =~= kk);
    assert(exists|d: int| k0.contains(d)) by { if forall|d: int| !k0.contains(d) { assert(k0 =~= Set::<int>::empty()); } }
    assert(merged(m.dom(), k0, key, kk));
    lemma_merge_groups(m.dom(), n.dom(), k0, key, kk, dirs);
    let r = n.insert(key, v);
    assert(r.dom() =~= n.dom().insert(key));
    assert forall|a: G| #[trigger] r.dom().contains(a) implies within(r[a], a) by { if a != key { assert(n.dom().contains(a)); assert(m.dom().contains(a)); } }
    assert forall|x: spec_fn(int) -> real| #[trigger] mprod(r, x) == mprod(m, x) * at(arg, x) by {
        lemma_insert(n, key, v, x);
        let p = mprod(n, x); let q = kprod(kk, kk.len() as int, m, x); let w = at(arg, x);
        assert(at(v, x) == w * q);
        assert(p * (w * q) == (p * q) * w) by (nonlinear_arith);
    }
}
proof fn lemma_absorbed(m: M, key: G, e: ExprV, dirs: G)
    requires factored(m, dirs), m.dom().contains(key), within(e, key)
    ensures factored(m.insert(key, emul(m[key], e)), dirs), forall|x: spec_fn(int) -> real| #[trigger] mprod(m.insert(key, emul(m[key], e)), x) == mprod(m, x) * at(e, x)
{
    let n = m.insert(key, emul(m[key], e));
    assert(n.dom() =~= m.dom());
    lemma_within_mul(m[key], e, key);
    assert forall|a: G| #[trigger] n.dom().contains(a) implies within(n[a], a) by { assert(m.dom().contains(a)); }
    assert forall|x: spec_fn(int) -> real| #[trigger] mprod(n, x) == mprod(m, x) * at(e, x) by { lemma_absorb(m, key, e, x); }
}
pub open spec fn upto(m: M, s: Seq<ExprV>, k: int) -> bool { forall|x: spec_fn(int) -> real| #[trigger] mprod(m, x) == lprod(s, k, x) }
pub open spec fn sumto(r: Seq<Map<Set<int>, FunV>>, s: Seq<ExprV>, k: int) -> bool { forall|x: spec_fn(int) -> real| #[trigger] tsum(r, k, x) == lsum(s, k, x) }
proof fn lemma_inside_args(e: ExprV, dirs: G)
    requires inside(e, dirs)
    ensures forall|j: int| 0 <= j < argsv(e).len() ==> inside(#[trigger] argsv(e)[j], dirs)
{ ax_args(e); }
proof fn lemma_single(s: Seq<ExprV>, x: spec_fn(int) -> real)
    ensures s.len() == 1 ==> lprod(s, 1, x) == at(s[0], x) && lsum(s, 1, x) == at(s[0], x)
{ reveal_with_fuel(lprod, 2); reveal_with_fuel(lsum, 2); }
// ---- the groups are the finest: every factor lies in one group, and no group can be cut without cutting a factor
pub open spec fn vars(e: ExprV, d: int) -> bool { 0 <= d < xsubv().len() && free(e).contains(xsubv()[d]) }
pub open spec fn housed1(s: Set<G>, e: ExprV) -> bool { exists|a: G| #[trigger] s.contains(a) && forall|d: int| #[trigger] vars(e, d) ==> a.contains(d) }
pub open spec fn housed(s: Set<G>, es: Seq<ExprV>, k: int) -> bool { forall|i: int| 0 <= i < k ==> housed1(s, #[trigger] es[i]) }
pub open spec fn cuts(c: G, a: G) -> bool { meets(a, c) && exists|d: int| #[trigger] a.contains(d) && !c.contains(d) }
pub open spec fn cut1(e: ExprV, c: G, a: G) -> bool { (forall|d: int| #[trigger] vars(e, d) ==> a.contains(d)) && (exists|d: int| #[trigger] vars(e, d) && c.contains(d)) && (exists|d: int| #[trigger] vars(e, d) && !c.contains(d)) }
pub open spec fn conn(a: G, es: Seq<ExprV>, k: int) -> bool { forall|c: G| #[trigger] cuts(c, a) ==> exists|i: int| 0 <= i < k && cut1(#[trigger] es[i], c, a) }
pub open spec fn finest_for(s: Set<G>, es: Seq<ExprV>, k: int) -> bool { housed(s, es, k) && forall|a: G| #[trigger] s.contains(a) ==> conn(a, es, k) }
pub open spec fn facs(e: ExprV) -> Seq<ExprV> { if is_mulv(e) { argsv(e) } else { seq![e] } }
pub open spec fn terms(e: ExprV) -> Seq<ExprV> { if is_addv(e) { argsv(e) } else { seq![e] } }
pub open spec fn finest_split(f: FunV, r: Seq<Map<Set<int>, FunV>>) -> bool { r.len() == terms(f.sym).len() && forall|j: int| 0 <= j < r.len() ==> finest_for((#[trigger] r[j]).dom(), facs(terms(f.sym)[j]), facs(terms(f.sym)[j]).len() as int) }
proof fn lemma_fin_start(s: Set<G>, es: Seq<ExprV>)
    requires forall|a: G, d: int, e: int| #[trigger] s.contains(a) && #[trigger] a.contains(d) && #[trigger] a.contains(e) ==> d == e
    ensures finest_for(s, es, 0)
{
    assert forall|a: G| #[trigger] s.contains(a) implies conn(a, es, 0) by { assert forall|c: G| #[trigger] cuts(c, a) implies false by { let d = choose|d: int| #[trigger] a.contains(d) && c.contains(d); let e = choose|d: int| #[trigger] a.contains(d) && !c.contains(d); assert(a.contains(d) && a.contains(e)); } }
}
proof fn lemma_fin_mono(a: G, es: Seq<ExprV>, k: int) requires conn(a, es, k) ensures conn(a, es, k + 1) {
    assert forall|c: G| #[trigger] cuts(c, a) implies exists|i: int| 0 <= i < k + 1 && cut1(#[trigger] es[i], c, a) by { let i = choose|i: int| 0 <= i < k && cut1(#[trigger] es[i], c, a); assert(0 <= i < k + 1 && cut1(es[i], c, a)); }
}
proof fn lemma_fin_absorb(s: Set<G>, es: Seq<ExprV>, k: int, key: G)
    requires finest_for(s, es, k), 0 <= k < es.len(), s.contains(key), forall|d: int| #[trigger] key.contains(d) <==> vars(es[k], d)
    ensures finest_for(s, es, k + 1)
{
    assert forall|i: int| 0 <= i < k + 1 implies housed1(s, #[trigger] es[i]) by { if i == k { assert(forall|d: int| #[trigger] vars(es[k], d) ==> key.contains(d)); } }
    assert forall|a: G| #[trigger] s.contains(a) implies conn(a, es, k + 1) by { lemma_fin_mono(a, es, k); }
}
proof fn lemma_fin_merge(s: Set<G>, t: Set<G>, es: Seq<ExprV>, k: int, k0: G, big: G, ks: Seq<G>, dirs: G)
    requires finest_for(s, es, k), 0 <= k < es.len(), groups(s, dirs), merged(s, k0, big, ks), forall|d: int| #[trigger] k0.contains(d) <==> vars(es[k], d), forall|a: G| #[trigger] t.contains(a) <==> a == big || s.contains(a) && !ks.contains(a),
        forall|d: int| #[trigger] k0.contains(d) ==> dirs.contains(d), exists|d: int| k0.contains(d)
    ensures finest_for(t, es, k + 1)
{
    assert forall|i: int| 0 <= i < k + 1 implies housed1(t, #[trigger] es[i]) by {
        if i == k { assert(t.contains(big)); assert(forall|d: int| #[trigger] vars(es[k], d) ==> big.contains(d)); }
        else {
            assert(housed1(s, es[i]));
            let a = choose|a: G| #[trigger] s.contains(a) && forall|d: int| #[trigger] vars(es[i], d) ==> a.contains(d);
            if ks.contains(a) { assert(t.contains(big)); assert forall|d: int| #[trigger] vars(es[i], d) implies big.contains(d) by { assert(a.contains(d)); } } else { assert(t.contains(a)); }
        }
    }
    assert forall|a: G| #[trigger] t.contains(a) implies conn(a, es, k + 1) by {
        if a != big { assert(s.contains(a)); lemma_fin_mono(a, es, k); }
        else {
            assert forall|c: G| #[trigger] cuts(c, big) implies exists|i: int| 0 <= i < k + 1 && cut1(#[trigger] es[i], c, big) by {
                if (exists|d: int| #[trigger] vars(es[k], d) && c.contains(d)) && (exists|d: int| #[trigger] vars(es[k], d) && !c.contains(d)) {
                    assert(cut1(es[k], c, big)) by { assert forall|d: int| #[trigger] vars(es[k], d) implies big.contains(d) by { assert(k0.contains(d)); } }
                } else if exists|a: G| #[trigger] ks.contains(a) && cuts(c, a) {
                    let a = choose|a: G| #[trigger] ks.contains(a) && cuts(c, a);
                    assert(s.contains(a)); assert(conn(a, es, k));
                    let i = choose|i: int| 0 <= i < k && cut1(#[trigger] es[i], c, a);
                    assert(cut1(es[i], c, big)) by { assert forall|d: int| #[trigger] vars(es[i], d) implies big.contains(d) by { assert(a.contains(d)); assert(ks.contains(a)); } }
                    assert(0 <= i < k + 1);
                } else {
                    // no group met is cut, and the new factor is not: all of them lie on one side
                    let d0 = choose|d: int| k0.contains(d);
                    let side = c.contains(d0);
                    assert forall|d: int| #[trigger] k0.contains(d) implies c.contains(d) == side by { assert(vars(es[k], d) && vars(es[k], d0)); }
                    assert forall|d: int| #[trigger] big.contains(d) implies c.contains(d) == side by {
                        if !k0.contains(d) {
                            let a = choose|a: G| #[trigger] ks.contains(a) && a.contains(d);
                            assert(!cuts(c, a));
                            let e = choose|e: int| #[trigger] a.contains(e) && k0.contains(e);
                            assert(c.contains(e) == side);
                            if c.contains(d) != side { assert(a.contains(d) && a.contains(e)); assert(meets(a, c)); }
                        }
                    }
                    let p = choose|d: int| #[trigger] big.contains(d) && c.contains(d);
                    let q = choose|d: int| #[trigger] big.contains(d) && !c.contains(d);
                    assert(c.contains(p) == side && c.contains(q) == side);
                }
            }
        }
    }
}
proof fn lemma_fin_merge2(m: M, n: M, k0: G, key: G, ks: Seq<G>, kk: Seq<G>, v: ExprV, es: Seq<ExprV>, k: int, dirs: G)
    requires groups(m.dom(), dirs), forall|a: G| #[trigger] ks.contains(a) <==> m.dom().contains(a), meld(ks, ks.len() as int, k0, key, kk), dropped(m, kk, kk.len() as int, n), forall|d: int| #[trigger] k0.contains(d) ==> dirs.contains(d), !m.dom().contains(k0),
        finest_for(m.dom(), es, k), 0 <= k < es.len(), forall|d: int| #[trigger] k0.contains(d) <==> vars(es[k], d)
    ensures finest_for(n.insert(key, v).dom(), es, k + 1)
{
    assert(ks.take(ks.len() as int) =~= ks);
    assert(kk.take(kk.len() as int) =~= kk);
    assert(exists|d: int| k0.contains(d)) by { if forall|d: int| !k0.contains(d) { assert(k0 =~= Set::<int>::empty()); } }
    lemma_fin_merge(m.dom(), n.insert(key, v).dom(), es, k, k0, key, kk, dirs);
}
// ---- projection: the factors whose directions are among those asked for
pub open spec fn sel(g: G, d: G) -> bool { g.subset_of(d) && !fs_empty(g) }
pub open spec fn selset(ks: Seq<G>, k: int, d: G) -> Set<G> decreases k { if k <= 0 { Set::empty() } else if sel(ks[k - 1], d) { selset(ks, k - 1, d).insert(ks[k - 1]) } else { selset(ks, k - 1, d) } }
pub open spec fn chosen(s: Set<G>, d: G) -> Set<G> { s.filter(|g: G| sel(g, d)) }
pub open spec fn apart_or_in(s: Set<G>, d: G) -> bool { forall|g: G| #[trigger] s.contains(g) ==> g.subset_of(d) || !meets(g, d) }
// the projection that goes with the dictionary m of factors; the constant goes with the first direction
pub open spec fn proj_of(f: FunV, m: Map<Set<int>, FunV>, r: FunV, d: Seq<int>) -> bool {
    &&& r.dirs == d && apart_or_in(m.dom(), d.to_set())
    &&& forall|x: spec_fn(int) -> real| #[trigger] at(r.sym, x) == (if d.contains(f.dirs[0]) { at(m[Set::<int>::empty()].sym, x) } else { 1real }) * prods(chosen(m.dom(), d.to_set()), syms(m), x)
}
pub open spec fn one_part(f: FunV, m: Map<Set<int>, FunV>) -> bool { splits(f, seq![m]) && finest_split(f, seq![m]) }
proof fn lemma_selset(ks: Seq<G>, k: int, d: G)
    requires 0 <= k <= ks.len()
    ensures forall|g: G| #[trigger] selset(ks, k, d).contains(g) <==> ks.take(k).contains(g) && sel(g, d)
    decreases k
{
    if k > 0 {
        lemma_selset(ks, k - 1, d);
        let t = ks.take(k - 1); let u = ks.take(k);
        assert forall|a: G| #[trigger] u.contains(a) <==> t.contains(a) || a == ks[k - 1] by {
            if u.contains(a) { let i = choose|i: int| 0 <= i < u.len() && u[i] == a; if i < k - 1 { assert(t[i] == a); } }
            if t.contains(a) { let i = choose|i: int| 0 <= i < t.len() && t[i] == a; assert(u[i] == a); }
            assert(u[k - 1] == ks[k - 1]);
        }
        let s0 = selset(ks, k - 1, d); let s1 = selset(ks, k, d);
        assert forall|g: G| #[trigger] s1.contains(g) <==> u.contains(g) && sel(g, d) by { assert(s0.contains(g) <==> t.contains(g) && sel(g, d)); if sel(ks[k - 1], d) { assert(s1.contains(g) <==> s0.contains(g) || g == ks[k - 1]); } }
    } else { assert(ks.take(0).len() == 0); }
}
proof fn lemma_sel_step(ks: Seq<G>, k: int, d: G, m: M, x: spec_fn(int) -> real)
    requires 0 <= k < ks.len(), ks.no_duplicates()
    ensures prods(selset(ks, k + 1, d), m, x) == prods(selset(ks, k, d), m, x) * (if sel(ks[k], d) { at(m[ks[k]], x) } else { 1real })
{
    lemma_selset(ks, k, d);
    if sel(ks[k], d) {
        let t = ks.take(k); let s = selset(ks, k, d); let g = ks[k];
        assert(!s.contains(g)) by { if s.contains(g) { let i = choose|i: int| 0 <= i < t.len() && t[i] == g; assert(ks[i] == ks[k]); } }
        lemma_prods_pick(s.insert(g), m, x, g);
        assert(s.insert(g).remove(g) =~= s);
        assert(at(m[g], x) * prods(s, m, x) == prods(s, m, x) * at(m[g], x)) by (nonlinear_arith);
    }
}
proof fn lemma_sel_all(ks: Seq<G>, d: G, s: Set<G>)
    requires forall|g: G| #[trigger] ks.contains(g) <==> s.contains(g)
    ensures selset(ks, ks.len() as int, d) == chosen(s, d)
{
    lemma_selset(ks, ks.len() as int, d);
    assert(ks.take(ks.len() as int) =~= ks);
    assert(selset(ks, ks.len() as int, d) =~= chosen(s, d));
}
// the projections on the parts of a partition of the directions multiply to the function
proof fn lemma_prods_union(a: Set<G>, b: Set<G>, m: M, x: spec_fn(int) -> real)
    requires a.disjoint(b)
    ensures prods(a.union(b), m, x) == prods(a, m, x) * prods(b, m, x)
    decreases b.len()
{
    if b.len() == 0 { assert(b =~= Set::<G>::empty()); assert(a.union(b) =~= a); }
    else {
        let g = b.choose();
        assert(b.contains(g));
        lemma_prods_union(a, b.remove(g), m, x);
        lemma_prods_pick(a.union(b), m, x, g);
        assert(a.union(b).remove(g) =~= a.union(b.remove(g)));
        let p = prods(a, m, x); let q = prods(b.remove(g), m, x); let w = at(m[g], x);
        assert(w * (p * q) == p * (w * q)) by (nonlinear_arith);
    }
}
pub open spec fn pprod(r: Seq<FunV>, k: int, x: spec_fn(int) -> real) -> real decreases k { if k <= 0 { 1real } else { pprod(r, k - 1, x) * at(r[k - 1].sym, x) } }
pub open spec fn reached(s: Set<G>, ds: Seq<Seq<int>>, k: int) -> Set<G> { s.filter(|g: G| exists|i: int| 0 <= i < k && sel(g, (#[trigger] ds[i]).to_set())) }
pub open spec fn first_seen(f: FunV, ds: Seq<Seq<int>>, k: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] ds[i]).contains(f.dirs[0]) }
proof fn lemma_parts_step(f: FunV, m: Map<Set<int>, FunV>, ds: Seq<Seq<int>>, r: Seq<FunV>, k: int, x: spec_fn(int) -> real)
    requires 0 <= k <= ds.len(), ds.len() == r.len(), forall|i: int| 0 <= i < ds.len() ==> proj_of(f, m, #[trigger] r[i], ds[i]), forall|i: int, j: int, d: int| 0 <= i < ds.len() && 0 <= j < ds.len() && i != j && #[trigger] ds[i].contains(d) ==> !#[trigger] ds[j].contains(d)
    ensures pprod(r, k, x) == (if first_seen(f, ds, k) { at(m[Set::<int>::empty()].sym, x) } else { 1real }) * prods(reached(m.dom(), ds, k), syms(m), x)
    decreases k
{
    let s = m.dom();
    if k == 0 { assert(reached(s, ds, 0) =~= Set::<G>::empty()); }
    else {
        lemma_parts_step(f, m, ds, r, k - 1, x);
        let a = reached(s, ds, k - 1); let d = ds[k - 1].to_set(); let b = chosen(s, d);
        assert(proj_of(f, m, r[k - 1], ds[k - 1]));
        assert(a.disjoint(b)) by {
            assert forall|g: G| a.contains(g) && b.contains(g) implies false by {
                let i = choose|i: int| 0 <= i < k - 1 && sel(g, (#[trigger] ds[i]).to_set());
                let e = choose|e: int| g.contains(e);
                assert(ds[i].to_set().contains(e)); assert(d.contains(e));
                assert(ds[i].contains(e) && ds[k - 1].contains(e));
            }
        }
        assert(a.union(b) =~= reached(s, ds, k)) by {
            assert forall|g: G| a.union(b).contains(g) <==> reached(s, ds, k).contains(g) by {
                if reached(s, ds, k).contains(g) { let i = choose|i: int| 0 <= i < k && sel(g, (#[trigger] ds[i]).to_set()); if i < k - 1 { assert(a.contains(g)); } else { assert(b.contains(g)); } }
                if a.contains(g) { let i = choose|i: int| 0 <= i < k - 1 && sel(g, (#[trigger] ds[i]).to_set()); assert(0 <= i < k && sel(g, ds[i].to_set())); }
                if b.contains(g) { assert(sel(g, ds[k - 1].to_set())); }
            }
        }
        lemma_prods_union(a, b, syms(m), x);
        let c0 = if first_seen(f, ds, k - 1) { at(m[Set::<int>::empty()].sym, x) } else { 1real };
        let c1 = if ds[k - 1].contains(f.dirs[0]) { at(m[Set::<int>::empty()].sym, x) } else { 1real };
        let c = if first_seen(f, ds, k) { at(m[Set::<int>::empty()].sym, x) } else { 1real };
        assert(c == c0 * c1) by {
            if first_seen(f, ds, k - 1) { let i = choose|i: int| 0 <= i < k - 1 && (#[trigger] ds[i]).contains(f.dirs[0]); assert(0 <= i < k && ds[i].contains(f.dirs[0])); assert(!ds[k - 1].contains(f.dirs[0])); }
            else if first_seen(f, ds, k) { let i = choose|i: int| 0 <= i < k && (#[trigger] ds[i]).contains(f.dirs[0]); assert(i == k - 1); }
            else { assert(!ds[k - 1].contains(f.dirs[0])); }
        }
        let p = prods(a, syms(m), x); let q = prods(b, syms(m), x);
        assert((c0 * p) * (c1 * q) == (c0 * c1) * (p * q)) by (nonlinear_arith);
    }
}
pub proof fn lemma_projections_multiply(f: FunV, m: Map<Set<int>, FunV>, ds: Seq<Seq<int>>, r: Seq<FunV>, x: spec_fn(int) -> real)
    requires f.dirs.len() > 0, one_part(f, m), ds.len() == r.len(), forall|i: int| 0 <= i < ds.len() ==> proj_of(f, m, #[trigger] r[i], ds[i]),
        forall|i: int, j: int, d: int| 0 <= i < ds.len() && 0 <= j < ds.len() && i != j && #[trigger] ds[i].contains(d) ==> !#[trigger] ds[j].contains(d), forall|d: int| #[trigger] f.dirs.contains(d) ==> exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).contains(d)
    ensures pprod(r, r.len() as int, x) == at(f.sym, x)
{
    let n = ds.len() as int; let s = m.dom(); let e = Set::<int>::empty();
    lemma_parts_step(f, m, ds, r, n, x);
    assert(seq![m][0] == m);
    reveal_with_fuel(tsum, 2);
    assert(at(f.sym, x) == mprod(syms(m), x));
    assert(good_part(seq![m][0], f.dirs.to_set()));
    assert(f.dirs.contains(f.dirs[0]));
    assert(s =~= syms(m).dom());
    lemma_prods_pick(s, syms(m), x, e);
    assert(reached(s, ds, n) =~= s.remove(e)) by {
        assert forall|g: G| reached(s, ds, n).contains(g) <==> s.remove(e).contains(g) by {
            if s.remove(e).contains(g) {
                assert(!fs_empty(g)) by { if fs_empty(g) { assert(g =~= e); } }
                let d = choose|d: int| g.contains(d);
                assert(f.dirs.to_set().contains(d));
                let i = choose|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).contains(d);
                assert(proj_of(f, m, r[i], ds[i]));
                assert(ds[i].to_set().contains(d)); assert(meets(g, ds[i].to_set()));
                assert(sel(g, ds[i].to_set()));
            }
            if reached(s, ds, n).contains(g) { let i = choose|i: int| 0 <= i < n && sel(g, (#[trigger] ds[i]).to_set()); assert(g != e); }
        }
    }
}
// ---- tensor products
pub open spec fn fprod(a: Seq<FunV>, k: int, x: spec_fn(int) -> real) -> real decreases k { if k <= 0 { 1real } else { fprod(a, k - 1, x) * at(a[k - 1].sym, x) } }
pub open spec fn fdirs(a: Seq<FunV>, k: int, d: int) -> bool { exists|i: int| 0 <= i < k && (#[trigger] a[i]).dirs.contains(d) }
pub open spec fn fdisj(a: Seq<FunV>, k: int) -> bool { forall|i: int, j: int, d: int| 0 <= i < k && 0 <= j < k && i != j && #[trigger] a[i].dirs.contains(d) ==> !#[trigger] a[j].dirs.contains(d) }
proof fn lemma_assoc(a: real, b: real, c: real) ensures (a * b) * c == a * (b * c), a * 1real == a, 1real * a == a { assert((a * b) * c == a * (b * c)) by (nonlinear_arith); }
proof fn lemma_meets_ge(a: G, b: G) ensures meets(a, b) == !fs_empty(a.intersect(b)) {
    if meets(a, b) { let d = choose|d: int| #[trigger] a.contains(d) && b.contains(d); assert(a.intersect(b).contains(d)); }
    if !fs_empty(a.intersect(b)) { let d = choose|d: int| a.intersect(b).contains(d); assert(a.contains(d) && b.contains(d)); }
}
proof fn lemma_tens(a: Seq<FunV>, k: int, d0: G)
    requires 0 <= k < a.len(), fdisj(a, k), forall|d: int| #[trigger] d0.contains(d) <==> fdirs(a, k, d)
    ensures fs_empty(d0.intersect(a[k].dirs.to_set())) == fdisj(a, k + 1), forall|d: int| #[trigger] fdirs(a, k + 1, d) <==> d0.contains(d) || a[k].dirs.contains(d)
{
    assert forall|d: int| #[trigger] fdirs(a, k + 1, d) <==> d0.contains(d) || a[k].dirs.contains(d) by {
        if fdirs(a, k + 1, d) { let i = choose|i: int| 0 <= i < k + 1 && (#[trigger] a[i]).dirs.contains(d); if i < k { assert(fdirs(a, k, d)); } }
        if d0.contains(d) { let i = choose|i: int| 0 <= i < k && (#[trigger] a[i]).dirs.contains(d); assert(0 <= i < k + 1 && a[i].dirs.contains(d)); }
        if a[k].dirs.contains(d) { assert(0 <= k < k + 1 && a[k].dirs.contains(d)); }
    }
    let s = d0.intersect(a[k].dirs.to_set());
    if fs_empty(s) {
        assert(fdisj(a, k + 1)) by {
            assert forall|i: int, j: int, d: int| 0 <= i < k + 1 && 0 <= j < k + 1 && i != j && #[trigger] a[i].dirs.contains(d) implies !#[trigger] a[j].dirs.contains(d) by {
                if a[j].dirs.contains(d) && (i == k || j == k) {
                    let o = if i == k { j } else { i };
                    assert(fdirs(a, k, d)) by { assert(0 <= o < k && a[o].dirs.contains(d)); }
                    assert(s.contains(d));
                }
            }
        }
    } else {
        let d = choose|d: int| s.contains(d);
        let i = choose|i: int| 0 <= i < k && (#[trigger] a[i]).dirs.contains(d);
        assert(a[i].dirs.contains(d) && a[k].dirs.contains(d));
    }
}
