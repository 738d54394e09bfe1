// ================================================================ the string key is injective
pub open spec fn is_dig(c: u8) -> bool { 48 <= c <= 57 }
pub proof fn lemma_digits(n: nat)
    ensures digits(n).len() >= 1, forall|i: int| 0 <= i < digits(n).len() ==> is_dig(#[trigger] digits(n)[i])
    decreases n
{
    if n >= 10 { lemma_digits(n / 10); }
}
pub proof fn lemma_digits_inj(a: nat, b: nat)
    requires digits(a) == digits(b) ensures a == b
    decreases a
{
    lemma_digits(a); lemma_digits(b);
    if a < 10 && b < 10 { assert(digits(a)[0] == digits(b)[0]); assert(digits(a)[0] == (48 + a) as u8); assert(digits(b)[0] == (48 + b) as u8); }
    else if a < 10 {
        lemma_digits(b / 10);
        assert(digits(b).len() == digits(b / 10).len() + 1);
        assert(digits(a).len() == 1);
    } else if b < 10 {
        lemma_digits(a / 10);
        assert(digits(a).len() == digits(a / 10).len() + 1);
        assert(digits(b).len() == 1);
    } else {
        let da = digits(a / 10); let db = digits(b / 10);
        assert(digits(a).drop_last() =~= da); assert(digits(b).drop_last() =~= db);
        lemma_digits_inj(a / 10, b / 10);
        assert(digits(a) == da.push((48 + a % 10) as u8)); assert(digits(b) == db.push((48 + b % 10) as u8));
        assert(digits(a).last() == digits(b).last());
        assert(digits(a).last() == (48 + a % 10) as u8); assert(digits(b).last() == (48 + b % 10) as u8);
        assert((48 + a % 10) as u8 == (48 + b % 10) as u8);
        assert(a % 10 == b % 10);
    }
}
pub proof fn lemma_hp_end(m: MI, n: int)
    requires 0 < n <= m.len()
    ensures hp_to(m, n).len() >= 2, hp_to(m, n).last() == 45u8
{
    lemma_digits(m[n - 1] as nat);
    let s = hp_to(m, n);
    assert(s.last() == 45u8);
}
pub proof fn lemma_hp_inj_to(a: MI, na: int, b: MI, nb: int)
    requires 0 <= na <= a.len(), 0 <= nb <= b.len(), hp_to(a, na) == hp_to(b, nb)
    ensures na == nb, forall|i: int| 0 <= i < na ==> a[i] == b[i]
    decreases na
{
    if na > 0 { lemma_hp_end(a, na); }
    if nb > 0 { lemma_hp_end(b, nb); }
    if na > 0 && nb > 0 {
        let s = hp_to(a, na);
        let pa = hp_to(a, na - 1); let pb = hp_to(b, nb - 1);
        let da = digits(a[na - 1] as nat); let db = digits(b[nb - 1] as nat);
        lemma_digits(a[na - 1] as nat); lemma_digits(b[nb - 1] as nat);
        if na - 1 > 0 { lemma_hp_end(a, na - 1); }
        if nb - 1 > 0 { lemma_hp_end(b, nb - 1); }
        let la = pa.len() as int; let lb = pb.len() as int;
        assert(s == pa + (da + seq![45u8])); assert(s == pb + (db + seq![45u8]));
        assert(s.len() == la + da.len() + 1); assert(s.len() == lb + db.len() + 1);
        if la < lb {
            // position lb - 1 is '-' in the second reading and a digit in the first
            assert(s[lb - 1] == 45u8) by { assert(pb.last() == 45u8); assert(s[lb - 1] == pb[lb - 1]); }
            assert(s[lb - 1] == da[lb - 1 - la]);
            assert(is_dig(da[lb - 1 - la]));
        } else if lb < la {
            assert(s[la - 1] == 45u8) by { assert(pa.last() == 45u8); assert(s[la - 1] == pa[la - 1]); }
            assert(s[la - 1] == db[la - 1 - lb]);
            assert(is_dig(db[la - 1 - lb]));
        }
        assert(la == lb);
        assert(pa =~= s.subrange(0, la)); assert(pb =~= s.subrange(0, la));
        assert(da =~= s.subrange(la, s.len() - 1)); assert(db =~= s.subrange(la, s.len() - 1));
        lemma_digits_inj(a[na - 1] as nat, b[nb - 1] as nat);
        lemma_hp_inj_to(a, na - 1, b, nb - 1);
    }
}
pub proof fn lemma_hp_inj(a: MI, b: MI)
    requires hp(a) == hp(b) ensures a == b
{
    lemma_hp_inj_to(a, a.len() as int, b, b.len() as int);
    assert(a =~= b);
}
// the table entry exists exactly for listed multi-indices
pub proof fn lemma_ht_has(t: Map<Seq<u8>, u32>, l: Seq<MI>, m: MI)
    requires ht_ok(t, l)
    ensures t.dom().contains(hp(m)) == l.contains(m), l.contains(m) ==> 0 <= t[hp(m)] < l.len() && l[t[hp(m)] as int] == m
{
    if t.dom().contains(hp(m)) {
        let i = choose|i: int| 0 <= i < l.len() && hp(#[trigger] l[i]) == hp(m);
        lemma_hp_inj(l[i], m);
        assert(l.contains(m));
    }
    if l.contains(m) {
        let i = choose|i: int| 0 <= i < l.len() && l[i] == m;
        assert(hp(l[i]) == hp(m));
    }
}
pub proof fn lemma_ht_insert(t: Map<Seq<u8>, u32>, l: Seq<MI>, m: MI, v: u32)
    requires ht_ok(t, l), !l.contains(m), v as int == l.len()
    ensures !t.dom().contains(hp(m)), ht_ok(t.insert(hp(m), v), l.push(m))
{
    lemma_ht_has(t, l, m);
    let t2 = t.insert(hp(m), v); let l2 = l.push(m);
    assert forall|i: int| 0 <= i < l2.len() implies t2.dom().contains(hp(#[trigger] l2[i])) && t2[hp(l2[i])] as int == i by {
        if i < l.len() {
            assert(l2[i] == l[i]);
            if hp(l[i]) == hp(m) { lemma_hp_inj(l[i], m); assert(l.contains(m)); }
        }
    }
    assert forall|s: Seq<u8>| #[trigger] t2.dom().contains(s) implies exists|i: int| 0 <= i < l2.len() && hp(#[trigger] l2[i]) == s by {
        if s == hp(m) { assert(l2[l.len() as int] == m); }
        else { let i = choose|i: int| 0 <= i < l.len() && hp(#[trigger] l[i]) == s; assert(l2[i] == l[i]); }
    }
}
