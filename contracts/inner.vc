//! inner.cpp
@fn inner<K>(vr,vr,vu,vu)
@params s1, s2, dirs1, dirs2
@requires
exists|d: int| inner_ok($K, d, s1@.len() as int, s2@.len() as int, dirs1@, dirs2@),
@ensures
forall|d: int, f: Seq<u32>, s: Seq<u32>| #[trigger] inner_ok($K, d, s1@.len() as int, s2@.len() as int, dirs1@, dirs2@) && #[trigger] split(dirs1@, dirs2@, f, s) ==> inner_vec(Inn { k: $K, d, s1: s1@, s2: s2@, d1: dirs1@, d2: dirs2@, f, s }, r@),
@locals dim1, dim2, i, j, dirs_inner, dirs_result, inner_ind1, inner_ind2, in_dirs1, free_ind, dim_result, dim_inner, degree, it_m1, it_m2, m_result, result, m_inner, m1, m2, ind1, ind2
@at entry
let ghost d0 = choose|d: int| inner_ok($K, d, s1@.len() as int, s2@.len() as int, dirs1@, dirs2@); let ghost n1 = dirs1@.len() as int; let ghost n2 = dirs2@.len() as int; let ghost l1 = elist($K, n1, d0); let ghost l2 = elist($K, n2, d0);
proof {
    assert(is_deg($K, n1, d0, s1@.len() as int)); assert(valid_list($K, n1, d0, l1)); assert(is_deg($K, n2, d0, s2@.len() as int)); assert(valid_list($K, n2, d0, l2));
    assert forall|d: int| #[trigger] inner_ok($K, d, s1@.len() as int, s2@.len() as int, dirs1@, dirs2@) implies d == d0 by { lemma_deg_unique($K, n1, s1@.len() as int, d, d0); }
}
@at loop0.before
proof { lemma_mst0(dirs1@, dirs2@, Mrg { f: dirs_result@, s: dirs_inner@, in1: in_dirs1@, fi: free_ind@, i1: inner_ind1@, i2: inner_ind2@ }); }
@loop 0
invariant i <= dim1, j <= dim2, mst(dirs1@, dirs2@, i as int, j as int, Mrg { f: dirs_result@, s: dirs_inner@, in1: in_dirs1@, fi: free_ind@, i1: inner_ind1@, i2: inner_ind2@ }),
@at loop0.begin
let ghost i0 = i as int; let ghost j0 = j as int; let ghost g0 = Mrg { f: dirs_result@, s: dirs_inner@, in1: in_dirs1@, fi: free_ind@, i1: inner_ind1@, i2: inner_ind2@ };
@at loop0.end
proof {
    let g = Mrg { f: dirs_result@, s: dirs_inner@, in1: in_dirs1@, fi: free_ind@, i1: inner_ind1@, i2: inner_ind2@ };
    if i > i0 && j > j0 { lemma_mst_both(dirs1@, dirs2@, i0, j0, g0, g); } else if i > i0 { lemma_mst_free1(dirs1@, dirs2@, i0, j0, g0, g); } else { lemma_mst_free2(dirs1@, dirs2@, i0, j0, g0, g); }
}
@at decl.degree
let ghost g = Mrg { f: dirs_result@, s: dirs_inner@, in1: in_dirs1@, fi: free_ind@, i1: inner_ind1@, i2: inner_ind2@ };
let ghost p = Inn { k: $K, d: d0, s1: s1@, s2: s2@, d1: dirs1@, d2: dirs2@, f: dirs_result@, s: dirs_inner@ };
let ghost nf = dirs_result@.len() as int; let ghost ns = dirs_inner@.len() as int; let ghost lf = cl($K, nf, d0); let ghost ls = cl($K, ns, d0);
proof {
    lemma_mdone(dirs1@, dirs2@, g);
    assert forall|f: Seq<u32>, s: Seq<u32>| #[trigger] split(dirs1@, dirs2@, f, s) implies f == dirs_result@ && s == dirs_inner@ by { lemma_split_unique(dirs1@, dirs2@, f, s, dirs_result@, dirs_inner@); }
    if ns > 0 { lemma_ok_sub($K, n1, ns, d0); }
    assert(inn_ok(p)); assert(ns == 0 ==> nf > 0); assert(nf > 0 ==> okd($K, nf, d0)); assert(dim_result == nf && dim_inner == ns);
}
@at decl.it_m2
proof { lemma_elist($K, n1, d0, lv(it_m1.list@)); lemma_elist($K, n2, d0, lv(it_m2.list@)); }
@at loop1.before
proof { lemma_elist($K, nf, d0, lv(m_result.list@)); assert(result@.len() == lf.len()); }
@loop 1
invariant iter_ok($K, nf, d0, m_result), lv(m_result.list@) == lf, result@.len() == lf.len(), !m_result.full ==> i == m_result.index_list, m_result.full ==> i == lf.len(),
    forall|t: int| 0 <= t < i ==> (#[trigger] result@[t]).v() == isum(p, lf[t], 1),
@at loop1.begin
let ghost m = m_result.multi_index@;
proof { lemma_lv(m_result.list@, i as int); assert(m == lf[i as int]); assert(is_mi($K, nf, d0, m)); }
@loop 2
invariant k <= nf, m1@.len() == n1, m2@.len() == n2, fillf(g, m, k as int, m1@, m2@),
@at loop2.begin
proof { lemma_fillf_step(dirs1@, dirs2@, g, m, k as int, m1@, m2@); lemma_entry_le($K, nf, d0, m, k as int); }
@at loop2.after
proof {
    let c = Seq::<u32>::empty(); lemma_filled(dirs1@, dirs2@, g, m, c, m1@, m2@);
    lemma_comb_free($K, d0, dirs1@, g.f, g.s, m, c); lemma_comb_free($K, d0, dirs2@, g.f, g.s, m, c);
    assert(l1.contains(m1@)); assert(l2.contains(m2@));
    assert forall|t1: int, t2: int| 0 <= t1 < s1@.len() && 0 <= t2 < s2@.len() && #[trigger] l1[t1] == m1@ && #[trigger] l2[t2] == m2@ implies isum(p, m, 1) == s1@[t1].v() * s2@[t2].v() by { lemma_iterm_at(p, m, c, t1, t2); reveal_with_fuel(isum, 2); assert(ls[0] == c); }
}
@at loop3.before
proof { lemma_elist($K, ns, d0, lv(m_inner.list@)); }
let ghost em = Seq::<u32>::empty();
@loop 3
invariant iter_ok($K, ns, d0, m_inner), lv(m_inner.list@) == ls, result@.len() == 1, m1@.len() == n1, m2@.len() == n2, !m_inner.full ==> j == m_inner.index_list, m_inner.full ==> j == ls.len(),
    result@[0].v() == isum(p, em, j as int),
@at loop3.begin
let ghost c = m_inner.multi_index@; let ghost jj = j as int;
proof { lemma_lv(m_inner.list@, j as int); assert(c == ls[j as int]); assert(is_mi($K, ns, d0, c)); }
@loop 4
invariant k <= ns, m1@.len() == n1, m2@.len() == n2, fills(g, c, k as int, m1@, m2@),
@at loop4.begin
proof { lemma_fills_step(dirs1@, dirs2@, g, em, c, k as int, m1@, m2@); lemma_entry_le($K, ns, d0, c, k as int); }
@at loop4.after
proof {
    lemma_filled(dirs1@, dirs2@, g, em, c, m1@, m2@);
    lemma_comb_shared($K, d0, dirs1@, g.f, g.s, em, c); lemma_comb_shared($K, d0, dirs2@, g.f, g.s, em, c);
    assert(l1.contains(m1@)); assert(l2.contains(m2@));
    assert forall|t1: int, t2: int| 0 <= t1 < s1@.len() && 0 <= t2 < s2@.len() && #[trigger] l1[t1] == m1@ && #[trigger] l2[t2] == m2@ implies isum(p, em, jj + 1) == isum(p, em, jj) + s1@[t1].v() * s2@[t2].v() by { lemma_iterm_at(p, em, c, t1, t2); }
}
@at loop5.before
proof { lemma_elist($K, nf, d0, lv(m_result.list@)); lemma_elist($K, ns, d0, lv(m_inner.list@)); assert(result@.len() == lf.len()); }
@loop 5
invariant iter_ok($K, nf, d0, m_result), lv(m_result.list@) == lf, iter_ok($K, ns, d0, m_inner), lv(m_inner.list@) == ls, result@.len() == lf.len(), !m_result.full ==> i == m_result.index_list, m_result.full ==> i == lf.len(),
    forall|t: int| 0 <= t < i ==> (#[trigger] result@[t]).v() == isum(p, lf[t], ls.len() as int),
    forall|t: int| i <= t < lf.len() ==> (#[trigger] result@[t]).v() == 0real,
@at loop5.begin
let ghost m = m_result.multi_index@; let ghost res0 = result@;
proof { lemma_lv(m_result.list@, i as int); assert(m == lf[i as int]); assert(is_mi($K, nf, d0, m)); let z = m_inner.index_list as int; lemma_lv(m_inner.list@, z); assert(is_mi($K, ns, d0, ls[z])); assert(m_inner.multi_index@.len() == ns); }
@loop 6
invariant k <= nf, m1@.len() == n1, m2@.len() == n2, fillf(g, m, k as int, m1@, m2@),
@at loop6.begin
proof { lemma_fillf_step(dirs1@, dirs2@, g, m, k as int, m1@, m2@); lemma_entry_le($K, nf, d0, m, k as int); }
@loop 7
invariant iter_ok($K, ns, d0, m_inner), lv(m_inner.list@) == ls, m1@.len() == n1, m2@.len() == n2, !m_inner.full ==> j == m_inner.index_list, m_inner.full ==> j == ls.len(),
    fillf(g, m, nf, m1@, m2@), result@.len() == lf.len(), result@[i as int].v() == isum(p, m, j as int), forall|t: int| 0 <= t < lf.len() && t != i ==> #[trigger] result@[t] == res0[t],
@at loop7.begin
let ghost c = m_inner.multi_index@; let ghost jj = j as int;
proof { lemma_lv(m_inner.list@, j as int); assert(c == ls[j as int]); assert(is_mi($K, ns, d0, c)); }
@loop 8
invariant k <= ns, m1@.len() == n1, m2@.len() == n2, fillf(g, m, nf, m1@, m2@), fills(g, c, k as int, m1@, m2@),
@at loop8.begin
proof { lemma_fills_step(dirs1@, dirs2@, g, m, c, k as int, m1@, m2@); lemma_entry_le($K, ns, d0, c, k as int); }
@at loop8.after
proof {
    lemma_filled(dirs1@, dirs2@, g, m, c, m1@, m2@);
    if !l1.contains(m1@) || !l2.contains(m2@) { lemma_iterm_zero(p, m, c); }
    assert forall|t1: int, t2: int| 0 <= t1 < s1@.len() && 0 <= t2 < s2@.len() && #[trigger] l1[t1] == m1@ && #[trigger] l2[t2] == m2@ implies isum(p, m, jj + 1) == isum(p, m, jj) + s1@[t1].v() * s2@[t2].v() by { lemma_iterm_at(p, m, c, t1, t2); }
}

@fn inner(vr,vr,vu,vu,s)
@params s1, s2, dirs1, dirs2, index_set
@requires
is_name(index_set@), exists|d: int| inner_ok(kind_of(index_set@), d, s1@.len() as int, s2@.len() as int, dirs1@, dirs2@),
@ensures
forall|d: int, f: Seq<u32>, s: Seq<u32>| #[trigger] inner_ok(kind_of(index_set@), d, s1@.len() as int, s2@.len() as int, dirs1@, dirs2@) && #[trigger] split(dirs1@, dirs2@, f, s) ==> inner_vec(Inn { k: kind_of(index_set@), d, s1: s1@, s2: s2@, d1: dirs1@, d2: dirs2@, f, s }, r@),
@at entry
proof { lemma_names(index_set@); }
