//! tensorize.cpp: vectors
@fn tensorize<K>(vvr,vvu)
@params inputs, dirs
@requires
exists|d: int| tens_ok($K, d, vr(inputs@), lv(dirs@)),
@ensures
tens_vec($K, vr(inputs@), lv(dirs@), r@),
@locals dim, dims, degree, it_mul, n_polys, results, m
@at entry
let ghost ins = vr(inputs@); let ghost ds = lv(dirs@); let ghost d0 = choose|d: int| tens_ok($K, d, ins, ds); let ghost td = tdim(ds); let ghost nd = dirs@.len() as int; let ghost l = elist($K, td, d0);
proof {
    lemma_tens_len($K, d0, ins, ds, 0); assert(is_deg($K, ds[0].len() as int, d0, ins[0].len() as int)); assert(valid_list($K, ds[0].len() as int, d0, elist($K, ds[0].len() as int, d0)));
    assert forall|d: int| #[trigger] tens_ok($K, d, ins, ds) implies d == d0 by { assert(is_deg($K, ds[0].len() as int, d, ins[0].len() as int)); lemma_deg_unique($K, ds[0].len() as int, ins[0].len() as int, d, d0); }
}
@loop 0
invariant i <= nd, dims@.len() == nd, dim == sumlen(ds, i as int), forall|t: int| 0 <= t < i ==> (#[trigger] dims@[t]) == ds[t].len(),
@at loop0.begin
proof { lemma_tens_len($K, d0, ins, ds, i as int); lemma_sumlen_mono(ds, i + 1, nd); lemma_sumlen_mono(ds, i as int, i as int); }
@loop 1
invariant i <= nd, it_mul@.len() == i, forall|t: int| 0 <= t < i ==> iter_ok($K, ds[t].len() as int, d0, #[trigger] it_mul@[t]),
@at loop1.begin
proof { lemma_tens_len($K, d0, ins, ds, i as int); }
@at loop2.before
proof { lemma_elist($K, td, d0, lv(m.list@)); assert(results@.len() == l.len()); }
@loop 2
invariant iter_ok($K, td, d0, m), lv(m.list@) == l, results@.len() == l.len(), !m.full ==> i == m.index_list, m.full ==> i == l.len(),
    forall|t: int| 0 <= t < i ==> (#[trigger] results@[t]).v() == pcoef($K, d0, ins, ds, l[t], nd),
@at loop2.begin
let ghost i0 = i as int; let ghost mi = m.multi_index@; let ghost res0 = results@;
proof { lemma_lv(m.list@, i0); assert(mi == l[i0]); assert(is_mi($K, td, d0, mi)); }
@loop 3
invariant j <= nd, results@.len() == l.len(), results@[i0].v() == pcoef($K, d0, ins, ds, mi, j as int), forall|t: int| 0 <= t < i0 ==> (#[trigger] results@[t]) == res0[t],
@at loop3.begin
proof {
    let n = ds[j as int].len() as int; let x = extr(mi, ds[j as int]); let lj = elist($K, n, d0); assert(good_dirs($K, td, ds[j as int])); lemma_tens_len($K, d0, ins, ds, j as int);
    lemma_extr_inset($K, td, d0, mi, ds[j as int]); assert(is_deg($K, n, d0, ins[j as int].len() as int));
    lemma_elist($K, n, d0, lv(it_mul@[j as int].list@)); assert(lj.contains(x)); lemma_pos_of($K, lj, x); lemma_coef_at($K, n, d0, ins[j as int], pos(lj, x));
}

@fn tensorize_vecs_dirs(vvr,vvu,s)
@params inputs, dirs, index_set
@requires
is_name(index_set@), exists|d: int| tens_ok(kind_of(index_set@), d, vr(inputs@), lv(dirs@)),
@ensures
tens_vec(kind_of(index_set@), vr(inputs@), lv(dirs@), r@),
@at entry
proof { lemma_names(index_set@); }

@fn tensorize_vecs_axes(vvr,s)
@params inputs, index_set
@requires
is_name(index_set@), exists|d: int| axes_ok(kind_of(index_set@), d, vr(inputs@)),
@ensures
axes_vec(kind_of(index_set@), vr(inputs@), r@),
@locals dim, dirs
@at entry
let ghost k = kind_of(index_set@); let ghost ins = vr(inputs@); let ghost d0 = choose|d: int| axes_ok(k, d, ins);
proof { lemma_axes_ok(k, d0, ins); }
@loop 0
invariant i <= dim, dim == ins.len(), dirs@.len() == dim, forall|t: int| 0 <= t < dim ==> (#[trigger] dirs@[t])@.len() == 1, forall|t: int| 0 <= t < i ==> (#[trigger] dirs@[t])@[0] == t,
@at loop0.after
proof { assert forall|t: int| 0 <= t < dim implies (#[trigger] dirs@[t])@ =~= seq![t as u32] by {} assert(lv(dirs@) =~= axes(dim as int)); }
@at returns
proof { lemma_axes_vec(k, ins, r@); }

@fn tensorize_vec_id(vr,u,u,s)
@params input, dim, dir, index_set
@requires
is_name(index_set@), dir < dim, okd(kind_of(index_set@), dim as int, input@.len() - 1),
@ensures
({ let k = kind_of(index_set@); let d = input@.len() - 1; let l = elist(k, dim as int, d);
    valid_list(k, dim as int, d, l) && r@.len() == l.len() && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).v() == (if others0(l[i], dir as int, dim as int) { input@[l[i][dir as int] as int].v() } else { 0real }) }),
@locals degree, cst, vecs
@at returns.pre
let ghost ins = vr(vecs@); let ghost k = kind_of(index_set@); let ghost d = input@.len() - 1;
proof {
    assert(cst@.len() == input@.len()); assert forall|j: int| 0 <= j < ins.len() implies (#[trigger] ins[j]).len() == d + 1 by { assert(ins[j] == vecs@[j]@); }
    assert(axes_ok(k, d, ins));
}
@at returns
proof {
    let l = elist(k, dim as int, d);
    assert forall|i: int| 0 <= i < r@.len() implies (#[trigger] r@[i]).v() == (if others0(l[i], dir as int, dim as int) { input@[l[i][dir as int] as int].v() } else { 0real }) by {
        assert(is_mi(k, dim as int, d, l[i]));
        assert forall|q: int| 0 <= q < ins.len() && q != dir implies l[i][q] < (#[trigger] ins[q]).len() && forall|t: int| 0 <= t < ins[q].len() ==> (#[trigger] ins[q][t]).v() == (if t == 0 { 1real } else { 0real }) by { lemma_entry_le(k, dim as int, d, l[i], q); assert(ins[q] == vecs@[q]@); }
        lemma_pax_id(ins, l[i], dir as int, dim as int); assert(ins[dir as int] == input@);
    }
}

//! tensorize.cpp: matrices
@fn tensorize_dirs(vu,vu,vu,vu,vu)
@params dA, dB, result, dA_to_ind, dB_to_ind
@requires
sinc(dA@), sinc(dB@), disj(dA@, dB@), dA@.len() + dB@.len() < 0x1_0000_0000,
@ensures
is_union(final(result)@, dA@, dB@), final(dA_to_ind)@ == pofs(final(result)@, dA@), final(dB_to_ind)@ == pofs(final(result)@, dB@),
@locals sA, sB, dim, iA, iB
@loop 0
invariant i <= dim, iA + iB == i, iA <= sA, iB <= sB, result@.len() == dim, dA_to_ind@.len() == sA, dB_to_ind@.len() == sB,
    forall|s: int, t: int| 0 <= s < t < i ==> #[trigger] result@[s] < #[trigger] result@[t],
    forall|t: int| 0 <= t < i && iA < sA ==> #[trigger] result@[t] < dA@[iA as int],
    forall|t: int| 0 <= t < i && iB < sB ==> #[trigger] result@[t] < dB@[iB as int],
    forall|t: int| 0 <= t < iA ==> #[trigger] dA_to_ind@[t] < i && result@[dA_to_ind@[t] as int] == dA@[t],
    forall|t: int| 0 <= t < iB ==> #[trigger] dB_to_ind@[t] < i && result@[dB_to_ind@[t] as int] == dB@[t],
    forall|t: int| 0 <= t < i ==> in_seq(dA@, #[trigger] result@[t] as int) || in_seq(dB@, result@[t] as int),
@at loop0.begin
let ghost r0 = result@; let ghost a0 = dA_to_ind@; let ghost b0 = dB_to_ind@;
proof {
    if iA < sA { assert(in_seq(dA@, dA@[iA as int] as int)); } if iB < sB { assert(in_seq(dB@, dB@[iB as int] as int)); }
    if iA < sA && iB < sB { assert(dA@[iA as int] != dB@[iB as int]); } if iA + 1 < sA { assert(dA@[iA as int] < dA@[iA + 1]); } if iB + 1 < sB { assert(dB@[iB as int] < dB@[iB + 1]); }
}
@at loop0.after
proof {
    let d = result@; assert(sinc(d));
    assert forall|t: int| 0 <= t < sA implies in_seq(d, #[trigger] dA@[t] as int) && dA_to_ind@[t] == pofs(d, dA@)[t] by { let p = dA_to_ind@[t] as int; assert(d[p] == dA@[t]); lemma_dpos(d, p); }
    assert forall|t: int| 0 <= t < sB implies in_seq(d, #[trigger] dB@[t] as int) && dB_to_ind@[t] == pofs(d, dB@)[t] by { let p = dB_to_ind@[t] as int; assert(d[p] == dB@[t]); lemma_dpos(d, p); }
    assert(dA_to_ind@ =~= pofs(d, dA@)); assert(dB_to_ind@ =~= pofs(d, dB@));
}

@fn tensorize<K>(S,S,vu,vu)
@params A, B, dA, dB
@requires
exists|d: int| kron_ok($K, d, *A, *B, dA@, dB@),
@ensures
forall|d: int, u: Seq<u32>| #[trigger] kron_ok($K, d, *A, *B, dA@, dB@) && #[trigger] is_union(u, dA@, dB@) ==> kron_mat($K, d, u, *A, *B, dA@, dB@, r),
@locals sA, sB, dim, d, dA_to_ind, dB_to_ind, degree, n_polys, product, it_product, multi_indices_A, multi_indices_B, m_row_A, m_col_A, elem_A, multi_index_row_base, multi_index_col_base, m_row_B, m_col_B, elem_B, multi_index_row, multi_index_col
@at entry
let ghost d0 = choose|d: int| kron_ok($K, d, *A, *B, dA@, dB@); let ghost nd = dA@.len() + dB@.len(); let ghost l = elist($K, nd as int, d0); let ghost la = elist($K, dA@.len() as int, d0); let ghost lb = elist($K, dB@.len() as int, d0);
proof {
    ax_nz(*A); ax_nz(*B); assert(is_deg($K, dA@.len() as int, d0, A.n()));
    assert forall|d: int| #[trigger] kron_ok($K, d, *A, *B, dA@, dB@) implies d == d0 by { lemma_deg_unique($K, dA@.len() as int, A.n(), d, d0); }
    lemma_ok_sub($K, nd as int, dA@.len() as int, d0); lemma_ok_sub($K, nd as int, dB@.len() as int, d0);
}
@at loop0.before
let ghost pa = dA_to_ind@; let ghost pb = dB_to_ind@;
proof {
    lemma_elist($K, nd as int, d0, lv(it_product.list@)); lemma_elist($K, dA@.len() as int, d0, lv(multi_indices_A@)); lemma_elist($K, dB@.len() as int, d0, lv(multi_indices_B@));
    lemma_pofs($K, d@, dA@); lemma_pofs($K, d@, dB@); lemma_covers($K, d@, dA@, dB@);
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, 0, -1, i, j) by {
        assert(at_sp(product, i, j) == 0real); lemma_kpart_zero($K, d0, l, *A, *B, pa, pb, i, j);
    }
}
@loop 0
invariant it0 <= end0, end0 == A.n(), product.n() == l.len(), product.m() == l.len(), forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, A.rs(it0 as int), -1, i, j),
@loop 1
invariant it0 < end0, A.rs(it0 as int) <= it1 <= end1, end1 == A.rs(it0 + 1), end1 <= A.nz().len(), product.n() == l.len(), product.m() == l.len(), forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, it1 as int, -1, i, j),
@at loop1.begin
let ghost ta = it1 as int; let ghost na = A.nz()[ta];
proof { lemma_lv(multi_indices_A@, na.0); lemma_lv(multi_indices_A@, na.1); assert(is_mi($K, dA@.len() as int, d0, la[na.0]) && is_mi($K, dA@.len() as int, d0, la[na.1])); }
@loop 2
invariant i <= sA, multi_index_row_base@.len() == nd, multi_index_col_base@.len() == nd, forall|t: int| 0 <= t < i ==> multi_index_row_base@[#[trigger] pa[t] as int] == la[na.0][t] && multi_index_col_base@[pa[t] as int] == la[na.1][t],
@at loop2.begin
proof { assert(pa[i as int] < nd); assert forall|t: int| 0 <= t < i implies #[trigger] pa[t] != pa[i as int] by { assert(pa[t] < pa[i as int]); } }
@at loop3.before
proof { assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, ta, 0, i, j) by { lemma_kpart_open($K, d0, l, *A, *B, pa, pb, ta, i, j); } }
@loop 3
invariant it3 <= end3, end3 == B.n(), product.n() == l.len(), product.m() == l.len(), forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, ta, B.rs(it3 as int), i, j),
@loop 4
invariant it3 < end3, B.rs(it3 as int) <= it4 <= end4, end4 == B.rs(it3 + 1), end4 <= B.nz().len(), product.n() == l.len(), product.m() == l.len(), forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() ==> #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, ta, it4 as int, i, j),
@at loop4.begin
let ghost tb = it4 as int; let ghost nb = B.nz()[tb]; let ghost pr0 = product;
proof { lemma_lv(multi_indices_B@, nb.0); lemma_lv(multi_indices_B@, nb.1); assert(is_mi($K, dB@.len() as int, d0, lb[nb.0]) && is_mi($K, dB@.len() as int, d0, lb[nb.1])); }
@loop 5
invariant i <= sB, multi_index_row@.len() == nd, multi_index_col@.len() == nd, forall|t: int| 0 <= t < sA ==> multi_index_row@[#[trigger] pa[t] as int] == la[na.0][t] && multi_index_col@[pa[t] as int] == la[na.1][t], forall|t: int| 0 <= t < i ==> multi_index_row@[#[trigger] pb[t] as int] == lb[nb.0][t] && multi_index_col@[pb[t] as int] == lb[nb.1][t],
@at loop5.begin
proof { assert(pb[i as int] < nd); assert forall|t: int| 0 <= t < i implies #[trigger] pb[t] != pb[i as int] by { assert(pb[t] < pb[i as int]); } assert forall|t: int| 0 <= t < sA implies #[trigger] pa[t] != pb[i as int] by {} }
@at loop5.after
let ghost mr = multi_index_row@; let ghost mc = multi_index_col@;
proof {
    assert(extr(mr, pa) =~= la[na.0]); assert(extr(mc, pa) =~= la[na.1]); assert(extr(mr, pb) =~= lb[nb.0]); assert(extr(mc, pb) =~= lb[nb.1]);
    lemma_kpart_step($K, nd as int, d0, *A, *B, pa, pb, ta, tb, mr, mc);
}
@at loop4.end
proof {
    let mr = multi_index_row@; let mc = multi_index_col@;
    assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, ta, tb + 1, i, j) by {
        assert(at_sp(product, i, j) == product.at(i, j) && at_sp(pr0, i, j) == pr0.at(i, j));
        if l[i] == mr { assert(l.contains(mr)); lemma_pos_of($K, l, mr); } if l[j] == mc { assert(l.contains(mc)); lemma_pos_of($K, l, mc); }
    }
}
@at loop3.after
proof { assert forall|i: int, j: int| 0 <= i < l.len() && 0 <= j < l.len() implies #[trigger] product.at(i, j) == kpart($K, d0, l, *A, *B, pa, pb, ta + 1, -1, i, j) by { lemma_kpart_open($K, d0, l, *A, *B, pa, pb, ta, i, j); } }
@at returns
proof {
    lemma_kron_done($K, d0, d@, *A, *B, dA@, dB@, r);
    assert forall|e: int, u: Seq<u32>| #[trigger] kron_ok($K, e, *A, *B, dA@, dB@) && #[trigger] is_union(u, dA@, dB@) implies kron_mat($K, e, u, *A, *B, dA@, dB@, r) by { lemma_union_unique(u, d@, dA@, dB@); }
}

@fn TMD
@params inputs, dirs
@requires
exists|d: int| mdirs_ok($K, d, lv(dirs@)) && mats_in_$A($K, d, lv(dirs@), inputs@),
@ensures
forall|d: int| mdirs_ok($K, d, lv(dirs@)) && #[trigger] mats_in_$A($K, d, lv(dirs@), inputs@) ==> wf_$B(r) && mats_out($K, d, lv(dirs@), es_$A(inputs@), nr_$B(r), nc_$B(r), ent_$B(r)),
@locals dim, dims, sp_inputs, result, d, d_old, _a1, _a2
@at entry
let ghost ds = lv(dirs@); let ghost d0 = choose|d: int| mdirs_ok($K, d, ds) && mats_in_$A($K, d, ds, inputs@); let ghost nd = dirs@.len() as int; let ghost es = es_$A(inputs@);
proof {
    assert(is_deg($K, ds[0].len() as int, d0, nr_$A(inputs@[0])));
    assert forall|d: int| mdirs_ok($K, d, ds) && #[trigger] mats_in_$A($K, d, ds, inputs@) implies d == d0 by { assert(is_deg($K, ds[0].len() as int, d, nr_$A(inputs@[0]))); lemma_deg_unique($K, ds[0].len() as int, nr_$A(inputs@[0]), d, d0); }
}
@loop 0
invariant i <= nd, dims@.len() == nd, dim == sumlen(ds, i as int),
@at loop0.begin
proof { lemma_sumlen_mono(ds, i + 1, nd); lemma_sumlen_mono(ds, i as int, i as int); assert(ds[i as int].len() == dirs@[i as int]@.len()); }
@loop 1
invariant i <= nd, sp_inputs@.len() == nd, forall|t: int| 0 <= t < i ==> holds($K, ds[t].len() as int, d0, es[t], #[trigger] sp_inputs@[t]),
@at loop1.begin
let ghost sp0 = sp_inputs@; proof { lemma_deg_pos($K, ds[i as int].len() as int, d0, nr_$A(inputs@[i as int])); }
@at loop1.end
proof {
    let t = i as int; let b = sp_inputs@[t]; assert(ds[t].len() >= 1); 
    assert forall|p: int, q: int| 0 <= p < b.n() && 0 <= q < b.n() implies #[trigger] b.at(p, q) == es[t](p, q) by { assert(at_sp(b, p, q) == at_$A(inputs@[t], p, q)); }
    assert(holds($K, ds[t].len() as int, d0, es[t], b));
}
@at loop2.before
proof { lemma_tm_init($K, d0, es, ds, result); }
@loop 2
invariant i <= nd - 1, tstate($K, d0, es, ds, i + 1, d@, result),
@at loop2.begin
let ghost r0 = result; let ghost u0 = d@;
proof { lemma_tm_ok($K, d0, es, ds, i + 1, u0, r0, sp_inputs@[i + 1]); }
@at loop2.end
proof { lemma_tm_step($K, d0, es, ds, i + 1, u0, r0, sp_inputs@[i + 1], d@, result); }
@at loop2.after
let ghost res = result; proof { lemma_tm_done($K, d0, es, ds, d@, res); lemma_deg_pos($K, tdim(ds), d0, res.n()); }
@at returns
proof { assert(mats_out($K, d0, ds, es, nr_$B(r), nc_$B(r), ent_$B(r))) by { let l = elist($K, tdim(ds), d0); assert forall|i: int, j: int| 0 <= i < nr_$B(r) && 0 <= j < nc_$B(r) implies #[trigger] ent_$B(r)(i, j) == pmc($K, d0, es, ds, l[i], l[j], nd) by { assert(at_$B(r, i, j) == at_sp(result, i, j)); assert(ent_sp(result)(i, j) == result.at(i, j)); } } }

@fn _tensorize_mats_dirs<K,vvr,vvr>(vvvr,vvu)
@like TMD A=r2 B=r2
@fn _tensorize_mats_dirs<K,vvr,S>(vS,vvu)
@like TMD A=sp B=r2
@fn _tensorize_mats_dirs<K,S,vvr>(vvvr,vvu)
@like TMD A=r2 B=sp
@fn _tensorize_mats_dirs<K,S,S>(vS,vvu)
@like TMD A=sp B=sp
@fn _tensorize_mats_dirs<K,B,vvr>(vvvr,vvu)
@like TMD A=r2 B=bm

@fn TMA
@params inputs
@requires
exists|d: int| maxes_in_$A($K, d, inputs@),
@ensures
forall|d: int| #[trigger] maxes_in_$A($K, d, inputs@) ==> wf_$B(r) && maxes_out($K, d, es_$A(inputs@), nr_$B(r), nc_$B(r), ent_$B(r)),
@locals dim, dirs
@at entry
let ghost d0 = choose|d: int| maxes_in_$A($K, d, inputs@); let ghost n0 = inputs@.len() as int;
proof { lemma_maxes_ok($K, d0, n0); assert(nr_$A(inputs@[0]) == d0 + 1); assert forall|d: int| #[trigger] maxes_in_$A($K, d, inputs@) implies d == d0 by { assert(nr_$A(inputs@[0]) == d + 1); } assert forall|j: int| 0 <= j < n0 implies #[trigger] axes(n0)[j].len() == 1 by {} assert(mats_in_$A($K, d0, axes(n0), inputs@)); }
@loop 0
invariant i <= dim, dim == n0, dirs@.len() == dim, forall|t: int| 0 <= t < dim ==> (#[trigger] dirs@[t])@.len() == 1, forall|t: int| 0 <= t < i ==> (#[trigger] dirs@[t])@[0] == t,
@at loop0.after
proof { assert forall|t: int| 0 <= t < dim implies (#[trigger] dirs@[t])@ =~= seq![t as u32] by {} assert(lv(dirs@) =~= axes(dim as int)); }
@at returns
proof { lemma_maxes_out($K, d0, es_$A(inputs@), nr_$B(r), nc_$B(r), ent_$B(r)); }

@fn _tensorize_mats_axes<K,vvr,vvr>(vvvr)
@like TMA A=r2 B=r2
@fn _tensorize_mats_axes<K,vvr,S>(vS)
@like TMA A=sp B=r2
@fn _tensorize_mats_axes<K,S,vvr>(vvvr)
@like TMA A=r2 B=sp
@fn _tensorize_mats_axes<K,S,S>(vS)
@like TMA A=sp B=sp
@fn _tensorize_mats_axes<K,B,vvr>(vvvr)
@like TMA A=r2 B=bm

@fn TMDN
@params inputs, dirs, index_set
@requires
is_name(index_set@), exists|d: int| mdirs_ok(kind_of(index_set@), d, lv(dirs@)) && mats_in_$A(kind_of(index_set@), d, lv(dirs@), inputs@),
@ensures
forall|d: int| mdirs_ok(kind_of(index_set@), d, lv(dirs@)) && #[trigger] mats_in_$A(kind_of(index_set@), d, lv(dirs@), inputs@) ==> wf_$B(r) && mats_out(kind_of(index_set@), d, lv(dirs@), es_$A(inputs@), nr_$B(r), nc_$B(r), ent_$B(r)),
@at entry
proof { lemma_names(index_set@); }
@fn tensorize_mats_dirs<vvr,vvr>(vvvr,vvu,s)
@like TMDN A=r2 B=r2
@fn tensorize_mats_dirs<vvr,S>(vS,vvu,s)
@like TMDN A=sp B=r2
@fn tensorize_mats_dirs<S,vvr>(vvvr,vvu,s)
@like TMDN A=r2 B=sp
@fn tensorize_mats_dirs<S,S>(vS,vvu,s)
@like TMDN A=sp B=sp

@fn TMAN
@params inputs, index_set
@requires
is_name(index_set@), exists|d: int| maxes_in_$A(kind_of(index_set@), d, inputs@),
@ensures
forall|d: int| #[trigger] maxes_in_$A(kind_of(index_set@), d, inputs@) ==> wf_$B(r) && maxes_out(kind_of(index_set@), d, es_$A(inputs@), nr_$B(r), nc_$B(r), ent_$B(r)),
@at entry
proof { lemma_names(index_set@); }
@fn tensorize_mats_axes<vvr,vvr>(vvvr,s)
@like TMAN A=r2 B=r2
@fn tensorize_mats_axes<vvr,S>(vS,s)
@like TMAN A=sp B=r2
@fn tensorize_mats_axes<S,vvr>(vvvr,s)
@like TMAN A=r2 B=sp
@fn tensorize_mats_axes<S,S>(vS,s)
@like TMAN A=sp B=sp

@fn TMID
@params input, dim, dir, index_set
@requires
is_name(index_set@), dir < dim, wf_$A(*input), nr_$A(*input) >= 1, nr_$A(*input) == nc_$A(*input), okd(kind_of(index_set@), dim as int, nr_$A(*input) - 1),
@ensures
({ let k = kind_of(index_set@); let d = nr_$A(*input) - 1; let l = elist(k, dim as int, d);
    &&& wf_$B(r) && is_deg(k, dim as int, d, nr_$B(r)) && nr_$B(r) == nc_$B(r)
    &&& forall|i: int, j: int| 0 <= i < nr_$B(r) && 0 <= j < nc_$B(r) ==> #[trigger] at_$B(r, i, j) == (if eq_but(l[i], l[j], dir as int, dim as int) { at_$A(*input, l[i][dir as int] as int, l[j][dir as int] as int) } else { 0real }) }),
@locals degree, eye, mats
@at returns.pre
let ghost es = es_$B(mats@); let ghost k = kind_of(index_set@); let ghost d = nr_$A(*input) - 1;
proof {
    assert forall|j: int| 0 <= j < mats@.len() implies wf_$B(#[trigger] mats@[j]) && nr_$B(mats@[j]) == d + 1 && nc_$B(mats@[j]) == d + 1 && (j != dir ==> is_eye(es[j], d)) by {
        if j != dir { assert forall|s: int, t: int| 0 <= s <= d && 0 <= t <= d implies #[trigger] es[j](s, t) == (if s == t { 1real } else { 0real }) by { assert(at_$B(mats@[j], s, t) == at_$B(eye, s, t)); } }
    }
    assert(maxes_in_$B(k, d, mats@));
}
@at returns
proof {
    let l = elist(k, dim as int, d);
    assert forall|i: int, j: int| 0 <= i < nr_$B(r) && 0 <= j < nc_$B(r) implies #[trigger] at_$B(r, i, j) == (if eq_but(l[i], l[j], dir as int, dim as int) { at_$A(*input, l[i][dir as int] as int, l[j][dir as int] as int) } else { 0real }) by {
        assert(is_mi(k, dim as int, d, l[i]) && is_mi(k, dim as int, d, l[j])); assert(ent_$B(r)(i, j) == pma(es, l[i], l[j], dim as int));
        assert forall|q: int| 0 <= q < dim implies #[trigger] l[i][q] <= d && l[j][q] <= d by { lemma_entry_le(k, dim as int, d, l[i], q); lemma_entry_le(k, dim as int, d, l[j], q); }
        assert forall|q: int| 0 <= q < es.len() && q != dir implies is_eye(#[trigger] es[q], d) by { assert(wf_$B(mats@[q])); }
        lemma_pma_id(d, es, l[i], l[j], dir as int, dim as int);
        lemma_entry_le(k, dim as int, d, l[i], dir as int); lemma_entry_le(k, dim as int, d, l[j], dir as int);
        assert(at_$B(mats@[dir as int], l[i][dir as int] as int, l[j][dir as int] as int) == at_$A(*input, l[i][dir as int] as int, l[j][dir as int] as int));
    }
}
@fn tensorize_mat_id<vvr,vvr>(vvr,u,u,s)
@like TMID A=r2 B=r2
@fn tensorize_mat_id<vvr,S>(S,u,u,s)
@like TMID A=sp B=r2
@fn tensorize_mat_id<S,vvr>(vvr,u,u,s)
@like TMID A=r2 B=sp
@fn tensorize_mat_id<S,S>(S,u,u,s)
@like TMID A=sp B=sp
