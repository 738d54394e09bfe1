//! project.cpp
@fn extract<u>(vu,vu)
@params input, indices
@requires
indices@.len() < 0x1_0000_0000, forall|j: int| 0 <= j < indices@.len() ==> #[trigger] indices@[j] < input@.len(),
@ensures
r@ == extr(input@, indices@),
@loop 0
invariant i <= indices@.len(), result@.len() == indices@.len(), forall|t: int| 0 <= t < i ==> result@[t] == input@[indices@[t] as int],
@at returns
proof { assert(r@ =~= extr(input@, indices@)); }

@fn project<K>(vr,u,vu)
@params input, dim, dirs
@requires
has_deg($K, dim as int, input@.len() as int), good_dirs($K, dim as int, dirs@),
@ensures
proj_vec($K, dim as int, dirs@, input@, r@),
@locals n_polys, dim_sub, degree, polys_sub, results, m, m_sub, i
@at entry
let ghost d0 = the_deg($K, dim as int, input@.len() as int); let ghost l = elist($K, dim as int, d0); let ghost ls = elist($K, dirs@.len() as int, d0);
proof { lemma_series($K, dim as int, input@.len() as int); lemma_ndirs(dim as int, dirs@); lemma_ok_sub($K, dim as int, dirs@.len() as int, d0); assert(valid_list($K, dim as int, d0, l)); }
@at loop0.before
proof { lemma_elist($K, dim as int, d0, lv(m.list@)); lemma_elist($K, dim_sub as int, d0, lv(m_sub.list@)); assert(results@.len() == ls.len()); }
@loop 0
invariant degree == d0, is_deg($K, dim as int, d0, input@.len() as int), good_dirs($K, dim as int, dirs@), iter_ok($K, dim as int, d0, m), iter_ok($K, dirs@.len() as int, d0, m_sub),
    dirs@.len() <= dim, l == elist($K, dim as int, d0), ls == elist($K, dirs@.len() as int, d0), lv(m.list@) == l, lv(m_sub.list@) == ls, results@.len() == ls.len(), input@.len() == l.len(),
    !m.full ==> i == m.index_list, m.full ==> i == l.len(),
    forall|j: int| 0 <= j < ls.len() ==> (#[trigger] results@[j]).v() == cu(l, i as int, input@, emb(dim as int, dirs@, ls[j])),
@at loop0.begin
let ghost res0 = results@; let ghost i0 = i as int; let ghost mi = m.multi_index@;
proof {
    lemma_lv(m.list@, i0); assert(mi == l[i0]); assert(is_mi($K, dim as int, d0, mi)); lemma_extr_inset($K, dim as int, d0, mi, dirs@); assert(ls.contains(extr(mi, dirs@)));
}
@at loop0.end
proof {
    assert forall|j: int| 0 <= j < ls.len() implies (#[trigger] results@[j]).v() == cu(l, i0 + 1, input@, emb(dim as int, dirs@, ls[j])) by {
        assert(is_mi($K, dirs@.len() as int, d0, ls[j]));
        let e = emb(dim as int, dirs@, ls[j]); lemma_cu_step($K, l, i0, input@, e); lemma_extr_emb($K, dim as int, dirs@, ls[j]);
        let x = extr(mi, dirs@); let t = pos(ls, x); assert(0 <= t < ls.len() && ls[t] == x); lemma_pos($K, ls, t);
        if aligned(mi, dirs@) { lemma_emb_extr($K, dim as int, dirs@, mi); if e == mi { lemma_sorted_distinct($K, ls, j, t); } }
    }
}

@fn project_vec_nd(vr,u,vu,s)
@params input, dim, dirs, index_set
@requires
is_name(index_set@), has_deg(kind_of(index_set@), dim as int, input@.len() as int), good_dirs(kind_of(index_set@), dim as int, dirs@),
@ensures
proj_vec(kind_of(index_set@), dim as int, dirs@, input@, r@),
@at entry
proof { lemma_names(index_set@); }

@fn project_vec_1d(vr,u,u,s)
@params input, dim, dir, index_set
@requires
is_name(index_set@), has_deg(kind_of(index_set@), dim as int, input@.len() as int), dir < dim,
@ensures
proj_vec(kind_of(index_set@), dim as int, seq![dir], input@, r@),
@locals dirs
@at decl.dirs
proof { assert(dirs@ =~= seq![dir]); }

@fn M::project
@params input, dim, dirs
@requires
wf_$M(*input), nr_$M(*input) == nc_$M(*input), has_deg($K, dim as int, nr_$M(*input)), good_dirs($K, dim as int, dirs@),
@ensures
wf_$M(r), proj_mat($K, dim as int, dirs@, nr_$M(*input), ent_$M(*input), nr_$M(r), nc_$M(r), ent_$M(r)),
@locals n_polys, dim_sub, degree, polys_sub, results, m1, m2, m_sub, i, j, sub1, ind1, sub2, ind2
@at entry
let ghost n0 = nr_$M(*input); let ghost d0 = the_deg($K, dim as int, n0); let ghost l = elist($K, dim as int, d0); let ghost ls = elist($K, dirs@.len() as int, d0); let ghost a = ent_$M(*input);
proof { lemma_series($K, dim as int, n0); lemma_ndirs(dim as int, dirs@); lemma_ok_sub($K, dim as int, dirs@.len() as int, d0); assert(valid_list($K, dim as int, d0, l)); }
@at loop0.before
proof { lemma_elist($K, dim as int, d0, lv(m1.list@)); lemma_elist($K, dim as int, d0, lv(m2.list@)); lemma_elist($K, dim_sub as int, d0, lv(m_sub.list@)); assert(nr_$M(results) == ls.len()); }
@loop 0
invariant iter_ok($K, dim as int, d0, m1), iter_ok($K, dim as int, d0, m2), iter_ok($K, dirs@.len() as int, d0, m_sub),
    lv(m1.list@) == l, lv(m2.list@) == l, lv(m_sub.list@) == ls, wf_$M(results), nr_$M(results) == ls.len(), nc_$M(results) == ls.len(),
    !m1.full ==> i == m1.index_list, m1.full ==> i == l.len(),
    forall|s: int, t: int| 0 <= s < ls.len() && 0 <= t < ls.len() ==> #[trigger] at_$M(results, s, t) == mcu(l, i as int, l.len() as int, a, emb(dim as int, dirs@, ls[s]), emb(dim as int, dirs@, ls[t])),
@at loop0.begin
let ghost i0 = i as int; let ghost mi = m1.multi_index@; let ghost x = extr(mi, dirs@); let ghost p1 = pos(ls, x);
proof {
    lemma_lv(m1.list@, i0); assert(mi == l[i0]); assert(is_mi($K, dim as int, d0, mi)); lemma_extr_inset($K, dim as int, d0, mi, dirs@); assert(ls.contains(x)); lemma_pos_of($K, ls, x);
    if aligned(mi, dirs@) { lemma_emb_extr($K, dim as int, dirs@, mi); }
    assert forall|s: int| 0 <= s < ls.len() implies (#[trigger] emb(dim as int, dirs@, ls[s]) == mi) == (s == p1 && aligned(mi, dirs@)) by {
        assert(is_mi($K, dirs@.len() as int, d0, ls[s])); lemma_extr_emb($K, dim as int, dirs@, ls[s]); if emb(dim as int, dirs@, ls[s]) == mi { lemma_sorted_distinct($K, ls, s, p1); }
    }
    assert forall|s: int| 0 <= s < ls.len() implies #[trigger] has_to(l, i0 + 1, emb(dim as int, dirs@, ls[s])) == (emb(dim as int, dirs@, ls[s]) == mi || has_to(l, i0, emb(dim as int, dirs@, ls[s]))) by { lemma_has_step($K, l, i0, emb(dim as int, dirs@, ls[s])); }
    lemma_has_step($K, l, i0, mi); assert(is_mi($K, dim as int, d0, l[m2.index_list as int])); lemma_lv(m2.list@, m2.index_list as int);
}
@loop 1
invariant iter_ok($K, dim as int, d0, m2), iter_ok($K, dirs@.len() as int, d0, m_sub), lv(m2.list@) == l, lv(m_sub.list@) == ls, wf_$M(results), nr_$M(results) == ls.len(), nc_$M(results) == ls.len(),
    !m2.full ==> j == m2.index_list, m2.full ==> j == l.len(),
    forall|s: int, t: int| 0 <= s < ls.len() && 0 <= t < ls.len() ==> #[trigger] at_$M(results, s, t) == (if s == p1 { mcu(l, i0 + 1, j as int, a, mi, emb(dim as int, dirs@, ls[t])) } else { mcu(l, i0, l.len() as int, a, emb(dim as int, dirs@, ls[s]), emb(dim as int, dirs@, ls[t])) }),
@at loop1.begin
let ghost j0 = j as int; let ghost mj = m2.multi_index@; let ghost y = extr(mj, dirs@); let ghost p2 = pos(ls, y); let ghost res1 = results;
proof {
    lemma_lv(m2.list@, j0); assert(mj == l[j0]); assert(is_mi($K, dim as int, d0, mj)); lemma_extr_inset($K, dim as int, d0, mj, dirs@); assert(ls.contains(y)); lemma_pos_of($K, ls, y);
    if aligned(mj, dirs@) { lemma_emb_extr($K, dim as int, dirs@, mj); }
}
@at loop1.end
proof {
    assert forall|s: int, t: int| 0 <= s < ls.len() && 0 <= t < ls.len() implies #[trigger] at_$M(results, s, t) == (if s == p1 { mcu(l, i0 + 1, j0 + 1, a, mi, emb(dim as int, dirs@, ls[t])) } else { mcu(l, i0, l.len() as int, a, emb(dim as int, dirs@, ls[s]), emb(dim as int, dirs@, ls[t])) }) by {
        assert(at_$M(res1, s, t) == at_$M(res1, s, t));
        let e = emb(dim as int, dirs@, ls[t]); assert(is_mi($K, dirs@.len() as int, d0, ls[t])); lemma_extr_emb($K, dim as int, dirs@, ls[t]); lemma_has_step($K, l, j0, e);
    }
}
@at loop1.after
proof {
    assert forall|s: int, t: int| 0 <= s < ls.len() && 0 <= t < ls.len() implies #[trigger] at_$M(results, s, t) == mcu(l, i0 + 1, l.len() as int, a, emb(dim as int, dirs@, ls[s]), emb(dim as int, dirs@, ls[t])) by {
        let e = emb(dim as int, dirs@, ls[s]); lemma_has_step($K, l, i0, e);
    }
}

@fn project<K,vvr>(vvr,u,vu)
@like M::project M=r2
@fn project<K,S>(S,u,vu)
@like M::project M=sp

@fn M::project_mat_nd
@params input, dim, dirs, index_set
@requires
is_name(index_set@), wf_$M(*input), nr_$M(*input) == nc_$M(*input), has_deg(kind_of(index_set@), dim as int, nr_$M(*input)), good_dirs(kind_of(index_set@), dim as int, dirs@),
@ensures
wf_$M(r), proj_mat(kind_of(index_set@), dim as int, dirs@, nr_$M(*input), ent_$M(*input), nr_$M(r), nc_$M(r), ent_$M(r)),
@at entry
proof { lemma_names(index_set@); }

@fn project_mat_nd<vvr>(vvr,u,vu,s)
@like M::project_mat_nd M=r2
@fn project_mat_nd<S>(S,u,vu,s)
@like M::project_mat_nd M=sp

@fn M::project_mat_1d
@params input, dim, dir, index_set
@requires
is_name(index_set@), wf_$M(*input), nr_$M(*input) == nc_$M(*input), has_deg(kind_of(index_set@), dim as int, nr_$M(*input)), dir < dim,
@ensures
wf_$M(r), proj_mat(kind_of(index_set@), dim as int, seq![dir], nr_$M(*input), ent_$M(*input), nr_$M(r), nc_$M(r), ent_$M(r)),
@locals dirs
@at decl.dirs
proof { assert(dirs@ =~= seq![dir]); }

@fn project_mat_1d<vvr>(vvr,u,u,s)
@like M::project_mat_1d M=r2
@fn project_mat_1d<S>(S,u,u,s)
@like M::project_mat_1d M=sp
