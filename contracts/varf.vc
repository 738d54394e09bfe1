//! varf.cpp
@fn triple_products_fourier(i)
@params degree
@requires
0 <= degree < 0x1000_0000, degree % 2 == 0,
@ensures
box3(r, 2 * degree + 1, degree + 1, degree + 1),
forall|k: int, i: int, j: int| in3(degree as int, k, i, j) ==> #[trigger] at3(r, k, i, j) == ftrip(k, i, j),
@at entry
proof { lemma_dens(); ax_pi(); assert(sqrt_spec(2real * PI()) * (2real * PI()) != 0real) by (nonlinear_arith) requires sqrt_spec(2real * PI()) > 0real, PI() > 3real; assert(sqrt_spec(2real * PI()) * PI() != 0real) by (nonlinear_arith) requires sqrt_spec(2real * PI()) > 0real, PI() > 3real; assert(sqrt_spec(PI()) * PI() > 0real) by (nonlinear_arith) requires sqrt_spec(PI()) > 0real, PI() > 3real; lemma_fdiv(PI(), sqrt_spec(PI()) * PI()); }
@at decl.products
proof { assert(box3(products, 2 * degree + 1, degree + 1, degree + 1)); assert forall|k: int, i: int, j: int| in3(degree as int, k, i, j) implies #[trigger] at3(products, k, i, j) == 0real by { lemma_at3(products, k, i, j); } }
@at loop0.before
proof { assert(box3(products, 2 * degree + 1, degree + 1, degree + 1)); assert forall|k: int, i: int, j: int| in3(degree as int, k, i, j) implies #[trigger] at3(products, k, i, j) == (if fdone(i, j, 1) { ftrip(k, i, j) } else { 0real }) by { lemma_f00(k); lemma_ftrip(k, i, j); } }
@loop 0
invariant max_freq == degree / 2, 1 <= k2 <= max_freq + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), fst(products, degree as int, k2 as int),
@at loop0.end
proof { assert(fst(products, degree as int, k2 + 1)); }
@at loop1.before
proof { assert(box3(products, 2 * degree + 1, degree + 1, degree + 1)); assert forall|k: int, i: int, j: int| in3(degree as int, k, i, j) implies #[trigger] at3(products, k, i, j) == (if fdone2(i, j, k2 as int, 1) { ftrip(k, i, j) } else { 0real }) by { lemma_ftrip(k, i, j); if i == 0 && fq(j) == k2 || j == 0 && fq(i) == k2 { lemma_f0(k, i + j); } else if fq(i) == k2 && fq(j) == k2 { lemma_feq(k, i, j, k2 as int); } } }
@loop 1
invariant 1 <= k3 <= max_freq + 1, normalization.v() == sqrt_spec(PI()) * PI(), box3(products, 2 * degree + 1, degree + 1, degree + 1), fst2(products, degree as int, k2 as int, k3 as int),
@at loop1.end
proof { assert(box3(products, 2 * degree + 1, degree + 1, degree + 1)); assert forall|k: int, i: int, j: int| in3(degree as int, k, i, j) implies #[trigger] at3(products, k, i, j) == (if fdone2(i, j, k2 as int, k3 + 1) { ftrip(k, i, j) } else { 0real }) by { lemma_ftrip(k, i, j); if fq(i) == k2 && fq(j) == k3 && k2 != k3 { lemma_fne(k, i, j, k2 as int, k3 as int); } } }
@fn triple_products_1d(i)
@params degree
@requires
0 <= degree < 0x1000_0000,
@ensures
box3(r, 2 * degree + 1, degree + 1, degree + 1),
forall|k: int, i: int, j: int| 0 <= k <= 2 * degree && 0 <= i <= degree && 0 <= j <= degree ==> #[trigger] at3(r, k, i, j) == htrip(k, i, j),
@at decl.products
proof { assert(box3(products, 2 * degree + 1, degree + 1, degree + 1)); assert forall|k: int, i: int, j: int| 0 <= k <= 2 * degree && 0 <= i <= degree && 0 <= j <= degree implies #[trigger] at3(products, k, i, j) == 0real by { lemma_at3(products, k, i, j); } }
@loop 0
invariant 0 <= i <= degree + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1),
    forall|z: int, x: int, y: int| 0 <= z <= 2 * degree && 0 <= x <= degree && 0 <= y <= degree ==> #[trigger] at3(products, z, x, y) == (if z == y && x == 0 && y < i { 1real } else { 0real }),
@loop 1
invariant 0 <= i <= 2 * degree + 1, a@.len() == 2 * degree + 1, b@.len() == 2 * degree + 1,
    forall|t: int| 0 <= t < i ==> (#[trigger] a@[t]).v() == 1real / qs(t + 1) && b@[t].v() == qs(t) / qs(t + 1),
@at loop1.begin
proof { lemma_qs(i + 1); }
@loop 2
invariant 1 <= i <= degree + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hst(products, degree as int, i as int, i as int),
@at loop2.before
proof { reveal_with_fuel(htrip, 1); assert(hst(products, degree as int, 1, 1)); }
@at loop2.end
proof { assert(hst(products, degree as int, i + 1, i + 1)); }
@loop 3
invariant i <= j <= degree + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hst(products, degree as int, i as int, j as int),
@at loop3.end
proof {
    assert forall|z: int, x: int, y: int| 0 <= z <= 2 * degree && 0 <= x <= degree && 0 <= y <= degree implies #[trigger] at3(products, z, x, y) == (if hdone(x, y, i as int, j + 1) { ht(z, x, y) } else { 0real }) by { if x == i && y == j { lemma_terms(z, i as int, j as int); } }
}
@loop 4
invariant j - i <= k, k <= i + j - 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hrow(products, degree as int, i as int, j as int, k as int, 0, 0),
@at loop4.begin
proof { lemma_w(i as int, k as int); }
@at loop5.before
proof { assert(hrow(products, degree as int, i as int, j as int, 2 * degree + 1, 0, 0)); }
@loop 5
invariant j - i + 2 <= k, k <= i + j - 1 || i == 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hrow(products, degree as int, i as int, j as int, 2 * degree + 1, k as int, 0),
@at loop6.before
proof { assert(hrow(products, degree as int, i as int, j as int, 2 * degree + 1, 2 * degree + 1, 0)); }
@loop 6
invariant j - i + 2 <= k, 1 <= k, k <= i + j + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hrow(products, degree as int, i as int, j as int, 2 * degree + 1, 2 * degree + 1, k as int),
@at loop6.begin
proof { lemma_w(i as int, k as int); }
@at loop6.after
proof { assert(hrow(products, degree as int, i as int, j as int, 2 * degree + 1, 2 * degree + 1, 2 * degree + 1)); }
@loop 7
invariant 0 <= i <= degree + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hfin(products, degree as int, i as int, i as int, 0),
@at loop7.before
proof { assert(hfin(products, degree as int, 0, 0, 0)); }
@at loop7.end
proof { assert(hfin(products, degree as int, i + 1, i + 1, 0)); }
@loop 8
invariant i <= j <= degree + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hfin(products, degree as int, i as int, j as int, 0),
@at loop8.end
proof { 
    assert forall|z: int, x: int, y: int| 0 <= z <= 2 * degree && 0 <= x <= degree && 0 <= y <= degree implies #[trigger] at3(products, z, x, y) == (if x <= y || y < i || y == i && x < j + 1 { ht(z, x, y) } else { 0real }) by { if x == j && y == i { lemma_hsym(z, i as int, j as int); lemma_band2(z, i as int, j as int); } }
    assert(hfin(products, degree as int, i as int, j + 1, 0)); }
@loop 9
invariant j - i <= k <= i + j + 1, box3(products, 2 * degree + 1, degree + 1, degree + 1), hfin(products, degree as int, i as int, j as int, k as int),

@fn M::varfd
@params dim, degree, direction, var, do_fourier, index_set
@requires
is_name(index_set@), vd_ok(kind_of(index_set@), dim as int, degree as int, direction, do_fourier, nr_$M(*var), nc_$M(*var)),
@ensures
wf_$M(r), vd_out(kind_of(index_set@), dim as int, degree as int, direction, do_fourier, nr_$M(*var), ent_$M(*var), nr_$M(r), nc_$M(r), ent_$M(r)),
@locals m, i, multi_indices, results, row, col, m_col, value, int_m2, id, is_cos, wave_number
@at entry
let ghost k = kind_of(index_set@); let ghost l = elist(k, dim as int, degree as int); let ghost z = nzs_$M(*var); let ghost a = ent_$M(*var); let ghost dir = direction; let ghost four = do_fourier;
proof { lemma_names(index_set@); lemma_nzs_$M(*var); assert(z.len() == z.len()); }
@at decl.i
proof { assert(iter_ok(k, dim as int, degree as int, m)); lemma_elist(k, dim as int, degree as int, lv(m.list@)); }
@loop 0
invariant i <= l.len(), iter_ok(k, dim as int, degree as int, m), lv(m.list@) == l, i < l.len() ==> m.index_list == i, lv(multi_indices@) == l.subrange(0, i as int),
@at loop0.begin
let ghost mi0 = multi_indices@; proof { lemma_lv(m.list@, i as int); }
@at loop0.end
proof { assert(lv(multi_indices@) =~= lv(mi0).push(l[i as int])); assert(l.subrange(0, i + 1) =~= l.subrange(0, i as int).push(l[i as int])); }
@at loop0.after
proof { assert(l.subrange(0, l.len() as int) =~= l); }
@at decl.results
proof { assert forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() implies #[trigger] at_$M(results, s, t) == vst(l, dir, four, a, z, 0, s, t) by { lemma_vst0(l, dir, four, a, z, s, t); } }
@loop 1
invariant it1 <= end1, nr_$M(results) == l.len(), nc_$M(results) == l.len(), lv(multi_indices@) == l,
    forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() ==> #[trigger] at_$M(results, s, t) == vst(l, dir, four, a, z, rst_$M(*var, it1 as int), s, t),
@at loop1.begin
proof { assert(rst_$M(*var, it1 as int) <= rst_$M(*var, it1 + 1)); }
@loop 2
invariant it1 < end1, rst_$M(*var, it1 as int) <= it2 <= end2, end2 == rst_$M(*var, it1 + 1), end2 <= z.len(), nr_$M(results) == l.len(), nc_$M(results) == l.len(),
    forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() ==> #[trigger] at_$M(results, s, t) == vst(l, dir, four, a, z, it2 as int, s, t),
@at loop2.begin
let ghost r0 = results; let ghost n0 = it2 as int; let ghost c = z[n0].1; let ghost w = z[n0].0;
proof { lemma_lv(multi_indices@, c); assert(is_mi(k, dim as int, degree as int, l[c])); lemma_tgt(k, dim as int, degree as int, dir, four, l, c);
    assert forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() implies #[trigger] vst(l, dir, four, a, z, n0 + 1, s, t) == (if s == w && vhit(l, dir, four, c, t) { vfac(four, l[t][dir as int]) * a(w, c) } else { vst(l, dir, four, a, z, n0, s, t) }) by { lemma_vst_step(k, dim as int, degree as int, l, dir, four, a, z, n0, s, t); } }
@at decl.id
proof { assert(int_m2@ =~= vtgt(four, dir, l[c])); assert(l.contains(vtgt(four, dir, l[c]))); lemma_pos_of(k, l, vtgt(four, dir, l[c])); assert(id == pos(l, vtgt(four, dir, l[c]))); lemma_vfac(four, int_m2@[dir as int], a(w, c)); }
@at loop2.step
proof { assert forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() implies #[trigger] at_$M(results, s, t) == vst(l, dir, four, a, z, n0 + 1, s, t) by { assert(at_$M(r0, s, t) == vst(l, dir, four, a, z, n0, s, t)); } }
@at returns
proof {
    lemma_vst_end(k, dim as int, degree as int, l, dir, four, a, z, nr_$M(*var));
    assert forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() implies #[trigger] ent_$M(r)(s, t) == vent(l, dir, four, a, s, t) by { assert(at_$M(r, s, t) == vst(l, dir, four, a, z, z.len() as int, s, t)); }
}
@fn varfd<S>(u,u,u,S,u,s)
@like M::varfd M=sp
@fn varfd<B>(u,u,u,B,u,s)
@like M::varfd M=bm

@fn varfd<vvr>(u,u,u,vvr,u,s)
@params dim, degree, direction, var, do_fourier, index_set
@requires
is_name(index_set@), wf_r2(*var), vd_ok(kind_of(index_set@), dim as int, degree as int, direction, do_fourier, nr_r2(*var), nc_r2(*var)),
@ensures
wf_r2(r), vd_out(kind_of(index_set@), dim as int, degree as int, direction, do_fourier, nr_r2(*var), ent_r2(*var), nr_r2(r), nc_r2(r), ent_r2(r)),
@locals m2, i, j, results, diff_m2, is_cos, id, wave_number, factor
@at entry
let ghost k = kind_of(index_set@); let ghost l = elist(k, dim as int, degree as int); let ghost a = ent_r2(*var); let ghost dir = direction; let ghost four = do_fourier;
proof { lemma_names(index_set@); }
@at decl.i
proof { assert(iter_ok(k, dim as int, degree as int, m2)); lemma_elist(k, dim as int, degree as int, lv(m2.list@)); }
@loop 0
invariant j <= l.len(), iter_ok(k, dim as int, degree as int, m2), lv(m2.list@) == l, j < l.len() ==> m2.index_list == j, wf_r2(results), nr_r2(results) == l.len(), nc_r2(results) == l.len(),
    forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() ==> #[trigger] at_r2(results, s, t) == (if t < j { vent(l, dir, four, a, s, t) } else { 0real }),
@at loop0.begin
let ghost j0 = j as int; let ghost mj = l[j0]; let ghost r0 = results;
proof { lemma_lv(m2.list@, j as int); assert(is_mi(k, dim as int, degree as int, mj)); lemma_small(k, dim as int, degree as int, mj, dir as int); assert(m2.multi_index@ == mj);
    if mj[dir as int] > 0 { lemma_src(k, dim as int, degree as int, dir, four, mj); assert(l.contains(vsrc(four, dir, mj))); lemma_pos_of(k, l, vsrc(four, dir, mj)); } }
@at loop0.step
proof { assert forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() implies #[trigger] at_r2(results, s, t) == (if t < j0 + 1 { vent(l, dir, four, a, s, t) } else { 0real }) by { assert(at_r2(r0, s, t) == at_r2(r0, s, t)); } }
@at decl.id
proof { assert(diff_m2@ =~= vsrc(four, dir, mj)); lemma_vfac(four, mj[dir as int], 0real); }
@loop 1
invariant i <= l.len(), mj[dir as int] > 0, id == pos(l, vsrc(four, dir, mj)), wf_r2(results), nr_r2(results) == l.len(), nc_r2(results) == l.len(), m2.multi_index@ == mj,
    forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() ==> #[trigger] at_r2(results, s, t) == (if t < j || t == j && s < i { vent(l, dir, four, a, s, t) } else { 0real }),
@at loop1.begin
let ghost r1 = results;
@at loop1.end
proof { assert(factor.v() == vfac(four, mj[dir as int])); assert forall|s: int, t: int| 0 <= s < l.len() && 0 <= t < l.len() implies #[trigger] at_r2(results, s, t) == (if t < j || t == j && s < i + 1 { vent(l, dir, four, a, s, t) } else { 0real }) by { assert(at_r2(r1, s, t) == at_r2(r1, s, t)); if s != i || t != j { assert(results@[s]@[t] == r1@[s]@[t]); assert(at_r2(r1, s, t) == (if t < j || t == j && s < i { vent(l, dir, four, a, s, t) } else { 0real })); assert(at_r2(results, s, t) == at_r2(r1, s, t)); } else { assert(a(s, id as int) == var@[s]@[id as int].v()); assert(at_r2(results, s, t) == vfac(four, mj[dir as int]) * a(s, id as int)); assert(l[t] == mj); assert(vent(l, dir, four, a, s, t) == vfac(four, mj[dir as int]) * a(s, id as int)); } } }

@fn M::varf
@params degree, input, nodes, weights, do_fourier
@requires
vf_ok(vf_tr($K, degree, input@, nodes@, weights@, do_fourier@), degree as int),
@ensures
wf_$M(r), vf_out(vf_tr($K, degree, input@, nodes@, weights@, do_fourier@), degree as int, nr_$M(r), nc_$M(r), ent_$M(r)),
@locals dim, n_polys, Hf, m, norm, i, products_hermite, products_fourier, f, result, factors, d, result_iteration
@at entry
let ghost t = vf_tr($K, degree, input@, nodes@, weights@, do_fourier@); let ghost nd = nodes@.len() as int; let ghost dg = degree as int; let ghost l = elist($K, nd, dg); let ghost l2 = elist($K, nd, 2 * dg);
proof { assert(t.nodes.len() == nd); }
@at decl.norm
proof { lemma_elist($K, nd, 2 * dg, lv(m.list@)); assert(Hf@.len() == l2.len()); lemma_sub_list($K, nd, dg, l2); lemma_elist($K, nd, dg, l); assert(is_deg($K, nd, dg, n_polys as int)); lemma_deg_pos($K, nd, dg, n_polys as int); }
@loop 0
invariant i <= l2.len(), norm.v() == hsq(t, i as int),
@at loop0.begin
proof { assert(Hf@[i as int].v() == hfc(t, i as int)); }
@at decl.products_hermite
proof { assert(norm.v() == hnorm(t)); }
@loop 1
invariant_except_break idx1 <= nd, forall|q: int| 0 <= q < idx1 ==> #[trigger] do_fourier@[q] != 1,
ensures (exists|q: int| 0 <= q < nd && #[trigger] do_fourier@[q] == 1) ==> box3(products_fourier, 2 * dg + 1, dg + 1, dg + 1) && forall|k: int, i: int, j: int| in3(dg, k, i, j) ==> #[trigger] at3(products_fourier, k, i, j) == ftrip(k, i, j),
@at loop1.begin
proof { let q = idx1 as int; assert(t.four[q] == 0 || t.four[q] == 1 && dg % 2 == 0); }
@loop 2
invariant i <= l2.len(), iter_ok($K, nd, 2 * dg, m), lv(m.list@) == l2, i < l2.len() ==> m.index_list == i, wf_$M(result), nr_$M(result) == l.len(), nc_$M(result) == l.len(),
    forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < l.len() ==> #[trigger] at_$M(result, a, b) == vsum(t, l[a], l[b], i as int),
@at loop2.begin
let ghost r0 = result; let ghost i0 = i as int; let ghost mi = m.multi_index@; let ghost h = hfc(t, i0);
proof { lemma_lv(m.list@, i0); assert(mi == l2[i0]); assert(is_mi($K, nd, 2 * dg, mi)); assert(Hf@[i0].v() == h); }
@loop 3
invariant d <= dim, factors@.len() == nd, facs(factors@, t.four, mi, dg, d as int),
@at loop3.begin
let ghost f0 = factors@;
proof { let q = d as int; lemma_entry_le($K, nd, 2 * dg, mi, q); lemma_slice(products_hermite, dg, mi[q] as int); assert(t.four[q] == 0 || t.four[q] == 1); if t.four[q] == 1 { assert(do_fourier@[q] == 1); lemma_slice(products_fourier, dg, mi[q] as int); } }
@at loop3.end
proof { let q = d as int; 
    assert forall|a: int, b: int| 0 <= a <= dg && 0 <= b <= dg implies #[trigger] at_r2(factors@[q], a, b) == trip(t.four[q], mi[q] as int, a, b) by { if t.four[q] == 1 { assert(at3(products_fourier, mi[q] as int, a, b) == ftrip(mi[q] as int, a, b)); } else { assert(at3(products_hermite, mi[q] as int, a, b) == htrip(mi[q] as int, a, b)); } }
    assert forall|p: int| 0 <= p < d + 1 implies wf_r2(#[trigger] factors@[p]) && nr_r2(factors@[p]) == dg + 1 && nc_r2(factors@[p]) == dg + 1 && forall|a: int, b: int| 0 <= a <= dg && 0 <= b <= dg ==> #[trigger] at_r2(factors@[p], a, b) == trip(t.four[p], mi[p] as int, a, b) by { if p < d { assert(wf_r2(f0[p])); assert(factors@[p] == f0[p]); } }
}
@at loop3.after
proof { assert forall|j: int| 0 <= j < nd implies wf_r2(#[trigger] factors@[j]) && nr_r2(factors@[j]) == dg + 1 && nc_r2(factors@[j]) == dg + 1 by {} assert(maxes_in_r2($K, dg, factors@)); }
@at decl.result_iteration
proof { assert forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < l.len() implies #[trigger] at_$M(result_iteration, a, b) == tpr(t.four, mi, l[a], l[b], nd) by { assert(ent_$M(result_iteration)(a, b) == pma(es_r2(factors@), l[a], l[b], nd)); assert(is_mi($K, nd, dg, l[a]) && is_mi($K, nd, dg, l[b])); lemma_pma_tpr($K, nd, dg, factors@, t.four, mi, l[a], l[b], nd); } 
    assert forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < l.len() implies #[trigger] vsum(t, l[a], l[b], i0 + 1) == at_$M(r0, a, b) + at_$M(result_iteration, a, b) * h by { assert(at_$M(r0, a, b) == vsum(t, l[a], l[b], i0)); assert(at_$M(result_iteration, a, b) == tpr(t.four, mi, l[a], l[b], nd)); } }
@at loop2.step
proof { assert forall|a: int, b: int| 0 <= a < l.len() && 0 <= b < l.len() implies #[trigger] at_$M(result, a, b) == vsum(t, l[a], l[b], i0 + 1) by { assert(at_$M(r0, a, b) == vsum(t, l[a], l[b], i0)); } }

@fn varf<K,S>(u,vr,vvr,vvr,vu)
@like M::varf M=sp
@fn varf<K,B>(u,vr,vvr,vvr,vu)
@like M::varf M=bm
@fn varf<K,vvr>(u,vr,vvr,vvr,vu)
@like M::varf M=r2
@fn M::varf_n
@params degree, input, nodes, weights, do_fourier, index_set
@requires
is_name(index_set@), vf_ok(vf_tr(kind_of(index_set@), degree, input@, nodes@, weights@, do_fourier@), degree as int),
@ensures
wf_$M(r), vf_out(vf_tr(kind_of(index_set@), degree, input@, nodes@, weights@, do_fourier@), degree as int, nr_$M(r), nc_$M(r), ent_$M(r)),
@at entry
proof { lemma_names(index_set@); }
@fn varf<S>(u,vr,vvr,vvr,vu,s)
@like M::varf_n M=sp
@fn varf<B>(u,vr,vvr,vvr,vu,s)
@like M::varf_n M=bm
@fn varf<vvr>(u,vr,vvr,vvr,vu,s)
@like M::varf_n M=r2

//! templates.hpp: linear operations on nested vectors
@fn operator*<r>(vr,r)
@params vec, x
@requires
vec@.len() <= 0xffff_ffff,
@ensures
scaled_r1(vec@, x.v(), r@),
@loop 0
invariant i <= vec@.len(), result@.len() == vec@.len(), forall|t: int| 0 <= t < vec@.len() ==> (#[trigger] result@[t]).v() == (if t < i { vec@[t].v() * x.v() } else { vec@[t].v() }),
@fn operator+<r>(vr,vr)
@params v1, v2
@requires
v1@.len() <= v2@.len(), v1@.len() <= 0xffff_ffff,
@ensures
added_r1(v1@, v2@, r@),
@loop 0
invariant i <= v1@.len(), result@.len() == v1@.len(), forall|t: int| 0 <= t < i ==> (#[trigger] result@[t]).v() == v1@[t].v() + v2@[t].v(),
@fn operator*<vr>(vvr,r)
@params vec, x
@requires
small_r2(*vec),
@ensures
scaled_r2(*vec, x.v(), r),
@loop 0
invariant i <= vec@.len(), result@.len() == vec@.len(), forall|t: int| 0 <= t < vec@.len() ==> (if t < i { scaled_r1(vec@[t]@, x.v(), (#[trigger] result@[t])@) } else { result@[t] == vec@[t] }),
@at returns
proof { assert forall|s: int, t: int| 0 <= s < vec@.len() && 0 <= t < vec@[s]@.len() implies #[trigger] at_r2(r, s, t) == at_r2(*vec, s, t) * x.v() by { assert(scaled_r1(vec@[s]@, x.v(), r@[s]@)); } }
@fn operator+<vr>(vvr,vvr)
@params v1, v2
@requires
small_r2(*v1), covers_r2(*v1, *v2),
@ensures
added_r2(*v1, *v2, r),
@loop 0
invariant i <= v1@.len(), result@.len() == v1@.len(), forall|t: int| 0 <= t < i ==> added_r1(v1@[t]@, v2@[t]@, (#[trigger] result@[t])@),
@at returns
proof { assert forall|s: int, t: int| 0 <= s < v1@.len() && 0 <= t < v1@[s]@.len() implies #[trigger] at_r2(r, s, t) == at_r2(*v1, s, t) + at_r2(*v2, s, t) by { assert(added_r1(v1@[s]@, v2@[s]@, r@[s]@)); } }
