//! transform.cpp
@fn _transform<K>(u,vr,vvr,vvr,vu,b)
@params degree, input, nodes, weights, do_fourier, forward
@requires
tr_ok(Tr { k: $K, d: degree as int, v: input@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }, forward),
@ensures
tr_out(Tr { k: $K, d: degree as int, v: input@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }, forward, r@),
@locals dim, n_polys, i, j, k, n_points_tot, n_points, output, bases_functions_1d, x, max_freq, m, p, weight, val_at_point
@at entry
let ghost t = Tr { k: $K, d: degree as int, v: input@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }; let ghost nd = nodes@.len() as int; let ghost np = npts(t.nodes); let ghost ntot = gprod(np, 0);
proof { assert(t.nodes.len() == nd); assert forall|q: int| 0 <= q < nd implies (#[trigger] nodes@[q])@.len() == np[q] && nodes@[q]@ == t.nodes[q] by { assert(t.nodes[q].len() <= 0x7fff_ffff); } lemma_dens(); }
@loop 0
invariant i <= dim, n_points@.len() == nd, n_points_tot == lprod(np, i as int), forall|q: int| 0 <= q < i ==> #[trigger] n_points@[q] == np[q],
@at loop0.begin
proof { lemma_lprod_le(np, i + 1); lemma_lprod_le(np, i as int); assert(nodes@[i as int]@.len() == np[i as int]); }
@at loop0.after
proof { lemma_lprod_le(np, nd); assert(n_points@ =~= np); }
@loop 1
invariant i <= dim, rag3(bases_functions_1d, np, i as int, degree + 1), tab(bases_functions_1d, t, i as int, 0),
@at loop1.begin
let ghost b0 = bases_functions_1d;
proof { assert(nodes@[i as int]@.len() == np[i as int]); assert(t.four[i as int] == 0 || t.four[i as int] == 1 && t.d % 2 == 0); }
@at loop2.before
proof { lemma_tab_row(bases_functions_1d, b0, t, i as int, np); assert(rag3(bases_functions_1d, np, i + 1, degree + 1)); }
@loop 2
invariant i < dim, j <= np[i as int], rag3(bases_functions_1d, np, i + 1, degree + 1), tab(bases_functions_1d, t, i as int, j as int),
@at loop2.begin
let ghost b1 = bases_functions_1d;
@at loop2.end
proof {
    if t.four[i as int] == 0 { lemma_tab_cell(bases_functions_1d, b1, t, i as int, j as int, np); }
    else { assert forall|n: int| 0 <= n <= degree implies #[trigger] at3(bases_functions_1d, i as int, j as int, n) == bfun(t.four[i as int], n, t.nodes[i as int][j as int].v()) by { assert((n + 1) / 2 < degree / 2 + 1); } }
    assert(tab(bases_functions_1d, t, i as int, j + 1));
}
@at loop2.after
proof { assert(tab(bases_functions_1d, t, i + 1, 0)); }
@at loop3.before
proof { assert(tabf(bases_functions_1d, t, i as int, j as int, 1)); }
@loop 3
invariant 1 <= k <= max_freq + 1, max_freq == degree / 2, rag3(bases_functions_1d, np, i + 1, degree + 1), tabf(bases_functions_1d, t, i as int, j as int, k as int),
@at loop3.end
proof { assert(tabf(bases_functions_1d, t, i as int, j as int, k + 1)); }
@at loop4.before
let ghost l = elist($K, nd, degree as int);
proof { lemma_elist($K, nd, degree as int, lv(m.list@)); assert(n_polys == l.len()); }
@loop 4
invariant i <= ntot, iter_ok($K, nd, degree as int, m), lv(m.list@) == l, p.upper_bounds@ == np, i < ntot ==> git_ok(p) && grank(np, p.multi_index@, 0) == i,
    forward ==> output@.len() == l.len() && (forall|q: int| 0 <= q < l.len() ==> (#[trigger] output@[q]).v() == fsum(t, l[q], i as int)),
    !forward ==> output@.len() == ntot && (forall|q: int| 0 <= q < i ==> (#[trigger] output@[q]).v() == bsum(t, q, l.len() as int)) && (forall|q: int| i <= q < ntot ==> (#[trigger] output@[q]).v() == 0real),
@at loop4.begin
let ghost g = p.multi_index@; let ghost out0 = output@;
proof { lemma_gpt(np, g); let z = m.index_list as int; lemma_lv(m.list@, z); assert(is_mi($K, nd, degree as int, l[z])); assert(m.multi_index@.len() == nd); }
@loop 5
invariant j <= dim, weight.v() == wprod(t.weights, g, j as int),
@at loop5.begin
proof { let q = j as int; assert(g[q] < np[q]); assert(t.weights[q].len() >= t.nodes[q].len()); assert(nodes@[q]@.len() == np[q]); assert(np[q] <= 0x7fff_ffff); assert(weights@[q]@ == t.weights[q]); }
@loop 6
invariant j <= l.len(), iter_ok($K, nd, degree as int, m), lv(m.list@) == l, j < l.len() ==> m.index_list == j,
    forward ==> output@.len() == l.len() && (forall|q: int| 0 <= q < j ==> (#[trigger] output@[q]).v() == fsum(t, l[q], i + 1)) && (forall|q: int| j <= q < l.len() ==> #[trigger] output@[q] == out0[q]),
    !forward ==> output@.len() == ntot && output@[i as int].v() == bsum(t, i as int, j as int) && (forall|q: int| 0 <= q < ntot && q != i ==> #[trigger] output@[q] == out0[q]),
@at loop6.begin
let ghost mi = m.multi_index@;
proof { lemma_lv(m.list@, j as int); assert(mi == l[j as int]); assert(is_mi($K, nd, degree as int, mi)); }
@loop 7
invariant k <= dim, val_at_point.v() == bprod(t, g, mi, k as int),
@at loop7.begin
proof { let q = k as int; assert(g[q] < np[q]); assert(nodes@[q]@.len() == np[q]); assert(np[q] <= 0x7fff_ffff); lemma_entry_le($K, nd, degree as int, mi, q); assert(bases_functions_1d@[q]@.len() == np[q]); assert(bases_functions_1d@[q]@[g[q] as int]@.len() == degree + 1);
    assert(at3(bases_functions_1d, q, g[q] as int, mi[q] as int) == bfun(t.four[q], mi[q] as int, t.nodes[q][g[q] as int].v())); }

@fn transform(u,vr,vvr,vvr,vu,b,s)
@params degree, input, nodes, weights, do_fourier, forward, index_set
@requires
is_name(index_set@), tr_ok(Tr { k: kind_of(index_set@), d: degree as int, v: input@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }, forward),
@ensures
tr_out(Tr { k: kind_of(index_set@), d: degree as int, v: input@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }, forward, r@),
@at entry
proof { lemma_names(index_set@); }

@fn integrate(vr,vvr,vvr,vu)
@params f_grid, nodes, weights, do_fourier
@requires
tr_ok(Tr { k: Kind::Triangle, d: 0, v: f_grid@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }, true), do_fourier@.len() == nodes@.len(),
@ensures
r.v() == wsum(Tr { k: Kind::Triangle, d: 0, v: f_grid@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ }, gprod(npts(vr(nodes@)), 0)),
@locals integral, factor
@at entry
let ghost t = Tr { k: Kind::Triangle, d: 0, v: f_grid@, nodes: vr(nodes@), weights: vr(weights@), four: do_fourier@ };
proof { assert(named(s_tri(), Kind::Triangle)); lemma_names(s_tri()); }
@loop 0
invariant i <= do_fourier@.len(), factor.v() == fpow(t.four, i as int),
@at loop0.after
proof { lemma_fsum0(t, zeros(tdm(t)), gprod(npts(t.nodes), 0)); lemma_tri0(tdm(t), t); }
