//! iterators.cpp / iterators.hpp
@fn Vector_iterator::Vector_iterator
@params dim
@requires
dim >= 0,
@ensures
r.dim == dim, r.multi_index@ == zeros(dim as int), !r.full, r.list@.len() == 0, r.hash_table@ == Map::<Seq<u8>, u32>::empty(), r.upper_bounds@.len() == 0,
@at end
proof { assert(this.multi_index@ =~= zeros(dim as int)); }

@fn Multi_index_iterator::Multi_index_iterator
@params dim
@requires
dim < 0x8000_0000,
@ensures
r.dim == dim, r.multi_index@ == zeros(dim as int), !r.full, r.list@.len() == 0, r.hash_table@ == Map::<Seq<u8>, u32>::empty(), r.index_list == 0,

@fn Vector_iterator::operator[](i)
@params i
@const
@requires
0 <= i < this.multi_index@.len(), this.multi_index@[i as int] < 0x8000_0000,
@ensures
r == this.multi_index@[i as int],

@fn Vector_iterator::reset
@params
@requires
old(this).dim == old(this).multi_index@.len(),
@ensures
same_set(*final(this), *old(this)), !final(this).full, final(this).index_list == old(this).index_list, final(this).multi_index@ == zeros(old(this).dim as int), final(this).upper_bounds == old(this).upper_bounds,
@loop 0
invariant i <= this.dim, this.dim == old(this).dim, this.dim == this.multi_index@.len(), same_set(*this, *old(this)), !this.full, this.index_list == old(this).index_list, this.upper_bounds == old(this).upper_bounds,
    forall|t: int| 0 <= t < i ==> this.multi_index@[t] == 0,
@at end
proof { assert(this.multi_index@ =~= zeros(this.dim as int)); }

@fn Multi_index_iterator::reset
@params
@requires
old(this).dim == old(this).multi_index@.len(),
@ensures
same_set(*final(this), *old(this)), !final(this).full, final(this).index_list == 0, final(this).multi_index@ == zeros(old(this).dim as int),

@fn Multi_index_iterator::increment
@params
@requires
old(this).index_list < old(this).list@.len() < 0x1_0000_0000,
@ensures
same_set(*final(this), *old(this)),
old(this).index_list + 1 == old(this).list@.len() ==> final(this).full && final(this).index_list == old(this).index_list && final(this).multi_index == old(this).multi_index,
old(this).index_list + 1 < old(this).list@.len() ==> final(this).full == old(this).full && final(this).index_list == old(this).index_list + 1 && final(this).multi_index@ == old(this).list@[old(this).index_list + 1]@,

@fn Multi_index_iterator::index
@params m_vec
@const
@requires
m_vec@.len() < 0x1_0000_0000, ht_ok(this.hash_table@, lv(this.list@)), lv(this.list@).contains(m_vec@),
@ensures
r < this.list@.len(), this.list@[r as int]@ == m_vec@, lv(this.list@)[r as int] == m_vec@,
@at entry
proof { lemma_ht_has(this.hash_table@, lv(this.list@), m_vec@); }

@fn Multi_index_iterator::has
@params m_vec
@const
@requires
m_vec@.len() < 0x1_0000_0000, ht_ok(this.hash_table@, lv(this.list@)),
@ensures
r == lv(this.list@).contains(m_vec@),
@at entry
proof { lemma_ht_has(this.hash_table@, lv(this.list@), m_vec@); }

@fn Multi_index_iterator::size
@params
@const
@requires
this.list@.len() < 0x1_0000_0000,
@ensures
r == this.list@.len(),

//! ---- the operations every index set provides, for the set $K
@fn K_iterator::s_increment
@params multi_index, degree
@requires
okp($K, old(multi_index)@.len() as int, degree as int), inset($K, degree as int, old(multi_index)@),
@ensures
!r ==> is_succ($K, degree as int, old(multi_index)@, final(multi_index)@),
r ==> is_last($K, degree as int, old(multi_index)@),
final(multi_index)@.len() == old(multi_index)@.len(),

@fn K_iterator::K_iterator
@params dim, degree
@requires
okp($K, dim as int, degree as int),
@ensures
iter_ok($K, dim as int, degree as int, r), !r.full, r.index_list == 0, r.degree == degree,
@locals m, ind, hash
@at loop0.before
proof { assert(m@ =~= zeros(dim as int)); assert(lv(this.list@) =~= Seq::<MI>::empty()); lemma_cover_init($K, dim as int, degree as int); }
let ghost mut done: Seq<MI> = lv(this.list@);
@loop 0
invariant_except_break covers_upto($K, dim as int, degree as int, done, m@),
invariant done == lv(this.list@), ind == this.list@.len(), m@.len() == dim, this.dim == dim, ht_ok(this.hash_table@, lv(this.list@)),
    this.degree == degree, this.index_list == 0, !this.full, this.multi_index@ == zeros(dim as int),
ensures valid_list($K, dim as int, degree as int, done), 0 < done.len() < 0x1_0000_0000, done[0] == zeros(dim as int),
@at loop0.begin
let ghost m0 = m@; let ghost l0 = done;
proof { lemma_cover_push($K, dim as int, degree as int, done, m@); lemma_ht_insert(this.hash_table@, done, m@, ind); }
@at loop0.end
proof { done = lv(this.list@); assert(done =~= l0.push(m0)); }
@at loop0.break
proof { lemma_cover_last($K, dim as int, degree as int, l0, m0); lemma_list_first($K, dim as int, degree as int, done); }
@at loop0.step
proof { lemma_cover_step($K, dim as int, degree as int, l0, m0, m@); }

@fn K_iterator::s_list
@params dim, degree
@requires
okp($K, dim as int, degree as int),
@ensures
valid_list($K, dim as int, degree as int, lv(r@)), 0 < r@.len() < 0x1_0000_0000,
@locals result, m
@loop 0
invariant iter_ok($K, dim as int, degree as int, m),
    !m.full ==> result@.len() == m.index_list, m.full ==> result@.len() == m.list@.len(),
    forall|t: int| 0 <= t < result@.len() ==> (#[trigger] result@[t])@ == m.list@[t]@,
@at loop0.after
proof { assert(lv(result@) =~= lv(m.list@)); }

@fn K_iterator::s_size
@params dim, degree
@requires
okp($K, dim as int, degree as int),
@ensures
forall|l: Seq<MI>| #[trigger] valid_list($K, dim as int, degree as int, l) && l.len() < 0x1_0000_0000 ==> r as int == l.len(),

@fn K_iterator::s_get_degree
@params dim, n_polys
@requires
exists|d: int, l: Seq<MI>| okd($K, dim as int, d) && valid_list($K, dim as int, d, l) && l.len() == n_polys,
@ensures
forall|d: int, l: Seq<MI>| okd($K, dim as int, d) && #[trigger] valid_list($K, dim as int, d, l) && l.len() == n_polys ==> r as int == d,
@locals function
@at closure0
requires okp($K, dim as int, cl0_0 as int), ensures size_is($K, dim as int, cl0_0 as int, cr as int)
@at entry
let ghost (d0, l0) = choose|d: int, l: Seq<MI>| okd($K, dim as int, d) && valid_list($K, dim as int, d, l) && l.len() == n_polys;
proof { assert forall|x: u32| x <= d0 implies okp($K, dim as int, x as int) by { lemma_okp_mono($K, dim as int, x as int, d0); } }
@at decl.function
proof {
    assert forall|x: u32, y: u32| x <= d0 && function.ensures((x,), y) implies y <= n_polys by { lemma_size_le($K, dim as int, d0, l0, x as int, y as int); }
    assert(hits(function, d0 as u32, n_polys));
}
@at returns
proof {
    assert forall|d: int, l: Seq<MI>| okd($K, dim as int, d) && #[trigger] valid_list($K, dim as int, d, l) && l.len() == n_polys implies r as int == d by {
        assert forall|x: u32| x <= d implies okp($K, dim as int, x as int) by { lemma_okp_mono($K, dim as int, x as int, d); }
        assert forall|x: u32, y: u32| x <= d && function.ensures((x,), y) implies y <= n_polys by { lemma_size_le($K, dim as int, d, l, x as int, y as int); }
        assert(hits(function, d as u32, n_polys));
        lemma_get_degree($K, dim as int, d, l, r as int);
    }
}

//! ---- Triangle
@fn Triangle_iterator::s_increment
@like K_iterator::s_increment K=Kind::Triangle
@locals i, dim
@loop 0
invariant_except_break multi_index@ == old(multi_index)@, tri_pos(old(multi_index)@, 0) == tri_pos(old(multi_index)@, i as int),
invariant dim == old(multi_index)@.len(), multi_index@.len() == dim, 0 <= i < dim,
ensures i == tri_pos(old(multi_index)@, 0),
    multi_index@ == (if i + 1 < dim { old(multi_index)@.update(i + 1, (old(multi_index)@[i + 1] - 1) as u32) } else { old(multi_index)@ }),
@at entry
proof { let m = old(multi_index)@; lemma_le_total(m, 0); lemma_tri_pos(m, 0); }
@at returns
proof {
    let m = old(multi_index)@; let d = degree as int; let i = tri_pos(m, 0);
    if r { lemma_tri_last(d, m); }
    else {
        if i + 1 < m.len() { lemma_psum_mono(m, i + 1, m.len() - 1); lemma_psum_mono(m, 0, i); assert(psum(m, i + 1) == psum(m, i) + m[i + 1] as int); assert(psum(m, -1) == 0); assert(psum(m, 0) == m[0] as int); }
        assert(tri_step(m, i, multi_index@)); lemma_tri_succ(d, m, i, multi_index@);
    }
}

@fn Triangle_iterator::Triangle_iterator
@like K_iterator::K_iterator K=Kind::Triangle

@fn Triangle_iterator::s_list
@like K_iterator::s_list K=Kind::Triangle

@fn Triangle_iterator::s_size
@params dim, degree
@requires
degree + dim < 0x4000_0000,
@ensures
dim >= 1 ==> forall|l: Seq<MI>| #[trigger] valid_list(Kind::Triangle, dim as int, degree as int, l) && l.len() < 0x1_0000_0000 ==> r as int == l.len(),
binom((degree + dim) as nat, dim as nat) < 0x1_0000_0000 ==> r as int == binom((degree + dim) as nat, dim as nat),
@at entry
proof {
    assert forall|l: Seq<MI>| #[trigger] valid_list(Kind::Triangle, dim as int, degree as int, l) && dim >= 1 implies l.len() == binom((degree + dim) as nat, dim as nat) by { lemma_tri_size(dim as int, degree as int, l); }
    assert(ireal(binom((degree + dim) as nat, dim as nat) as int) == ireal(binom((degree + dim) as nat, dim as nat) as int));
}

//! the dimension, from the degree and the number of multi-indices
@fn Triangle_iterator::s_find_dim
@params degree, n_polys
@requires
exists|w: int| tri_dim(w, degree as int, n_polys as int),
@ensures
tri_dim(r as int, degree as int, n_polys as int), degree >= 1 ==> forall|w: int| #[trigger] tri_dim(w, degree as int, n_polys as int) ==> r == w,
@locals dim, n_dim
@at entry
let ghost w = choose|w: int| tri_dim(w, degree as int, n_polys as int); proof { if degree == 0 { lemma_binom_diag(w as nat); } lemma_tri_dim(w, degree as int, n_polys as int); }
@loop 0
invariant 0 <= dim, n_dim == binom((degree + dim) as nat, dim as nat), dim <= w || degree == 0 && dim == 0,
@at loop0.begin
proof { lemma_binom_mono(degree as nat, dim as nat, w as nat); lemma_binom_mono(degree as nat, (dim + 1) as nat, w as nat); }
@at loop0.after
proof { lemma_binom_mono(degree as nat, dim as nat, w as nat); if degree == 0 { lemma_binom_diag(w as nat); lemma_binom_diag(dim as nat); } }
@at returns
proof { assert forall|x: int| degree >= 1 && #[trigger] tri_dim(x, degree as int, n_polys as int) implies r == x by { lemma_tri_dim(x, degree as int, n_polys as int); if x < r { lemma_binom_strict(degree as nat, x as nat, r as nat); } else if x > r { lemma_binom_strict(degree as nat, r as nat, x as nat); } } lemma_binom_mono(degree as nat, dim as nat, w as nat); }

//! position of a multi-index in the enumeration, without building it
@fn Triangle_iterator::s_index
@params m_vec
@requires
1 <= m_vec@.len(), total(m_vec@) + m_vec@.len() < 0x4000_0000,
@ensures
forall|d: int, l: Seq<MI>| d < 0x4000_0000 && #[trigger] valid_list(Kind::Triangle, m_vec@.len() as int, d, l) && inset(Kind::Triangle, d, m_vec@) && l.len() < 0x1_0000_0000
    ==> r < l.len() && l[r as int] == m_vec@,
@locals sum, result
@loop 0
invariant i <= m_vec@.len(), sum == psum(m_vec@, i - 1), tri_rank(m_vec@) < 0x1_0000_0000 ==> result as int == tri_rank_to(m_vec@, i as int),
@at loop0.before
proof { assert(psum(m_vec@, -1) == 0); }
@at loop0.begin
proof { let m = m_vec@; let n = m.len() as int; lemma_psum_mono(m, i as int, n - 1); lemma_psum_mono(m, i - 1, i as int); assert(psum(m, i as int) == psum(m, i - 1) + m[i as int] as int);
    lemma_rank_mono(m, i as int, n); lemma_rank_mono(m, i + 1, n);
    let b = binom((i + psum(m, i as int)) as nat, (i + 1) as nat) as int; assert(ireal(b) == ireal(b)); }
@at returns
proof {
    assert forall|d: int, l: Seq<MI>| d < 0x4000_0000 && #[trigger] valid_list(Kind::Triangle, m_vec@.len() as int, d, l) && inset(Kind::Triangle, d, m_vec@) && l.len() < 0x1_0000_0000
        implies r < l.len() && l[r as int] == m_vec@ by {
        assert(is_mi(Kind::Triangle, m_vec@.len() as int, d, m_vec@));
        lemma_psum_mono(m_vec@, -1, m_vec@.len() - 1);
        let j = choose|j: int| 0 <= j < l.len() && l[j] == m_vec@; lemma_tri_list_rank(m_vec@.len() as int, d, l, j);
    }
}

@fn Triangle_iterator::s_get_degree
@like K_iterator::s_get_degree K=Kind::Triangle

//! ---- Cube
@fn Cube_iterator::s_increment
@like K_iterator::s_increment K=Kind::Cube
@locals max, ind, i, dim
@loop 0
invariant dim == old(multi_index)@.len(), multi_index@ == old(multi_index)@, i <= dim, max == wmax_to(Kind::Cube, multi_index@, i as int), ind == wind_to(Kind::Cube, multi_index@, i as int),
@at loop0.after
proof { lemma_wmax_ge(Kind::Cube, old(multi_index)@, dim as int); lemma_first_inc(Kind::Cube, old(multi_index)@, 0); lemma_cr_inset(Kind::Cube, degree as int, old(multi_index)@); lemma_next_div(Kind::Cube, old(multi_index)@, ind + 1); assert(max <= degree); }
@loop 1
invariant multi_index@.len() == dim, i <= dim, first_inc(Kind::Cube, old(multi_index)@, 0) == first_inc(Kind::Cube, old(multi_index)@, i as int),
    forall|t: int| i <= t < dim ==> multi_index@[t] == old(multi_index)@[t], multi_index@[ind as int] == old(multi_index)@[ind as int],
    forall|t: int| 0 <= t < i && t != ind ==> multi_index@[t] == 0,
@at loop1.begin
proof { lemma_group_entry(Kind::Cube, old(multi_index)@, i as int); assert(multi_index@[i as int] <= degree); }
@at returns
proof {
    let m = old(multi_index)@; let d = degree as int; let k = Kind::Cube; let n = m.len() as int;
    let p = first_inc(k, m, 0); let q = next_div(k, m, wind(k, m) + 1);
    lemma_group_entry(k, m, 0);
    if p < n { lemma_group_entry(k, m, p); assert(cr_a(k, m, p, multi_index@)); lemma_cr_a(k, d, m, p, multi_index@); }
    else if q < n {
        assert(q == wind(k, m) + 1) by { assert(wmax(k, m) % 1 == 0); }
        assert(wmax(k, m) > 0) by { if wmax(k, m) == 0 { assert(wgt(k, m, q) == 0) by { assert(wgt(k, m, q) >= 0); assert(wgt(k, m, q) <= 0); } } }
        assert(cr_unit(k, n, wmax(k, m), q, multi_index@)); lemma_cr_b(k, d, m, q, multi_index@); }
    else {
        assert(wind(k, m) == n - 1) by { assert(wmax(k, m) % 1 == 0); assert(fac(k, wind(k, m) + 1) == 1); }
        if r { lemma_cr_last(k, d, m); } else { assert(cr_unit(k, n, wmax(k, m) + 1, 0, multi_index@)); lemma_cr_c(k, d, m, multi_index@); } }
}

@fn Cube_iterator::Cube_iterator
@like K_iterator::K_iterator K=Kind::Cube

@fn Cube_iterator::s_list
@like K_iterator::s_list K=Kind::Cube

//! ---- Rectangle
@fn Rectangle_iterator::s_increment
@like K_iterator::s_increment K=Kind::Rectangle
@locals max, ind, i, dim, factors, next
@loop 0
invariant i <= dim, factors@.len() == dim, forall|t: int| 0 <= t < i ==> factors@[t] as int == fac(Kind::Rectangle, t),
@loop 1
invariant dim == old(multi_index)@.len(), multi_index@ == old(multi_index)@, i <= dim, max == wmax_to(Kind::Rectangle, multi_index@, i as int), ind == wind_to(Kind::Rectangle, multi_index@, i as int),
    factors@.len() == dim, forall|t: int| 0 <= t < dim ==> factors@[t] as int == fac(Kind::Rectangle, t),
@at loop1.begin
proof { assert(fac(Kind::Rectangle, i as int) * (multi_index@[i as int] as int) <= degree); assert(wgt(Kind::Rectangle, multi_index@, i as int) == (multi_index@[i as int] as int) * (factors@[i as int] as int)) by (nonlinear_arith) requires wgt(Kind::Rectangle, multi_index@, i as int) == fac(Kind::Rectangle, i as int) * (multi_index@[i as int] as int), factors@[i as int] as int == fac(Kind::Rectangle, i as int); }
@at loop1.after
proof { lemma_wmax_ge(Kind::Rectangle, old(multi_index)@, dim as int); lemma_first_inc(Kind::Rectangle, old(multi_index)@, 0); lemma_cr_inset(Kind::Rectangle, degree as int, old(multi_index)@); lemma_next_div(Kind::Rectangle, old(multi_index)@, ind + 1); assert(max <= degree); }
@loop 2
invariant multi_index@.len() == dim, i <= dim, first_inc(Kind::Rectangle, old(multi_index)@, 0) == first_inc(Kind::Rectangle, old(multi_index)@, i as int),
    forall|t: int| i <= t < dim ==> multi_index@[t] == old(multi_index)@[t], multi_index@[ind as int] == old(multi_index)@[ind as int],
    forall|t: int| 0 <= t < i && t != ind ==> multi_index@[t] == 0,
@at loop2.begin
proof {
    let x = old(multi_index)@[i as int] as int; let f = factors@[i as int] as int;
    lemma_group_entry(Kind::Rectangle, old(multi_index)@, i as int);
    assert(fac(Kind::Rectangle, i as int) * x <= degree);
    assert((x + 1) * f == f * (x + 1) && f * (x + 1) == f * x + f && x <= f * x) by (nonlinear_arith) requires f == 1 || f == 2, x >= 0;
}
@loop 3
invariant ind < next <= dim, next_div(Kind::Rectangle, old(multi_index)@, ind + 1) == next_div(Kind::Rectangle, old(multi_index)@, next as int),
@at returns
proof {
    let m = old(multi_index)@; let d = degree as int; let k = Kind::Rectangle; let n = m.len() as int;
    let p = first_inc(k, m, 0); let q = next_div(k, m, wind(k, m) + 1); let mx = wmax(k, m);
    lemma_group_entry(k, m, 0);
    if p < n { lemma_group_entry(k, m, p); assert(cr_a(k, m, p, multi_index@)); lemma_cr_a(k, d, m, p, multi_index@); }
    else if q < n {
        assert(mx > 0) by { if mx == 0 { assert(wgt(k, m, q) == 0) by { assert(wgt(k, m, q) >= 0); assert(wgt(k, m, q) <= 0); } } }
        assert(fac(k, q) * (mx / fac(k, q)) == mx) by { if fac(k, q) == 2 { assert(mx % 2 == 0); assert(2 * (mx / 2) == mx); } else { assert(mx / 1 == mx); } }
        assert(cr_unit(k, n, mx, q, multi_index@)); lemma_cr_b(k, d, m, q, multi_index@); }
    else {
        if r { lemma_cr_last(k, d, m); } else { assert(cr_unit(k, n, mx + 1, 0, multi_index@)); lemma_cr_c(k, d, m, multi_index@); } }
}

@fn Rectangle_iterator::Rectangle_iterator
@like K_iterator::K_iterator K=Kind::Rectangle

@fn Rectangle_iterator::s_list
@like K_iterator::s_list K=Kind::Rectangle

@fn Cube_iterator::s_size
@like K_iterator::s_size K=Kind::Cube
@at entry
proof {
    lemma_boxn_pow(degree as int, dim as int);
    assert forall|l: Seq<MI>| #[trigger] valid_list(Kind::Cube, dim as int, degree as int, l) implies l.len() == npow(degree + 1, dim as nat) by { lemma_cr_size(Kind::Cube, dim as int, degree as int, l); }
    assert(ireal(npow(degree + 1, dim as nat)) == ireal(npow(degree + 1, dim as nat)));
}

@fn Cube_iterator::s_get_degree
@like K_iterator::s_get_degree K=Kind::Cube

@fn Cube_iterator::s_index
@params m_vec
@requires
1 <= m_vec@.len() < 0x4000_0000, wmax(Kind::Cube, m_vec@) < 0x4000_0000,
@ensures
forall|d: int, l: Seq<MI>| d < 0x4000_0000 && #[trigger] valid_list(Kind::Cube, m_vec@.len() as int, d, l) && inset(Kind::Cube, d, m_vec@) && l.len() < 0x1_0000_0000
    ==> r < l.len() && l[r as int] == m_vec@,
@locals max, ind, dim, i, result, factor
@at entry
let ghost w = wind(Kind::Cube, m_vec@); let ghost mx = wmax(Kind::Cube, m_vec@); let ghost small = 0 <= cube_rank(m_vec@) < 0x1_0000_0000;
proof { lemma_wmax_ge(Kind::Cube, m_vec@, m_vec@.len() as int); lemma_gsum_mono(m_vec@.len() as int, mx, w, w); lemma_dsum_mono(m_vec@, w, mx, m_vec@.len() as int, m_vec@.len() as int);
    lemma_gsum_mono(m_vec@.len() as int, mx, 0, w); lemma_dsum_mono(m_vec@, w, mx, 0, m_vec@.len() as int); assert(ireal(npow(mx, m_vec@.len())) == ireal(npow(mx, m_vec@.len()))); }
@loop 0
invariant i <= dim, dim == m_vec@.len(), max == wmax_to(Kind::Cube, m_vec@, i as int), ind == wind_to(Kind::Cube, m_vec@, i as int),
@loop 1
invariant i <= ind, small ==> result as int == gsum(dim as int, mx, i as int),
@at loop1.begin
proof { lemma_gsum_mono(dim as int, mx, i + 1, w); lemma_gsum_mono(dim as int, mx, i as int, i + 1);
    let a = npow(mx, (dim - i - 1) as nat); let b = npow(mx + 1, i as nat);
    assert(ireal(a) * ireal(b) == ireal(a * b)) by (nonlinear_arith);
    assert(ireal(result as int) + ireal(a * b) == ireal(result + a * b));
}
@loop 2
invariant i <= dim, factor as int == fprod(w, mx, i as int) % P32,
    small ==> result as int == (gsum(dim as int, mx, w) + dsum(m_vec@, w, mx, i as int)) % P32,
@at loop2.before
proof { lemma_small_mod(1, P32 as nat); lemma_gsum_mono(dim as int, mx, 0, w); if small { lemma_dsum_mono(m_vec@, w, mx, 0, dim as int); lemma_small_mod(gsum(dim as int, mx, w) as nat, P32 as nat); } }
@at loop2.begin
proof { lemma_cube_step(gsum(dim as int, mx, w) + dsum(m_vec@, w, mx, i as int), result as int, fprod(w, mx, i as int), factor as int, m_vec@[i as int] as int); lemma_mod_mul(fprod(w, mx, i as int), factor as int, radix(w, mx, i as int)); }
@at loop2.after
proof { if small { lemma_small_mod(cube_rank(m_vec@) as nat, P32 as nat); } }
@at returns
proof {
    assert forall|d: int, l: Seq<MI>| d < 0x4000_0000 && #[trigger] valid_list(Kind::Cube, m_vec@.len() as int, d, l) && inset(Kind::Cube, d, m_vec@) && l.len() < 0x1_0000_0000
        implies r < l.len() && l[r as int] == m_vec@ by {
        assert(is_mi(Kind::Cube, m_vec@.len() as int, d, m_vec@)); lemma_cr_inset(Kind::Cube, d, m_vec@);
        let j = choose|j: int| 0 <= j < l.len() && l[j] == m_vec@; lemma_cube_list_rank(m_vec@.len() as int, d, l, j);
    }
}

@fn Rectangle_iterator::s_size
@like K_iterator::s_size K=Kind::Rectangle
@locals factors, i, result
@loop 0
invariant i <= dim, factors@.len() == dim, forall|t: int| 0 <= t < i ==> factors@[t] as int == fac(Kind::Rectangle, t),
@loop 1
invariant i <= dim, factors@.len() == dim, forall|t: int| 0 <= t < dim ==> factors@[t] as int == fac(Kind::Rectangle, t),
    boxn(Kind::Rectangle, degree as int, dim as int) < 0x1_0000_0000 ==> result as int == boxn(Kind::Rectangle, degree as int, i as int),
@at loop1.begin
proof { lemma_boxn_mono(Kind::Rectangle, degree as int, i as int, dim as int); lemma_boxn_mono(Kind::Rectangle, degree as int, i + 1, dim as int); assert(degree as int / 1 == degree as int); assert(0 <= degree as int / 2 <= degree as int); }
@at returns
proof { assert forall|l: Seq<MI>| #[trigger] valid_list(Kind::Rectangle, dim as int, degree as int, l) implies l.len() == boxn(Kind::Rectangle, degree as int, dim as int) by { lemma_cr_size(Kind::Rectangle, dim as int, degree as int, l); } }

@fn Rectangle_iterator::s_get_degree
@like K_iterator::s_get_degree K=Kind::Rectangle

//! ---- Consistent hyperbolic cross
@fn Cross_iterator::s_increment
@like K_iterator::s_increment K=Kind::Cross
@locals i, dim
@at entry
let ghost m = old(multi_index)@; let ghost c = clr(m); let ghost n = m.len() as int; let ghost d = degree as int;
proof { lemma_bit_pos(m, 0); lemma_tri_pos(c, 0); lemma_crs_head(m, tri_pos(c, 0)); lemma_pprod_mono(m, 0, n - 1); if tri_pos(c, 0) + 1 < n { lemma_pprod_mono(m, tri_pos(c, 0) + 1, n - 1); } }
@loop 0
invariant i <= dim, dim == n, multi_index@.len() == n, bit_pos(m, 0) == bit_pos(m, i as int),
    forall|t: int| 0 <= t < i ==> m[t] != 0 && multi_index@[t] == c[t], forall|t: int| i <= t < n ==> multi_index@[t] == m[t],
@at loop0.after
proof { assert(bit_pos(m, 0) == n); assert(multi_index@ =~= c); lemma_pprod_mono(m, tri_pos(c, 0), n - 1); }
@loop 1
invariant_except_break multi_index@ == c, tri_pos(c, 0) == tri_pos(c, i as int),
invariant 0 <= i < dim, multi_index@.len() == n,
ensures i == tri_pos(c, 0), i == n - 1 ==> multi_index@ == c,
    i + 1 < n ==> { let q = mx1(c[0]) * (c[i + 1] as int); let f = multi_index@[i as int] as int;
        next_fac(q, mx1(c[0]), f) && multi_index@[i + 1] as int == (if f == q { 0 } else { q / f }) && forall|t: int| 0 <= t < n && t != i && t != i + 1 ==> multi_index@[t] == c[t] },
@at loop2.before
proof { assert(mx1(c[0]) * (c[i + 1] as int) >= mx1(c[0]) + 1) by (nonlinear_arith) requires mx1(c[0]) >= 1, c[i + 1] as int >= 2; }
@at loop2.begin
proof { if f == product { lemma_mod_self_0(product as int); } }
@loop 2
invariant_except_break factor == 0, forall|g: int| mx1(c[0]) < g < f ==> #[trigger] (product as int % g) != 0, mx1(c[0]) < f <= product,
ensures next_fac(product as int, mx1(c[0]), factor as int),
@at returns
proof {
    if bit_pos(m, 0) < n { assert(crs_bit(m, bit_pos(m, 0), multi_index@)); lemma_crs_bit(d, m, bit_pos(m, 0), multi_index@); }
    else {
        let i = tri_pos(c, 0);
        if i + 1 < n { assert(mx1(c[0]) * (c[i + 1] as int) >= mx1(c[0]) + 1) by (nonlinear_arith) requires mx1(c[0]) >= 1, c[i + 1] as int >= 2; }
        if r { lemma_crs_last(d, m); }
        else { assert(crs_fac(m, i, multi_index@)); lemma_crs_fac(d, m, i, multi_index@); }
    }
}

@fn Cross_iterator::Cross_iterator
@like K_iterator::K_iterator K=Kind::Cross

@fn Cross_iterator::s_list
@like K_iterator::s_list K=Kind::Cross

@fn Cross_iterator::s_size
@like K_iterator::s_size K=Kind::Cross
@at returns
proof {
    assert forall|l: Seq<MI>| #[trigger] valid_list(Kind::Cross, dim as int, degree as int, l) && l.len() < 0x1_0000_0000 implies r as int == l.len() by {
        let l2 = choose|l2: Seq<MI>| #[trigger] valid_list(Kind::Cross, dim as int, degree as int, l2) && l2.len() == r; lemma_list_unique(Kind::Cross, dim as int, degree as int, l, l2); } }

@fn Cross_iterator::s_get_degree
@params dim, n_polys
@requires
exists|d: int, l: Seq<MI>| okd(Kind::Cross, dim as int, d) && valid_list(Kind::Cross, dim as int, d, l) && l.len() == n_polys,
@ensures
forall|d: int, l: Seq<MI>| okd(Kind::Cross, dim as int, d) && #[trigger] valid_list(Kind::Cross, dim as int, d, l) && l.len() == n_polys ==> r as int == d,
@locals m
@at returns.pre
proof {
    assert(okp(Kind::Cross, dim as int, 250)); assert(valid_list(Kind::Cross, dim as int, 250, lv(m.list@)));
    assert forall|d: int, l: Seq<MI>| okd(Kind::Cross, dim as int, d) && #[trigger] valid_list(Kind::Cross, dim as int, d, l) && l.len() == n_polys implies 0 < n_polys <= m.list@.len() && m.list@[n_polys - 1]@[0] == d by {
        lemma_prefix(Kind::Cross, dim as int, d, 250, l, lv(m.list@));
        lemma_crs_top(dim as int, d); lemma_last_is_last(Kind::Cross, dim as int, d, l, crs_top(dim as int, d));
    }
    assert(is_mi(Kind::Cross, dim as int, 250, lv(m.list@)[n_polys - 1])); lemma_lv(m.list@, n_polys - 1);
}

//! ---- Non-consistent hyperbolic cross
@fn Cross_iterator_nc::s_increment
@like K_iterator::s_increment K=Kind::CrossNc
@locals product, dim, full
@at entry
let ghost m = old(multi_index)@; let ghost n = m.len() as int; let ghost d = degree as int; let ghost top = max1(d) + n - 1; let ghost z = nc_top(n, d);
proof { lemma_nc_okp(n, d); lemma_nc_total(d, m); lemma_nc_top(n, d, m); }
@loop 0
invariant 1 <= i <= dim, dim == n, full ==> m[0] as int == max1(d), full == (m[0] as int == max1(d) && forall|t: int| 1 <= t < i ==> m[t] == 1),
@at loop0.after
proof { if full { assert(m =~= z); } else { assert(m != z); } }
@loop 1
invariant_except_break nc_scan(d, m, multi_index@),
invariant multi_index@.len() == n,
ensures is_succ(Kind::CrossNc, d, m, multi_index@),
@at loop1.begin
let ghost x = multi_index@;
proof { lemma_nc_more(d, m, x); }
@loop 2
invariant product as int == pprod(multi_index@, (idx2 as int) - 1), idx2 <= n,
@at loop2.begin
proof { lemma_prod_bound(multi_index@, top, idx2 as int); lemma_npow_le(top, (idx2 + 1) as nat, n as nat); }
@at loop2.before
proof { assert forall|t: int| 0 <= t < n implies multi_index@[t] as int <= top by { lemma_le_total(multi_index@, t); } }
@at loop2.after
proof { lemma_nc_step(d, m, x, multi_index@); }

@fn Cross_iterator_nc::Cross_iterator_nc
@like K_iterator::K_iterator K=Kind::CrossNc

@fn Cross_iterator_nc::s_list
@like K_iterator::s_list K=Kind::CrossNc

@fn Cross_iterator_nc::s_size
@like K_iterator::s_size K=Kind::CrossNc
@at returns
proof {
    assert forall|l: Seq<MI>| #[trigger] valid_list(Kind::CrossNc, dim as int, degree as int, l) && l.len() < 0x1_0000_0000 implies r as int == l.len() by {
        let l2 = choose|l2: Seq<MI>| #[trigger] valid_list(Kind::CrossNc, dim as int, degree as int, l2) && l2.len() == r; lemma_list_unique(Kind::CrossNc, dim as int, degree as int, l, l2); } }

@fn Cross_iterator_nc::s_get_degree
@like K_iterator::s_get_degree K=Kind::CrossNc
@at return0
proof { if degree == 0 { lemma_nc_01(dim as int, n_polys as int); } }

//! ---- Grid
@fn Grid_iterator::Grid_iterator
@params upper_bounds
@requires
grid_ok(upper_bounds@),
@ensures
git_ok(r), !r.full, r.multi_index@ == zeros(upper_bounds@.len() as int), r.upper_bounds@ == upper_bounds@, grank(upper_bounds@, r.multi_index@, 0) == 0,
@at end
proof { lemma_grank_zero(upper_bounds@, this.multi_index@, 0); assert forall|i: int| 0 <= i < this.multi_index@.len() implies #[trigger] this.multi_index@[i] < upper_bounds@[i] by { assert(1 <= upper_bounds@[i]); } }

@fn Grid_iterator::index
@params m_vec
@const
@requires
git_ok(*this), ingrid(this.upper_bounds@, m_vec@),
@ensures
r == grank(this.upper_bounds@, m_vec@, 0),
@locals result, factor, position
@loop 0
invariant i <= this.dim, result == grank(this.upper_bounds@, m_vec@, this.dim - i), factor == gprod(this.upper_bounds@, this.dim - i),
@at loop0.begin
proof {
    let b = this.upper_bounds@; let k = this.dim - i;
    lemma_grank_bound(b, m_vec@, k - 1); lemma_grank_bound(b, m_vec@, k); lemma_gprod_le(b, k - 1); lemma_gprod_le(b, k); lemma_gprod_pos(b, k);
    let x = m_vec@[k - 1] as int; let p = gprod(b, k); assert(x * p == p * x) by (nonlinear_arith); let y = b[k - 1] as int; assert(y * p == p * y) by (nonlinear_arith);
    assert(m_vec@[k - 1] < b[k - 1]); assert(p * x <= p * y) by (nonlinear_arith) requires x <= y, p >= 1; assert(0 <= p * x) by (nonlinear_arith) requires x >= 0, p >= 1;
}

@fn Grid_iterator::increment
@params
@requires
git_ok(*old(this)),
@ensures
final(this).dim == old(this).dim, final(this).upper_bounds == old(this).upper_bounds, final(this).multi_index@.len() == old(this).multi_index@.len(),
grank(old(this).upper_bounds@, old(this).multi_index@, 0) + 1 < gprod(old(this).upper_bounds@, 0) ==> final(this).full == old(this).full && git_ok(*final(this))
    && grank(old(this).upper_bounds@, final(this).multi_index@, 0) == grank(old(this).upper_bounds@, old(this).multi_index@, 0) + 1,
grank(old(this).upper_bounds@, old(this).multi_index@, 0) + 1 >= gprod(old(this).upper_bounds@, 0) ==> final(this).full,
@locals i
@loop 0
invariant 0 <= i < this.dim, this.dim == old(this).dim, this.upper_bounds == old(this).upper_bounds, this.full == old(this).full, this.multi_index@.len() == this.dim,
    forall|j: int| 0 <= j <= i ==> this.multi_index@[j] == old(this).multi_index@[j],
    forall|j: int| i < j < this.dim ==> this.multi_index@[j] == 0,
    forall|j: int| i < j < this.dim ==> #[trigger] old(this).multi_index@[j] as int == old(this).upper_bounds@[j] as int - 1,
@at loop0.before
proof { assert(1 <= this.upper_bounds@[i as int]); }
@at loop0.begin
proof { assert(1 <= this.upper_bounds@[i - 1]); assert(1 <= this.upper_bounds@[i as int]); }
@at loop0.after
let ghost i0 = i as int;
proof { assert(1 <= this.upper_bounds@[i0]); assert(1 <= this.upper_bounds@[0]); assert(this.multi_index@[i0] < this.upper_bounds@[i0]); }
@at end
proof {
    let b = old(this).upper_bounds@; let m = old(this).multi_index@;
    if i0 == 0 && m[0] == b[0] - 1 { lemma_grank_max(b, m, 0); }
    else { assert(grid_next(b, m, i0, this.multi_index@)); lemma_grid_next(b, m, i0, this.multi_index@); lemma_grank_bound(b, this.multi_index@, 0); }
}

@fn Grid_iterator::list
@params upper_bounds
@requires
grid_ok(upper_bounds@),
@ensures
grid_list(upper_bounds@, lv(r@)),
@locals result, m
@loop 0
invariant m.upper_bounds@ == upper_bounds@,
    !m.full ==> git_ok(m) && result@.len() == grank(upper_bounds@, m.multi_index@, 0) && result@.len() < gprod(upper_bounds@, 0), m.full ==> result@.len() == gprod(upper_bounds@, 0),
    forall|t: int| 0 <= t < result@.len() ==> ingrid(upper_bounds@, (#[trigger] result@[t])@) && grank(upper_bounds@, result@[t]@, 0) == t,
@at loop0.before
proof { lemma_gprod_pos(upper_bounds@, 0); }
@at loop0.begin
proof { lemma_grank_bound(upper_bounds@, m.multi_index@, 0); }
