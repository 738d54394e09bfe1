//! matrix.hpp, matrix.cpp: the same operations for mat (r2), spmat (sp), boost_mat (bm)
@fn M::set
@params input, i, j, val
@requires
wf_$M(*old(input)), i < nr_$M(*old(input)), j < nc_$M(*old(input)),
@ensures
wf_$M(*final(input)), nr_$M(*final(input)) == nr_$M(*old(input)), nc_$M(*final(input)) == nc_$M(*old(input)),
forall|s: int, t: int| 0 <= s < nr_$M(*old(input)) && 0 <= t < nc_$M(*old(input)) ==> #[trigger] at_$M(*final(input), s, t) == (if s == i && t == j { val.v() } else { at_$M(*old(input), s, t) }),

@fn M::get
@params input, i, j
@requires
wf_$M(*input), i < nr_$M(*input), j < nc_$M(*input),
@ensures
r.v() == at_$M(*input, i as int, j as int),

@fn M::size1
@params input
@requires
wf_$M(*input), nr_$M(*input) < 0x1_0000_0000,
@ensures
r == nr_$M(*input),

@fn M::size2
@params input
@requires
wf_$M(*input), 0 < nr_$M(*input), nc_$M(*input) < 0x1_0000_0000,
@ensures
r == nc_$M(*input),

@fn M::construct
@params size1, size2
@ensures
wf_$M(r), nr_$M(r) == size1, size1 > 0 ==> nc_$M(r) == size2,
forall|s: int, t: int| 0 <= s < size1 && 0 <= t < size2 ==> #[trigger] at_$M(r, s, t) == 0real,

@fn set(vvr,u,u,r)
@like M::set M=r2
@fn set(S,u,u,r)
@like M::set M=sp
@fn set(B,u,u,r)
@like M::set M=bm
@fn get(vvr,u,u)
@like M::get M=r2
@fn get(S,u,u)
@like M::get M=sp
@fn get(B,u,u)
@like M::get M=bm
@fn size1(vvr)
@like M::size1 M=r2
@fn size1(S)
@like M::size1 M=sp
@fn size1(B)
@like M::size1 M=bm
@fn size2(vvr)
@like M::size2 M=r2
@fn size2(S)
@like M::size2 M=sp
@fn size2(B)
@like M::size2 M=bm
@fn construct<vvr>(u,u)
@like M::construct M=r2
@fn construct<S>(u,u)
@like M::construct M=sp
@fn construct<B>(u,u)
@like M::construct M=bm

//! conversions keep the shape and every entry
@fn M::conv
@params input
@requires
wf_$A(*input), 0 < nr_$A(*input) < 0x1_0000_0000, nc_$A(*input) < 0x1_0000_0000,
@ensures
wf_$B(r), nr_$B(r) == nr_$A(*input), nc_$B(r) == nc_$A(*input),
forall|s: int, t: int| 0 <= s < nr_$A(*input) && 0 <= t < nc_$A(*input) ==> #[trigger] at_$B(r, s, t) == at_$A(*input, s, t),

@fn M::naive
@like M::conv A=$A B=$B
@locals result
@loop 0
invariant i <= nr_$A(*input), wf_$A(*input), 0 < nr_$A(*input) < 0x1_0000_0000, nc_$A(*input) < 0x1_0000_0000, wf_$B(result), nr_$B(result) == nr_$A(*input), nc_$B(result) == nc_$A(*input),
    forall|s: int, t: int| 0 <= s < i && 0 <= t < nc_$A(*input) ==> #[trigger] at_$B(result, s, t) == at_$A(*input, s, t),
@loop 1
invariant i < nr_$A(*input), j <= nc_$A(*input), wf_$A(*input), 0 < nr_$A(*input) < 0x1_0000_0000, nc_$A(*input) < 0x1_0000_0000, wf_$B(result), nr_$B(result) == nr_$A(*input), nc_$B(result) == nc_$A(*input),
    forall|s: int, t: int| 0 <= s < nr_$A(*input) && 0 <= t < nc_$A(*input) && (s < i || s == i && t < j) ==> #[trigger] at_$B(result, s, t) == at_$A(*input, s, t),

@fn naive_convert<B,vvr>(vvr)
@like M::naive A=r2 B=bm
@fn naive_convert<vvr,B>(B)
@like M::naive A=bm B=r2
@fn naive_convert<B,S>(S)
@like M::naive A=sp B=bm
@fn convert<vvr>(vvr)
@like M::conv A=r2 B=r2
@fn convert<S>(S)
@like M::conv A=sp B=sp
@fn convert<vvr>(S)
@like M::conv A=sp B=r2
@fn convert<S>(vvr)
@like M::conv A=r2 B=sp
@fn convert<B>(vvr)
@like M::conv A=r2 B=bm
@fn convert<vvr>(B)
@like M::conv A=bm B=r2
@fn convert<B>(S)
@like M::conv A=sp B=bm
@fn convert<B>(B)
@like M::conv A=bm B=bm

@fn M::eye
@params size
@ensures
wf_$M(r), nr_$M(r) == size, size > 0 ==> nc_$M(r) == size, forall|s: int, t: int| 0 <= s < size && 0 <= t < size ==> #[trigger] at_$M(r, s, t) == (if s == t { 1real } else { 0real }),
@locals result
@loop 0
invariant i <= size, wf_$M(result), nr_$M(result) == size, size > 0 ==> nc_$M(result) == size, forall|s: int, t: int| 0 <= s < size && 0 <= t < size ==> #[trigger] at_$M(result, s, t) == (if s == t && s < i { 1real } else { 0real }),
@fn eye<vvr>(u)
@like M::eye M=r2
@fn eye<S>(u)
@like M::eye M=sp

//! sparse.cpp
@fn full(S)
@like M::conv A=sp B=r2
@locals s1, s2, result
@loop 0
invariant i <= s1, s1 == input.n(), s2 == input.m(), s1 > 0, wf_r2(result), nr_r2(result) == s1, nc_r2(result) == s2,
    forall|s: int, t: int| 0 <= s < i && 0 <= t < s2 ==> #[trigger] at_r2(result, s, t) == input.at(s, t),
@loop 1
invariant i < s1, j <= s2, s1 == input.n(), s2 == input.m(), s1 > 0, wf_r2(result), nr_r2(result) == s1, nc_r2(result) == s2,
    forall|s: int, t: int| 0 <= s < s1 && 0 <= t < s2 && (s < i || s == i && t < j) ==> #[trigger] at_r2(result, s, t) == input.at(s, t),
@at loop1.begin
let ghost old_r = result; let ghost j0 = j as int;
@at loop1.end
proof { assert forall|s: int, t: int| 0 <= s < s1 && 0 <= t < s2 && (s < i || s == i && t < j0 + 1) implies #[trigger] at_r2(result, s, t) == input.at(s, t) by { if s != i || t != j0 { assert(at_r2(result, s, t) == at_r2(old_r, s, t)); } } }

@fn to_spmat(vvr)
@like M::conv A=r2 B=sp
@ensures
forall|s: int, t: int| #[trigger] r.e().dom().contains((s, t)) ==> r.at(s, t) != 0real,
@locals result
@loop 0
invariant i <= nr_r2(*input), wf_r2(*input), 0 < nr_r2(*input) < 0x1_0000_0000, nc_r2(*input) < 0x1_0000_0000, result.n() == nr_r2(*input), result.m() == nc_r2(*input),
    forall|s: int, t: int| 0 <= s < i && 0 <= t < nc_r2(*input) ==> #[trigger] result.at(s, t) == at_r2(*input, s, t),
    forall|s: int, t: int| #[trigger] result.e().dom().contains((s, t)) ==> 0 <= s < i && 0 <= t < nc_r2(*input) && result.at(s, t) != 0real,
@loop 1
invariant i < nr_r2(*input), j <= nc_r2(*input), wf_r2(*input), 0 < nr_r2(*input) < 0x1_0000_0000, nc_r2(*input) < 0x1_0000_0000, result.n() == nr_r2(*input), result.m() == nc_r2(*input),
    forall|s: int, t: int| 0 <= s < nr_r2(*input) && 0 <= t < nc_r2(*input) && (s < i || s == i && t < j) ==> #[trigger] result.at(s, t) == at_r2(*input, s, t),
    forall|s: int, t: int| #[trigger] result.e().dom().contains((s, t)) ==> 0 <= s && (s < i || s == i && t < j) && 0 <= t < nc_r2(*input) && result.at(s, t) != 0real,
@at loop1.begin
let ghost old_r = result; let ghost j0 = j as int;
@at loop1.end
proof {
    let nc = nc_r2(*input);
    assert forall|s: int, t: int| 0 <= s < nr_r2(*input) && 0 <= t < nc && (s < i || s == i && t < j0 + 1) implies #[trigger] result.at(s, t) == at_r2(*input, s, t) by { if s != i || t != j0 { assert(result.at(s, t) == old_r.at(s, t)); } }
    assert forall|s: int, t: int| #[trigger] result.e().dom().contains((s, t)) implies 0 <= s && (s < i || s == i && t < j0 + 1) && 0 <= t < nc && result.at(s, t) != 0real by { if s != i || t != j0 { assert(old_r.e().dom().contains((s, t))); } }
}

//! compressed rows: row i holds the entries indptr[i] .. indptr[i+1]
@fn to_spmat(vr,vu,vu,u,u)
@params data, indices, indptr, size1, size2
@requires
csr_ok(data@.len() as int, indices@, indptr@, size1 as int, size2 as int),
@ensures
r.n() == size1, r.m() == size2,
forall|i: int, j: int| 0 <= i < size1 && #[trigger] in_row(indptr@, i, j) ==> r.at(i, indices@[j] as int) == data@[j].v(),
forall|i: int, c: int| #[trigger] r.e().dom().contains((i, c)) ==> 0 <= i < size1 && (exists|j: int| #[trigger] in_row(indptr@, i, j) && indices@[j] == c),
@locals result
@loop 0
invariant i <= size1, csr_ok(data@.len() as int, indices@, indptr@, size1 as int, size2 as int), result.n() == size1, result.m() == size2,
    forall|s: int, t: int| 0 <= s < i && #[trigger] in_row(indptr@, s, t) ==> result.at(s, indices@[t] as int) == data@[t].v(),
    forall|s: int, c: int| #[trigger] result.e().dom().contains((s, c)) ==> 0 <= s < i && (exists|t: int| #[trigger] in_row(indptr@, s, t) && indices@[t] == c),
@at loop0.begin
proof { assert(indptr@[i as int] <= indptr@[i + 1]); }
@loop 1
invariant i < size1, csr_ok(data@.len() as int, indices@, indptr@, size1 as int, size2 as int), result.n() == size1, result.m() == size2, indptr@[i as int] <= j <= indptr@[i + 1],
    forall|s: int, t: int| 0 <= s <= i && #[trigger] in_row(indptr@, s, t) && (s < i || t < j) ==> result.at(s, indices@[t] as int) == data@[t].v(),
    forall|s: int, c: int| #[trigger] result.e().dom().contains((s, c)) ==> 0 <= s <= i && (exists|t: int| #[trigger] in_row(indptr@, s, t) && indices@[t] == c),
@at loop1.begin
let ghost old_r = result; let ghost j0 = j as int;
proof { assert(indptr@[i + 1] <= data@.len()); assert(in_row(indptr@, i as int, j0)); }
@at loop1.end
proof {
    assert forall|s: int, t: int| 0 <= s <= i && #[trigger] in_row(indptr@, s, t) && (s < i || t < j0 + 1) implies result.at(s, indices@[t] as int) == data@[t].v() by {
        if s != i || t != j0 { assert(result.at(s, indices@[t] as int) == old_r.at(s, indices@[t] as int)) by { if s == i { assert(indices@[t] != indices@[j0]); } } }
    }
    assert forall|s: int, c: int| #[trigger] result.e().dom().contains((s, c)) implies 0 <= s <= i && (exists|t: int| #[trigger] in_row(indptr@, s, t) && indices@[t] == c) by {
        if s != i || c != indices@[j0] { assert(old_r.e().dom().contains((s, c))); }
    }
}

@fn row_col_val(S)
@params input
@requires
input.nz().len() < 0x7fff_ffff, input.n() < 0x7fff_ffff, input.m() < 0x7fff_ffff,
@ensures
r@.len() == 3, forall|c: int| 0 <= c < 3 ==> (#[trigger] r@[c])@.len() == input.nz().len(),
forall|t: int| 0 <= t < input.nz().len() ==> {
    &&& r@[0]@[t].v() == ireal((#[trigger] input.nz()[t]).0)
    &&& r@[1]@[t].v() == ireal(input.nz()[t].1)
    &&& r@[2]@[t].v() == input.at(input.nz()[t].0, input.nz()[t].1)
},
nz_ok(*input),
@locals result, index
@at entry
proof { ax_nz(*input); }
@loop 0
invariant it0 <= end0, end0 == input.n(), nz_ok(*input), input.nz().len() < 0x7fff_ffff, index == input.rs(it0 as int), rcv_to(result@, *input, index as int),
@loop 1
invariant it0 < end0, end0 == input.n(), nz_ok(*input), input.nz().len() < 0x7fff_ffff, input.rs(it0 as int) <= it1 <= end1, end1 == input.rs(it0 + 1), end1 <= input.nz().len(), index == it1, rcv_to(result@, *input, index as int),
@at loop1.begin
let ghost old_r = result@;
@at loop1.end
proof {
    let nz = input.nz();
    assert forall|t: int| 0 <= t < it1 + 1 implies result@[0]@[t].v() == ireal((#[trigger] nz[t]).0) && result@[1]@[t].v() == ireal(nz[t].1) && result@[2]@[t].v() == input.at(nz[t].0, nz[t].1) by {
        if t < it1 { assert(result@[0]@[t] == old_r[0]@[t]); assert(result@[1]@[t] == old_r[1]@[t]); assert(result@[2]@[t] == old_r[2]@[t]); }
    }
}
