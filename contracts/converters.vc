//! python/converters.cpp
@fn to_bmat(N)
@params input
@requires
nd_ok(*input),
@ensures
input.shape().len() == 2, input.strides()[1] == 8, r.n() == input.shape()[0], r.m() == input.shape()[1],
forall|i: int, j: int| 0 <= i < r.n() && 0 <= j < r.m() ==> #[trigger] r.at(i, j) == input.at2(i, j),
@maythrow
input.shape().len() != 2 || input.strides()[1] != 8
@locals shape, strides, data, n_rows, n_cols, stride_rows, stride_cols, result, i, j
@loop 0
invariant i <= n_rows, result.n() == n_rows, result.m() == n_cols, forall|s: int, t: int| 0 <= s < i && 0 <= t < n_cols ==> #[trigger] result.at(s, t) == input.at2(s, t),
@loop 1
invariant i < n_rows, j <= n_cols, result.n() == n_rows, result.m() == n_cols, forall|s: int, t: int| 0 <= s < i && 0 <= t < n_cols ==> #[trigger] result.at(s, t) == input.at2(s, t), forall|t: int| 0 <= t < j ==> #[trigger] result.at(i as int, t) == input.at2(i as int, t),
@at loop1.begin
proof { assert(input.ptr().ok(input.off2(i as int, j as int))); lemma_i_sr(i as int, stride_rows as int); lemma_brow(i as int, input.strides()[0]); }

@fn to_boost_mat(N)
@like to_bmat(N)

@fn to_mat(N)
@params input
@requires
nd_ok(*input),
@ensures
input.shape().len() == 2, input.strides()[1] == 8, r@.len() == input.shape()[0], forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() == input.shape()[1],
forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < input.shape()[1] ==> #[trigger] r@[i]@[j].v() == input.at2(i, j),
@maythrow
input.shape().len() != 2 || input.strides()[1] != 8
@locals shape, strides, data, n_rows, n_cols, stride_rows, stride_cols, result, i
@loop 0
invariant i <= n_rows, result@.len() == n_rows, forall|s: int| 0 <= s < i ==> (#[trigger] result@[s])@.len() == n_cols, forall|s: int, t: int| 0 <= s < i && 0 <= t < n_cols ==> #[trigger] result@[s]@[t].v() == input.at2(s, t),
@at loop0.begin
proof { lemma_i_sr(i as int, stride_rows as int); lemma_brow(i as int, input.strides()[0]); if n_cols > 0 { assert(input.ptr().ok(input.off2(i as int, 0))); assert(input.ptr().ok(input.off2(i as int, n_cols - 1))); } }

@fn to_numpy<vvr>(vvr)
@params input
@requires
0 < input@.len() < 0x8000_0000, input@[0]@.len() < 0x1000_0000, wf_r2(*input),
@ensures
nd_is(r, input@.len() as int, input@[0]@.len() as int), forall|i: int, j: int| 0 <= i < input@.len() && 0 <= j < input@[0]@.len() ==> #[trigger] r.at2(i, j) == input@[i]@[j].v(),
@locals n_rows, n_cols, shape, stride, dtype, own, converted, i
@loop 0
invariant i <= n_rows, nd_is(converted, n_rows as int, n_cols as int), forall|s: int, t: int| 0 <= s < i && 0 <= t < n_cols ==> #[trigger] converted.at2(s, t) == input@[s]@[t].v(),
@at entry
proof { lemma_boff(0); }
@at loop0.begin
proof { assert(input@[i as int]@.len() == n_cols); }

@fn to_numpy<C>(C)
@params input
@requires
0 <= input.n() < 0x8000_0000, 0 <= input.m() < 0x1000_0000,
@ensures
nd_is(r, input.n(), input.m()), forall|i: int, j: int| 0 <= i < input.n() && 0 <= j < input.m() ==> #[trigger] r.at2(i, j) == input.at(i, j),
@at entry
proof { lemma_boff(input.m()); }

@fn to_numpy<B>(B)
@like to_numpy<C>(C)
