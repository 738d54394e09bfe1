//! hermite.cpp
@fn hermite_eval(r,u,vr)
@params x, degree, values
@requires
degree < old(values)@.len(),
@ensures
final(values)@.len() == old(values)@.len(),
forall|i: int| 0 <= i <= degree ==> (#[trigger] final(values)@[i]).v() == herm(i as nat, x.v()),
forall|i: int| degree < i < old(values)@.len() ==> #[trigger] final(values)@[i] == old(values)@[i],
@loop 0
invariant 1 <= i <= degree, values@.len() == old(values)@.len(), degree < values@.len(),
    forall|t: int| 0 <= t <= i ==> (#[trigger] values@[t]).v() == herm(t as nat, x.v()),
    forall|t: int| degree < t < old(values)@.len() ==> #[trigger] values@[t] == old(values)@[t],
@at loop0.begin
proof { lemma_sqrt_pos(i + 1); lemma_rec(sqrt_spec((i + 1) as real), sqrt_spec((i as int) as real), x.v(), values@[i as int].v(), values@[i - 1].v()); }
