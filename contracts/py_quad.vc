//! hermipy/quad.py
@fn py::quad::Quad::project
@params self, directions
@types quad, list:int -> quad
@locals nodes=list:vec, weights=list:vec
@requires
wfq(p_self.v()), forall|i: int| 0 <= i < p_directions.v().len() ==> p_self.v().position.dirs.contains(#[trigger] p_directions.v()[i]),
@ensures
r.v().position.dirs == p_directions.v(), r.v().nodes.len() == p_directions.v().len(), r.v().weights.len() == p_directions.v().len(), r.v().factor.sym == fun_projected(p_self.v().factor, p_directions.v()).sym,
forall|i: int| 0 <= i < p_directions.v().len() ==> pick_at(r.v(), i, p_self.v(), #[trigger] p_directions.v()[i]),
@loop 0
invariant nodes.v().len() == loop0_k, weights.v().len() == loop0_k, loop0_l.v() == p_directions.v(),
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] nodes.v()[i] == p_self.v().nodes[idx(p_self.v().position.dirs, p_directions.v()[i])],
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] weights.v()[i] == p_self.v().weights[idx(p_self.v().position.dirs, p_directions.v()[i])],
@fn py::quad::Quad::project__int
@params self, directions
@types quad, int -> quad
@locals nodes=list:vec, weights=list:vec
@requires
wfq(p_self.v()), p_self.v().position.dirs.contains(p_directions.v()),
@ensures
r.v().position.dirs == seq![p_directions.v()], r.v().nodes.len() == 1, r.v().weights.len() == 1, r.v().factor.sym == fun_projected(p_self.v().factor, seq![p_directions.v()]).sym,
pick_at(r.v(), 0, p_self.v(), p_directions.v()),
@loop 0
invariant nodes.v().len() == loop0_k, weights.v().len() == loop0_k, loop0_l.v() == seq![p_directions.v()],
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] nodes.v()[i] == p_self.v().nodes[idx(p_self.v().position.dirs, p_directions.v())],
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] weights.v()[i] == p_self.v().weights[idx(p_self.v().position.dirs, p_directions.v())],
@fn py::quad::Quad::tensorize
@params args
@locals nodes=list:vec, weights=list:vec
@types list:quad -> quad
@requires
forall|i: int| 0 <= i < p_args.v().len() ==> wfq(#[trigger] p_args.v()[i]), forall|d: int| #[trigger] nin(positions(p_args.v()), p_args.v().len() as int, d) <= 1,
@maythrow
p_args.v().len() == 0
@ensures
p_args.v().len() > 0, tensored(r.v().position, positions(p_args.v()), p_args.v().len() as int), r.v().nodes.len() == r.v().position.dirs.len(), r.v().weights.len() == r.v().position.dirs.len(),
r.v().factor.sym == eprod(p_args.v(), p_args.v().len() as int),
forall|i: int, d: int| 0 <= i < p_args.v().len() && #[trigger] p_args.v()[i].position.dirs.contains(d) ==> pick_at(r.v(), idx(r.v().position.dirs, d), p_args.v()[i], d),
@at assign.position0
assert(comp1.v() =~= positions(p_args.v()));
@loop 0
invariant nodes.v().len() == position.v().dirs.len(), weights.v().len() == position.v().dirs.len(), factor.v() == eprod(p_args.v(), loop0_k as int),
 forall|i: int, d: int| 0 <= i < loop0_k && #[trigger] p_args.v()[i].position.dirs.contains(d) ==> set_at(nodes.v(), weights.v(), idx(position.v().dirs, d), p_args.v()[i], d),
@at loop0.begin
assert(positions(p_args.v())[loop0_k as int] == a.v().position);
assert(wfq(a.v()));
@loop 1
invariant nodes.v().len() == position.v().dirs.len(), weights.v().len() == position.v().dirs.len(),
 forall|i: int, d: int| 0 <= i < loop0_k && #[trigger] p_args.v()[i].position.dirs.contains(d) ==> set_at(nodes.v(), weights.v(), idx(position.v().dirs, d), p_args.v()[i], d),
 forall|j: int| 0 <= j < loop1_k ==> set_at(nodes.v(), weights.v(), idx(position.v().dirs, #[trigger] a.v().position.dirs[j]), a.v(), a.v().position.dirs[j]),
@at loop1.begin
lem_one(p_args.v(), loop0_k as int, d.v());
assert(position.v().dirs.contains(d.v()));
let ghost n0 = nodes.v();
let ghost w0 = weights.v();
@at loop1.end
assert forall|i: int, e: int| 0 <= i < loop0_k && #[trigger] p_args.v()[i].position.dirs.contains(e) implies set_at(nodes.v(), weights.v(), idx(position.v().dirs, e), p_args.v()[i], e) by { assert(set_at(n0, w0, idx(position.v().dirs, e), p_args.v()[i], e)); lem_one(p_args.v(), i, e); assert(position.v().dirs.contains(e)); lem_two(p_args.v(), i, loop0_k as int, e); assert(e != d.v()); lem_ne(position.v().dirs, e, d.v()); }
assert forall|j: int| 0 <= j < loop1_k implies set_at(nodes.v(), weights.v(), idx(position.v().dirs, #[trigger] a.v().position.dirs[j]), a.v(), a.v().position.dirs[j]) by { let e = a.v().position.dirs[j]; if j < loop1_k - 1 { assert(set_at(n0, w0, idx(position.v().dirs, e), a.v(), e)); assert(e != d.v()); lem_one(p_args.v(), loop0_k as int, e); assert(position.v().dirs.contains(e)); lem_ne(position.v().dirs, e, d.v()); } else { lem_idx(a.v().position.dirs, j); } }
@at loop1.after
assert forall|d: int| a.v().position.dirs.contains(d) implies set_at(nodes.v(), weights.v(), idx(position.v().dirs, d), a.v(), d) by { let j = choose|j: int| 0 <= j < a.v().position.dirs.len() && a.v().position.dirs[j] == d; }
