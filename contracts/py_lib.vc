//! hermipy/lib.py
@fn py::lib::finest_common
@params set1, set2
@types sfs, sfs -> sfs
@requires
djf(p_set1.v()), djf(p_set2.v()), sameu(p_set1.v(), p_set2.v()),
@ensures
djf(r.v()), finest(r.v(), p_set1.v(), p_set2.v()),
@at return0
lem_base(p_set1.v(), p_set2.v());
@at set1.remove0
lem_start(p_set1.v(), p_set2.v(), s.v());
@loop 0
invariant merging(p_set1.v(), p_set2.v(), set1.v(), set2.v(), s.v()), apart(set1.v(), s.v()),
@at loop0.exit
assert forall|a: Set<int>, x: int| (set1.v().contains(a) || set2.v().contains(a)) && #[trigger] a.contains(x) implies !s.v().contains(x) by { if s.v().contains(x) { assert(a.intersect(s.v()).contains(x)); assert(s.v().intersect(a).contains(x)); } };
lem_done(p_set1.v(), p_set2.v(), set1.v(), set2.v(), s.v());
@loop 1
invariant merging(p_set1.v(), p_set2.v(), set1.v(), set2.v(), s.v()), forall|j: int| loop1_k <= j < loop1_l.v().len() ==> set2.v().contains(#[trigger] loop1_l.v()[j]),
@at loop1.begin
let ghost w0 = s.v();
let ghost c0 = set2.v();
@at set2.remove0
let x = choose|x: int| w0.intersect(s2.v()).contains(x);
lem_absorb(p_set1.v(), p_set2.v(), set1.v(), c0, w0, s2.v(), x, false);
@loop 2
invariant merging(p_set1.v(), p_set2.v(), set1.v(), set2.v(), s.v()), forall|j: int| loop2_k <= j < loop2_l.v().len() ==> set1.v().contains(#[trigger] loop2_l.v()[j]), passed(loop2_l.v(), loop2_k as int, set1.v(), s.v()), loop2_l.v().no_duplicates(), djl(loop2_l.v()), forall|a: Set<int>| set1.v().contains(a) ==> loop2_l.v().contains(a),
@at loop2.begin
let ghost w0 = s.v();
let ghost c0 = set1.v();
@at set1.remove1
let x = choose|x: int| w0.intersect(s1.v()).contains(x);
lem_absorb(p_set1.v(), p_set2.v(), c0, set2.v(), w0, s1.v(), x, true);
@at loop2.after
assert(apart(set1.v(), s.v())) by { assert forall|a: Set<int>, x: int| set1.v().contains(a) && #[trigger] a.contains(x) implies !s.v().contains(x) by { assert(loop2_l.v().contains(a)); let j = choose|j: int| 0 <= j < loop2_l.v().len() && loop2_l.v()[j] == a; assert(loop2_l.v()[j].contains(x)); } }
@at loop2.end
assert forall|j: int, x: int| 0 <= j < loop2_k && set1.v().contains(loop2_l.v()[j]) && #[trigger] loop2_l.v()[j].contains(x) implies !s.v().contains(x) by { if s.v().contains(x) { if w0.contains(x) { assert(w0.intersect(s1.v()).contains(x) || j < loop2_k - 1); assert(s1.v().intersect(w0).contains(x) || j < loop2_k - 1); } } }
@fn py::lib::cross_in_triangle
@params dim, degree
@types int, int -> list:int
@requires
p_dim.v() >= 1, p_degree.v() >= 1,
@ensures
r.v() == cross_in_tri(p_dim.v(), p_degree.v()),
@at returns
assert(r_0.v() =~= cross_in_tri(p_dim.v(), p_degree.v()));
