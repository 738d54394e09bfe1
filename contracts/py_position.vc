//! hermipy/position.py
@fn py::position::Position::project
@params self, directions
@types pos, list:int -> pos
@requires
wfp(p_self.v()), forall|i: int| 0 <= i < p_directions.v().len() ==> p_self.v().dirs.contains(#[trigger] p_directions.v()[i]),
@maythrow
!p_self.v().is_diag || !ascending(p_directions.v())
@ensures
p_self.v().is_diag, ascending(p_directions.v()), r.v().dirs == p_directions.v(), r.v().dim == r.v().dirs.len(), r.v().is_diag, r.v().mean.len() == r.v().dim, squarem(r.v().cov, r.v().dim), r.v().types.len() == r.v().dim,
forall|i: int| 0 <= i < p_directions.v().len() ==> r.v().mean[i] == p_self.v().mean[idx(p_self.v().dirs, #[trigger] p_directions.v()[i])]
 && r.v().cov[i][i] == p_self.v().cov[idx(p_self.v().dirs, p_directions.v()[i])][idx(p_self.v().dirs, p_directions.v()[i])]
 && r.v().types[i] == p_self.v().types[idx(p_self.v().dirs, p_directions.v()[i])],
diagonal(r.v().cov),
@loop 0
invariant mean.v().len() == loop0_l.v().len(), squarem(cov.v(), loop0_l.v().len() as int), types.v().len() == loop0_l.v().len(), diagonal(cov.v()),
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] mean.v()[i] == p_self.v().mean[loop0_l.v()[i]],
 forall|i: int| 0 <= i < loop0_k ==> (#[trigger] cov.v()[i])[i] == p_self.v().cov[loop0_l.v()[i]][loop0_l.v()[i]],
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] types.v()[i] == p_self.v().types[loop0_l.v()[i]],
@fn py::position::Position::project__int
@params self, directions
@types pos, int -> pos
@requires
wfp(p_self.v()), p_self.v().dirs.contains(p_directions.v()),
@maythrow
!p_self.v().is_diag
@ensures
p_self.v().is_diag, r.v().dirs == seq![p_directions.v()], r.v().dim == 1, r.v().is_diag, r.v().mean.len() == 1, squarem(r.v().cov, 1), r.v().types.len() == 1,
r.v().mean[0] == p_self.v().mean[idx(p_self.v().dirs, p_directions.v())],
r.v().cov[0][0] == p_self.v().cov[idx(p_self.v().dirs, p_directions.v())][idx(p_self.v().dirs, p_directions.v())],
r.v().types[0] == p_self.v().types[idx(p_self.v().dirs, p_directions.v())],
@loop 0
invariant mean.v().len() == loop0_l.v().len(), squarem(cov.v(), loop0_l.v().len() as int), types.v().len() == loop0_l.v().len(), diagonal(cov.v()),
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] mean.v()[i] == p_self.v().mean[loop0_l.v()[i]],
 forall|i: int| 0 <= i < loop0_k ==> (#[trigger] cov.v()[i])[i] == p_self.v().cov[loop0_l.v()[i]][loop0_l.v()[i]],
 forall|i: int| 0 <= i < loop0_k ==> #[trigger] types.v()[i] == p_self.v().types[loop0_l.v()[i]],
@fn py::position::Position::tensorize::_tensorize
@params p1, p2
@locals mean=list:real, cov=list:real, types=list:str
@types pos, pos -> pos
@requires
wfp(p_p1.v()), wfp(p_p2.v()),
@maythrow
exists|d: int| #[trigger] p_p1.v().dirs.contains(d) && p_p2.v().dirs.contains(d) && !agree_at(p_p1.v(), p_p2.v(), d)
@ensures
wfp(r.v()), ascending(r.v().dirs), diagonal(r.v().cov), r.v().is_diag,
forall|d: int| #[trigger] r.v().dirs.contains(d) <==> p_p1.v().dirs.contains(d) != p_p2.v().dirs.contains(d),
forall|d: int| #[trigger] r.v().dirs.contains(d) && p_p1.v().dirs.contains(d) ==> same_at(r.v(), p_p1.v(), d),
forall|d: int| #[trigger] r.v().dirs.contains(d) && p_p2.v().dirs.contains(d) ==> same_at(r.v(), p_p2.v(), d),
forall|d: int| #[trigger] p_p1.v().dirs.contains(d) && p_p2.v().dirs.contains(d) ==> agree_at(p_p1.v(), p_p2.v(), d),
@loop 0
invariant forall|i: int| 0 <= i < loop0_k ==> agree_at(p_p1.v(), p_p2.v(), #[trigger] loop0_l.v()[i]),
@loop 1
invariant mean.v().len() == loop1_k, cov.v().len() == loop1_k, types.v().len() == loop1_k,
 forall|i: int| 0 <= i < loop1_k ==> #[trigger] mean.v()[i] == owner(p_p1.v(), p_p2.v(), dirs_result.v()[i]).mean[oidx(p_p1.v(), p_p2.v(), dirs_result.v()[i])],
 forall|i: int| 0 <= i < loop1_k ==> #[trigger] cov.v()[i] == owner(p_p1.v(), p_p2.v(), dirs_result.v()[i]).cov[oidx(p_p1.v(), p_p2.v(), dirs_result.v()[i])][oidx(p_p1.v(), p_p2.v(), dirs_result.v()[i])],
 forall|i: int| 0 <= i < loop1_k ==> #[trigger] types.v()[i] == owner(p_p1.v(), p_p2.v(), dirs_result.v()[i]).types[oidx(p_p1.v(), p_p2.v(), dirs_result.v()[i])],
@at returns
assert forall|d: int| p_p1.v().dirs.contains(d) && p_p2.v().dirs.contains(d) implies agree_at(p_p1.v(), p_p2.v(), d) by { assert(loop0_l.v().contains(d)); let i = choose|i: int| 0 <= i < loop0_l.v().len() && loop0_l.v()[i] == d; }
assert forall|d: int| dirs_result.v().contains(d) implies same_at(r_0.v(), owner(p_p1.v(), p_p2.v(), d), d) by { let i = choose|i: int| 0 <= i < dirs_result.v().len() && dirs_result.v()[i] == d; lem_idx(dirs_result.v(), i); }
@fn py::position::Position::tensorize
@params args
@locals dirs=list:int
@types list:pos -> pos
@requires
p_args.v().len() >= 1, forall|i: int| 0 <= i < p_args.v().len() ==> wfp(#[trigger] p_args.v()[i]),
@maythrow
(exists|i: int| 0 <= i < p_args.v().len() && !(#[trigger] p_args.v()[i]).is_diag) || (exists|d: int| #[trigger] nin(p_args.v(), p_args.v().len() as int, d) >= 3)
@ensures
tensored(r.v(), p_args.v(), p_args.v().len() as int), forall|d: int| nin(p_args.v(), p_args.v().len() as int, d) <= 2, p_args.v().len() >= 2 ==> ascending(r.v().dirs), p_args.v().len() == 1 ==> r.v() == p_args.v()[0],
@loop 0
invariant forall|d: int| #[trigger] cnt(dirs.v(), d) == nin(p_args.v(), loop0_k as int, d) && cnt(dirs.v(), d) <= 2, forall|i: int| 0 <= i < loop0_k ==> (#[trigger] p_args.v()[i]).is_diag,
@at loop0.begin
assert(wfp(p_args.v()[loop0_k as int]));
assert(a.v() == p_args.v()[loop0_k as int]);
@loop 1
invariant forall|d: int| #[trigger] cnt(dirs.v(), d) == nin(p_args.v(), loop0_k as int, d) + has(a.v().dirs, loop1_k as int, d) && cnt(dirs.v(), d) <= 2,
@at loop1.begin
lem_has(a.v().dirs, loop1_k as int);
lem_cnt_push(dirs.v(), d.v());
assert(a.v().dirs.contains(d.v()));
assert(has(a.v().dirs, loop1_k as int, d.v()) == 0) by { assert(has(a.v().dirs, loop1_k + 1, d.v()) <= 1); }
lem_nin(p_args.v(), loop0_k + 1, p_args.v().len() as int, d.v());
@at loop1.after
assert(a.v().dirs.take(a.v().dirs.len() as int) =~= a.v().dirs);
@at loop0.after
assert forall|d: int| nin(p_args.v(), p_args.v().len() as int, d) <= 2 by { assert(cnt(dirs.v(), d) <= 2); }
@at loop2.before
lem_tens1(p_args.v());
@loop 2
invariant tensored(result.v(), p_args.v(), loop2_k + 1), loop2_l.v() == fromv(p_args.v(), 1), loop2_k >= 1 ==> ascending(result.v().dirs), loop2_k == 0 ==> result.v() == p_args.v()[0],
@at loop2.begin
let ghost old_r = result.v();
assert(a.v() == p_args.v()[loop2_k + 1]);
@at loop2.end
lem_tens(old_r, result.v(), p_args.v(), loop2_k as int);
