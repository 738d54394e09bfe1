//! hermipy/function.py
@fn py::function::Function::split
@params self, legacy
@types fun, const:false -> list:dict:fs:fun
@locals result=dict:fs:expr, to_return=list:dict:fs:fun, keys_intersect=list:fs
@requires
wff(p_self.v()),
@ensures
splits(p_self.v(), r.v()), finest_split(p_self.v(), r.v()),
@at entry
let ghost dd = p_self.v().dirs.to_set();
ax_args(p_self.v().sym);
lemma_inside_args(p_self.v().sym, dd);
ax_xsub();
@loop 0
invariant loop0_l.v() == add_terms.v(), add_terms.v() == terms(p_self.v().sym), forall|j: int| 0 <= j < to_return.v().len() ==> finest_for((#[trigger] to_return.v()[j]).dom(), facs(add_terms.v()[j]), facs(add_terms.v()[j]).len() as int), to_return.v().len() == loop0_k, sumto(to_return.v(), add_terms.v(), loop0_k as int), forall|j: int| 0 <= j < to_return.v().len() ==> good_part(#[trigger] to_return.v()[j], dd),
 forall|j: int| 0 <= j < add_terms.v().len() ==> inside(#[trigger] add_terms.v()[j], dd),
@at loop0.begin
let ghost tr0 = to_return.v();
ax_args(term.v());
lemma_inside_args(term.v(), dd);
@at result.set0
assert(result.v().dom() =~= comp1.v().dom().insert(Set::<int>::empty()));
lemma_start(result.v(), p_self.v().dirs);
assert(mul_terms.v() == facs(term.v()));
lemma_fin_start(result.v().dom(), mul_terms.v());
@loop 1
invariant finest_for(result.v().dom(), mul_terms.v(), loop1_k as int), factored(result.v(), dd), upto(result.v(), mul_terms.v(), loop1_k as int), loop1_l.v() == mul_terms.v(), forall|j: int| 0 <= j < mul_terms.v().len() ==> inside(#[trigger] mul_terms.v()[j], dd),
@at loop1.begin
let ghost m0 = result.v();
@at assign.key0
lemma_key(arg.v(), comp2_l.v(), comp2.v(), key.v());
let ghost k0 = key.v();
@at result.set1
assert(result.v().dom() =~= m0.dom());
lemma_fin_absorb(m0.dom(), mul_terms.v(), loop1_k as int, k0);
lemma_absorbed(m0, k0, arg.v(), dd);
@loop 2
invariant meld(loop2_l.v(), loop2_k as int, k0, key.v(), keys_intersect.v()), melded(value.v(), arg.v(), keys_intersect.v(), m0), within(value.v(), key.v()), result.v() == m0, enumerates(loop2_l.v(), m0),
@at comp2.begin
assert(comp2_l.v().contains(v.v()));
assert(xsubv().to_set().contains(v.v()));
@at loop2.begin
let ghost ik = existing_key.v().intersect(key.v());
assert(meets(existing_key.v(), key.v()) == !(forall|x: int| !ik.contains(x))) by { if meets(existing_key.v(), key.v()) { let d = choose|d: int| #[trigger] existing_key.v().contains(d) && key.v().contains(d); assert(ik.contains(d)); } else { assert forall|x: int| !ik.contains(x) by { if ik.contains(x) { assert(existing_key.v().contains(x) && key.v().contains(x)); } } } }
lemma_meld_step(m0.dom(), loop2_l.v(), loop2_k as int, k0, key.v(), keys_intersect.v(), dd);
lemma_meld_value(value.v(), arg.v(), keys_intersect.v(), m0, existing_key.v(), key.v());
@loop 3
invariant dropped(m0, keys_intersect.v(), loop3_k as int, result.v()), loop3_l.v() == keys_intersect.v(),
@at loop3.before
lemma_drop_start(m0, keys_intersect.v());
@at loop3.begin
assert(loop2_l.v().take(loop2_l.v().len() as int) =~= loop2_l.v());
assert(keys_intersect.v().contains(keys_intersect.v()[loop3_k as int]));
lemma_drop_step(m0, keys_intersect.v(), loop3_k as int, result.v());
@at result.set2.pre
let ghost n0 = result.v();
@at result.set2
lemma_fin_merge2(m0, n0, k0, key.v(), loop2_l.v(), keys_intersect.v(), value.v(), mul_terms.v(), loop1_k as int, dd);
lemma_merge(m0, n0, k0, key.v(), loop2_l.v(), keys_intersect.v(), value.v(), arg.v(), dd);
@at remap.result
assert forall|a: Set<int>| #[trigger] comp3_d.v().dom().contains(a) implies result.v().dom().contains(a) && result.v()[a] == (FunV { sym: comp3_d.v()[a], dirs: fs_enum(a) }) by { assert(comp3_l.v().contains(a)); let j = choose|j: int| 0 <= j < comp3_l.v().len() && comp3_l.v()[j] == a; assert(comp3.v()[comp3_l.v()[j]] == (FunV { sym: comp3_d.v()[a], dirs: fs_enum(a) })); }
assert forall|a: Set<int>| #[trigger] result.v().dom().contains(a) implies comp3_d.v().dom().contains(a) by { let j = choose|j: int| 0 <= j < comp3_l.v().len() && a == (#[trigger] comp3_l.v()[j]); assert(comp3_l.v().contains(a)); }
assert(syms(result.v()) =~= comp3_d.v());
let ghost part = result.v();
assert forall|x: spec_fn(int) -> real| #[trigger] mprod(syms(part), x) == at(term.v(), x) by { lemma_single(mul_terms.v(), x); }
@at loop0.end
assert forall|x: spec_fn(int) -> real| #[trigger] tsum(to_return.v(), loop0_k as int, x) == lsum(add_terms.v(), loop0_k as int, x) by { assert(to_return.v() == tr0.push(part)); lemma_tsum_push(tr0, part, loop0_k - 1, x); assert(mprod(syms(part), x) == at(term.v(), x)); };
@at return0
assert forall|x: spec_fn(int) -> real| #[trigger] at(p_self.v().sym, x) == tsum(r_0.v(), r_0.v().len() as int, x) by { lemma_single(add_terms.v(), x); };
@fn py::function::Function::project
@params self, dirs
@types fun, list:int -> fun
@requires
wff(p_self.v()), p_self.v().dirs.len() >= 1,
@maythrow
split_fun.v().len() != 1 || !apart_or_in(split_fun.v()[0].dom(), dirs.v().to_set())
@ensures
exists|m: Map<Set<int>, FunV>| #[trigger] one_part(p_self.v(), m) && proj_of(p_self.v(), m, r.v(), p_dirs.v()),
@loop 0
invariant loop0_d.v() == split_fun.v()[0], enumerates(loop0_l.v(), split_fun.v()[0]), forall|j: int| 0 <= j < loop0_k ==> (#[trigger] loop0_l.v()[j]).subset_of(dd) || !meets(loop0_l.v()[j], dd),
 forall|x: spec_fn(int) -> real| #[trigger] at(result.v(), x) == at(c0, x) * prods(selset(loop0_l.v(), loop0_k as int, dd), syms(split_fun.v()[0]), x),
@at loop0.before
let ghost dd = p_dirs.v().to_set();
let ghost c0 = result.v();
assert(split_fun.v() =~= seq![split_fun.v()[0]]);
@at loop0.begin
let ghost r0 = result.v();
broadcast use ax_mul;
lemma_meets_ge(v.v(), dd);
@at loop0.end
assert forall|x: spec_fn(int) -> real| #[trigger] at(result.v(), x) == at(c0, x) * prods(selset(loop0_l.v(), loop0_k as int, dd), syms(split_fun.v()[0]), x) by { lemma_sel_step(loop0_l.v(), loop0_k - 1, dd, syms(split_fun.v()[0]), x); assert(at(r0, x) == at(c0, x) * prods(selset(loop0_l.v(), loop0_k - 1, dd), syms(split_fun.v()[0]), x)); lemma_assoc(at(c0, x), prods(selset(loop0_l.v(), loop0_k - 1, dd), syms(split_fun.v()[0]), x), at(term.v().sym, x)); };
@at loop0.after
broadcast use ax_int;
lemma_sel_all(loop0_l.v(), dd, split_fun.v()[0].dom());
assert(one_part(p_self.v(), split_fun.v()[0]));
@at return0
assert(apart_or_in(split_fun.v()[0].dom(), dd)) by { assert forall|g: Set<int>| #[trigger] split_fun.v()[0].dom().contains(g) implies g.subset_of(dd) || !meets(g, dd) by { assert(loop0_l.v().contains(g)); let j = choose|j: int| 0 <= j < loop0_l.v().len() && loop0_l.v()[j] == g; assert(loop0_l.v()[j].subset_of(dd) || !meets(loop0_l.v()[j], dd)); } }
assert(forall|x: spec_fn(int) -> real| #[trigger] at(c0, x) == (if p_dirs.v().contains(p_self.v().dirs[0]) { at(split_fun.v()[0][Set::<int>::empty()].sym, x) } else { 1real }));
assert forall|x: spec_fn(int) -> real| #[trigger] at(r_0.v().sym, x) == (if p_dirs.v().contains(p_self.v().dirs[0]) { at(split_fun.v()[0][Set::<int>::empty()].sym, x) } else { 1real }) * prods(chosen(split_fun.v()[0].dom(), dd), syms(split_fun.v()[0]), x) by { assert(at(result.v(), x) == at(c0, x) * prods(chosen(split_fun.v()[0].dom(), dd), syms(split_fun.v()[0]), x)); }
assert(proj_of(p_self.v(), split_fun.v()[0], r_0.v(), p_dirs.v()));
@fn py::function::Function::project__int
@params self, dirs
@types fun, int -> fun
@requires
wff(p_self.v()), p_self.v().dirs.len() >= 1,
@maythrow
split_fun.v().len() != 1 || !apart_or_in(split_fun.v()[0].dom(), dirs.v().to_set())
@ensures
exists|m: Map<Set<int>, FunV>| #[trigger] one_part(p_self.v(), m) && proj_of(p_self.v(), m, r.v(), seq![p_dirs.v()]),
@loop 0
invariant loop0_d.v() == split_fun.v()[0], enumerates(loop0_l.v(), split_fun.v()[0]), forall|j: int| 0 <= j < loop0_k ==> (#[trigger] loop0_l.v()[j]).subset_of(dd) || !meets(loop0_l.v()[j], dd),
 forall|x: spec_fn(int) -> real| #[trigger] at(result.v(), x) == at(c0, x) * prods(selset(loop0_l.v(), loop0_k as int, dd), syms(split_fun.v()[0]), x),
@at loop0.before
assert(dirs.v() =~= seq![p_dirs.v()]);
let ghost dd = seq![p_dirs.v()].to_set();
let ghost c0 = result.v();
assert(split_fun.v() =~= seq![split_fun.v()[0]]);
@at loop0.begin
let ghost r0 = result.v();
broadcast use ax_mul;
lemma_meets_ge(v.v(), dd);
@at loop0.end
assert forall|x: spec_fn(int) -> real| #[trigger] at(result.v(), x) == at(c0, x) * prods(selset(loop0_l.v(), loop0_k as int, dd), syms(split_fun.v()[0]), x) by { lemma_sel_step(loop0_l.v(), loop0_k - 1, dd, syms(split_fun.v()[0]), x); assert(at(r0, x) == at(c0, x) * prods(selset(loop0_l.v(), loop0_k - 1, dd), syms(split_fun.v()[0]), x)); lemma_assoc(at(c0, x), prods(selset(loop0_l.v(), loop0_k - 1, dd), syms(split_fun.v()[0]), x), at(term.v().sym, x)); };
@at loop0.after
broadcast use ax_int;
lemma_sel_all(loop0_l.v(), dd, split_fun.v()[0].dom());
assert(one_part(p_self.v(), split_fun.v()[0]));
@at return0
assert(apart_or_in(split_fun.v()[0].dom(), dd)) by { assert forall|g: Set<int>| #[trigger] split_fun.v()[0].dom().contains(g) implies g.subset_of(dd) || !meets(g, dd) by { assert(loop0_l.v().contains(g)); let j = choose|j: int| 0 <= j < loop0_l.v().len() && loop0_l.v()[j] == g; assert(loop0_l.v()[j].subset_of(dd) || !meets(loop0_l.v()[j], dd)); } }
assert(forall|x: spec_fn(int) -> real| #[trigger] at(c0, x) == (if seq![p_dirs.v()].contains(p_self.v().dirs[0]) { at(split_fun.v()[0][Set::<int>::empty()].sym, x) } else { 1real }));
assert forall|x: spec_fn(int) -> real| #[trigger] at(r_0.v().sym, x) == (if seq![p_dirs.v()].contains(p_self.v().dirs[0]) { at(split_fun.v()[0][Set::<int>::empty()].sym, x) } else { 1real }) * prods(chosen(split_fun.v()[0].dom(), dd), syms(split_fun.v()[0]), x) by { assert(at(result.v(), x) == at(c0, x) * prods(chosen(split_fun.v()[0].dom(), dd), syms(split_fun.v()[0]), x)); }
assert(proj_of(p_self.v(), split_fun.v()[0], r_0.v(), seq![p_dirs.v()]));
@fn py::function::Function::tensorize
@params args
@types list:fun -> fun
@maythrow
!fdisj(p_args.v(), loop0_k + 1)
@ensures
fdisj(p_args.v(), p_args.v().len() as int), ascending(r.v().dirs), r.v().dirs.no_duplicates(), forall|d: int| #[trigger] r.v().dirs.contains(d) <==> fdirs(p_args.v(), p_args.v().len() as int, d),
forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == fprod(p_args.v(), p_args.v().len() as int, x),
@loop 0
invariant loop0_l.v() == p_args.v(), fdisj(p_args.v(), loop0_k as int), forall|d: int| #[trigger] dirs.v().contains(d) <==> fdirs(p_args.v(), loop0_k as int, d), forall|x: spec_fn(int) -> real| #[trigger] at(sym.v(), x) == fprod(p_args.v(), loop0_k as int, x),
@at loop0.before
broadcast use ax_int;
@at loop0.begin
broadcast use ax_mul;
let ghost d0 = dirs.v();
let ghost s0 = sym.v();
lemma_tens(p_args.v(), loop0_k as int, d0);
@at loop0.end
assert forall|x: spec_fn(int) -> real| #[trigger] at(sym.v(), x) == fprod(p_args.v(), loop0_k as int, x) by { assert(at(s0, x) == fprod(p_args.v(), loop0_k - 1, x)); };
assert forall|d: int| #[trigger] dirs.v().contains(d) <==> fdirs(p_args.v(), loop0_k as int, d) by { assert(d0.contains(d) <==> fdirs(p_args.v(), loop0_k - 1, d)); };
@at return0
assert forall|d: int| #[trigger] r_0.v().dirs.contains(d) <==> fdirs(p_args.v(), p_args.v().len() as int, d) by { assert(r_0.v().dirs.to_set().contains(d) == dirs.v().contains(d)); }
@fn py::function::Function::__mul__
@params self, other
@types fun, fun -> fun
@maythrow
p_self.v().dirs != p_other.v().dirs
@ensures
r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_other.v().dirs, forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) * at(p_other.v().sym, x),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__mul____expr
@params self, other
@types fun, expr -> fun
@maythrow
false
@ensures
r.v().dirs == p_self.v().dirs, forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) * at(p_other.v(), x),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__mul____int
@params self, other
@types fun, int -> fun
@maythrow
false
@ensures
r.v().dirs == p_self.v().dirs, forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) * (p_other.v() as real),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__add__
@params self, other
@types fun, fun -> fun
@maythrow
p_self.v().dirs != p_other.v().dirs
@ensures
r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_other.v().dirs, forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) + at(p_other.v().sym, x),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__add____expr
@params self, other
@types fun, expr -> fun
@maythrow
false
@ensures
r.v().dirs == p_self.v().dirs, forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) + at(p_other.v(), x),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__add____int
@params self, other
@types fun, int -> fun
@maythrow
false
@ensures
r.v().dirs == p_self.v().dirs, forall|x: spec_fn(int) -> real| #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) + (p_other.v() as real),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__truediv__
@params self, other
@types fun, fun -> fun
@maythrow
p_self.v().dirs != p_other.v().dirs
@ensures
r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_other.v().dirs, forall|x: spec_fn(int) -> real| at(p_other.v().sym, x) != 0real ==> #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) / at(p_other.v().sym, x),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__truediv____expr
@params self, other
@types fun, expr -> fun
@maythrow
false
@ensures
r.v().dirs == p_self.v().dirs, forall|x: spec_fn(int) -> real| at(p_other.v(), x) != 0real ==> #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) / at(p_other.v(), x),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
@fn py::function::Function::__truediv____int
@params self, other
@types fun, int -> fun
@maythrow
false
@ensures
r.v().dirs == p_self.v().dirs, forall|x: spec_fn(int) -> real| (p_other.v() as real) != 0real ==> #[trigger] at(r.v().sym, x) == at(p_self.v().sym, x) / (p_other.v() as real),
@at entry
broadcast use {ax_mul, ax_add, ax_div, ax_int};
