@fn py::operator::Operator::__add__
@params self, other
@types op, op -> op
@requires
wfo(p_self.v()), wfo(p_other.v()),
@maythrow
p_self.v().dirs != p_other.v().dirs
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_other.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, g, x) + oat(p_other.v().sym, g, x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__sub__
@params self, other
@types op, op -> op
@requires
wfo(p_self.v()), wfo(p_other.v()),
@maythrow
p_self.v().dirs != p_other.v().dirs
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_other.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, g, x) - oat(p_other.v().sym, g, x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__neg__
@params self
@types op -> op
@requires
wfo(p_self.v()),
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == -oat(p_self.v().sym, g, x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__mul__
@params self, other
@types op, fun -> op
@requires
wfo(p_self.v()), plain(p_other.v().sym),
@maythrow
p_self.v().dirs != p_other.v().dirs
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_other.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, g, x) * at(p_other.v().sym, x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__mul____expr
@params self, other
@types op, expr -> op
@requires
wfo(p_self.v()), plain(p_other.v()),
@maythrow
false
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, g, x) * at(p_other.v(), x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__mul____int
@params self, other
@types op, int -> op
@requires
wfo(p_self.v()),
@maythrow
false
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, g, x) * (p_other.v() as real),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__call__
@params self, arg
@types op, fun -> fun
@requires
wfo(p_self.v()), plain(p_arg.v().sym), p_arg.v().dirs == p_self.v().dirs,
@ensures
plain(r.v().sym), r.v().dirs == p_self.v().dirs, forall|x: X| #[trigger] at(r.v().sym, x) == oat(p_self.v().sym, fnof(p_arg.v().sym), x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::__call____op
@params self, arg
@types op, op -> op
@requires
wfo(p_self.v()), wfo(p_arg.v()), p_arg.v().dirs == p_self.v().dirs,
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, forall|g: Gf, x: X| #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, opof(p_arg.v().sym, g), x),
@at entry
broadcast use sympy_op;
@fn py::operator::Operator::map
@params self, factor
@types op, fun -> op
@requires
wfo(p_self.v()), plain(p_factor.v().sym),
@maythrow
p_self.v().dirs != p_factor.v().dirs
@ensures
wfo(r.v()), r.v().dirs == p_self.v().dirs, p_self.v().dirs == p_factor.v().dirs,
forall|g: Gf, x: X| at(p_factor.v().sym, x) != 0real ==> #[trigger] oat(r.v().sym, g, x) == oat(p_self.v().sym, opof(emul(p_factor.v().sym, unk(p_self.v().dirs)), g), x) / at(p_factor.v().sym, x),
@at entry
broadcast use sympy_op;