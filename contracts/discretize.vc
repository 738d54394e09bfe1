//! discretize.cpp
@fn map_point(vr,vvr,pr,pr)
@params translation, dilation, node, mapped_node
@requires
map_ok(translation@, *dilation), old(node).live(), old(node).o() == 0, old(mapped_node).live(), old(mapped_node).o() == 0, old(node).d().len() >= translation@.len(), old(mapped_node).d().len() >= translation@.len(),
@ensures
*final(node) == *old(node), final(mapped_node).live(), final(mapped_node).o() == 0, final(mapped_node).d().len() == old(mapped_node).d().len(),
forall|q: int| 0 <= q < translation@.len() ==> #[trigger] final(mapped_node).d()[q] == aff(translation@, *dilation, old(node).d(), q, translation@.len() as int),
forall|q: int| translation@.len() <= q < old(mapped_node).d().len() ==> #[trigger] final(mapped_node).d()[q] == old(mapped_node).d()[q],
@locals dim, i, j
@loop 0
invariant i <= dim, *node == *old(node), mapped_node.live(), mapped_node.o() == 0, mapped_node.d().len() == old(mapped_node).d().len(),
    forall|q: int| 0 <= q < i ==> #[trigger] mapped_node.d()[q] == aff(translation@, *dilation, node.d(), q, dim as int), forall|q: int| i <= q < old(mapped_node).d().len() ==> #[trigger] mapped_node.d()[q] == old(mapped_node).d()[q],
@at loop0.begin
proof { assert(dilation@[i as int]@.len() >= dim); }
@loop 1
invariant i < dim, j <= dim, *node == *old(node), mapped_node.live(), mapped_node.o() == 0, mapped_node.d().len() == old(mapped_node).d().len(), mapped_node.d()[i as int] == aff(translation@, *dilation, node.d(), i as int, j as int),
    forall|q: int| 0 <= q < i ==> #[trigger] mapped_node.d()[q] == aff(translation@, *dilation, node.d(), q, dim as int), forall|q: int| i < q < old(mapped_node).d().len() ==> #[trigger] mapped_node.d()[q] == old(mapped_node).d()[q],

@fn discretize(f,vvr,vr,vvr)
@params func, nodes, translation, dilation
@requires
ds_ok(nodes@), translation@.len() == nodes@.len(), map_ok(translation@, *dilation),
@ensures
r@.len() == gprod(vpts(nodes@), 0), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).v() == sapp(func, mapped(translation@, *dilation, xs(nodes@, gpt(vpts(nodes@), i)))),
@locals dim, i, j, node, mapped_node, n_points_tot, n_points, result, p
@at entry
let ghost nd = nodes@.len() as int; let ghost np = vpts(nodes@); let ghost ntot = gprod(np, 0);
proof { assert forall|q: int| 0 <= q < nd implies (#[trigger] nodes@[q])@.len() == np[q] by {} }
@loop 0
invariant i <= dim, n_points@.len() == nd, n_points_tot == lprod(np, i as int), forall|q: int| 0 <= q < i ==> #[trigger] n_points@[q] == np[q],
@at loop0.begin
proof { lemma_lprod_le(np, i + 1); lemma_lprod_le(np, i as int); assert(nodes@[i as int]@.len() == np[i as int]); }
@at loop0.after
proof { lemma_lprod_le(np, nd); assert(n_points@ =~= np); }
@loop 1
invariant i <= ntot, p.upper_bounds@ == np, i < ntot ==> git_ok(p) && grank(np, p.multi_index@, 0) == i, node.live(), node.o() == 0, node.d().len() == nd, mapped_node.live(), mapped_node.o() == 0, mapped_node.d().len() == nd,
    result@.len() == ntot, forall|q: int| 0 <= q < i ==> (#[trigger] result@[q]).v() == sapp(func, mapped(translation@, *dilation, xs(nodes@, gpt(np, q)))),
@at loop1.begin
let ghost g = p.multi_index@;
proof { lemma_gpt(np, g); }
@loop 2
invariant i < ntot, j <= dim, git_ok(p), p.multi_index@ == g, p.upper_bounds@ == np, node.live(), node.o() == 0, node.d().len() == nd, forall|q: int| 0 <= q < j ==> #[trigger] node.d()[q] == xs(nodes@, g)[q],
@at loop2.begin
proof { assert(g[j as int] < np[j as int]); assert(nodes@[j as int]@.len() == np[j as int]); assert(np[j as int] <= 0x7fff_ffff); }
@at loop2.after
proof { assert(node.d() =~= xs(nodes@, g)); }
@at loop1.end
proof { assert(mapped_node.d() =~= mapped(translation@, *dilation, xs(nodes@, g))); }
