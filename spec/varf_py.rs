pub open spec fn matsof(a: Seq<VarfV>, k: int) -> Map<Set<int>, Seq<Seq<real>>> decreases k { if k <= 0 { Map::empty() } else { matsof(a, k - 1).insert(a[k - 1].position.dirs.to_set(), a[k - 1].matrix) } }
pub open spec fn symof(a: Seq<VarfV>, k: int) -> ExprV decreases k { if k <= 0 { eint(1) } else { emul(symof(a, k - 1), a[k - 1].factor.sym) } }
pub open spec fn positionsof(a: Seq<VarfV>) -> Seq<PosV> { Seq::new(a.len(), |i: int| a[i].position) }
pub open spec fn agree(a: Seq<VarfV>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).index_set == a[0].index_set && a[i].degree == a[0].degree }
// one operator: itself; several: the matrices by direction set, the product of the factors, the joined position
pub open spec fn vtens(r: VarfV, a: Seq<VarfV>) -> bool {
    if a.len() == 1 { r == a[0] }
    else {
        &&& agree(a) && r.index_set == a[0].index_set
        &&& r.matrix == core_tensorizem(matsof(a, a.len() as int), a[0].index_set)
        &&& tensored(r.position, positionsof(a), a.len() as int) && ascending(r.position.dirs)
        &&& r.factor.sym == symof(a, a.len() as int) && r.factor.dirs == r.position.dirs
    }
}
