//! lib.cpp
@fn isAligned(vu,u)
@params m, dir
@ensures
r == (forall|j: int| 0 <= j < m@.len() && j != dir ==> m@[j] == 0),
@requires
m@.len() < 0x1_0000_0000,
@loop 0
invariant j <= m@.len(), forall|t: int| 0 <= t < j && t != dir ==> m@[t] == 0,

@fn isAligned(vu,vu)
@params m, dirs
@requires
m@.len() < 0x1_0000_0000, dirs@.len() < 0x1_0000_0000,
@ensures
r == (forall|j: int| 0 <= j < m@.len() && m@[j] != 0 ==> in_seq(dirs@, j)),
@loop 0
invariant j <= m@.len(), forall|t: int| 0 <= t < j && m@[t] != 0 ==> in_seq(dirs@, t),
@loop 1
invariant k <= dirs@.len(), in_dirs == (exists|t: int| 0 <= t < k && dirs@[t] == j),
@at loop1.after
proof { assert(in_dirs == in_seq(dirs@, j as int)); }

@fn hash_print(vu)
@params v
@requires
v@.len() < 0x1_0000_0000,
@ensures
r@ == hp(v@),
@loop 0
invariant i <= v@.len(), hash@ == hp_to(v@, i as int),
@at loop0.before
proof { assert(hash@ =~= hp_to(v@, 0)); }
@at loop0.end
proof { assert(hash@ =~= hp_to(v@, i + 1)); }

@fn pos_bissect(u,c,u)
@params image, f, max
@requires
max < 0xffff_ffff, exists|t: u32| t <= max && hits(f, t, image),
@ensures
f.ensures((r,), image), forall|t: u32| hits(f, t, image) ==> r <= t,
@at entry
let ghost t0 = choose|t: u32| t <= max && hits(f, t, image);
@loop 0
invariant x <= t0, forall|t: u32| hits(f, t, image) ==> x <= t,
ensures false,
