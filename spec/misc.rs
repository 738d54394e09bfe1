pub open spec fn in_seq(s: Seq<u32>, j: int) -> bool { exists|t: int| 0 <= t < s.len() && s[t] as int == j }
