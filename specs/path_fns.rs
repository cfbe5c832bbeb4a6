impl YamlPath {
//@extract fn path.rs YamlPath::insert
//@ensures: steps(*final(self)) == appended(steps(*old(self)), steps($p0))
//@decreases: *old(self)
//@end: proof { assert(steps(*final(self)) =~= appended(steps(*old(self)), steps($p0))); }
//@end
}
impl PathParser {
//@for N in EOI pure_key field value condition index_number index_all root_key final_path
//@extract fn path.rs PathParser::%N
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::%N
//@ensures: match r { Ok(v) => ok_%N(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@end
//@endfor
//@for N in key part root
//@extract fn path.rs PathParser::%N
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::%N
//@ensures: match r { Ok(v) => ok_%N(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@end: proof { if r__ is Ok { l_%N(r__->Ok_0, $p0@); } }
//@end
//@endfor
//@extract fn path.rs PathParser::path
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::path
//@ensures: match r { Ok(v) => ok_path(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@loop 0 inv:= steps($m0) =~= path_of($p0@).take($it.index@ + 1)
//@end: proof { if r__ is Ok { l_path(r__->Ok_0, $p0@); } }
//@end
}
//@extract fn path.rs parse
//@ret: r
//@ensures: ok_path_text(r, $p0@)
//@end
impl YamlPath {
//@extract fn path.rs <YamlPath as FromStr>::from_str
//@ret: r
//@ensures: ok_path_text(r, $p0@)
//@end
}
