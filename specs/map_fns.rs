//@rewrite bound FnMut(Yaml)->Yaml => MapFn
pub trait MapYaml: Sized {
    spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool;
    fn map_yaml<F: MapFn>(self, f: &mut F) -> (r: Self)
        ensures
            extends(final(f).log(), old(f).log()),
            self.mapd(since(final(f).log(), old(f).log()), r);
}
// the generic `impl<T: MapYaml> MapYaml for Vec<T>` at the types it is used with
impl MapYaml for Vec<HashData> {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_hash(self@, log, r@) }
//@extract fn yaml/mod.rs <Vec as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for Vec<ArrayData> {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_array(self@, log, r@) }
//@extract fn yaml/mod.rs <Vec as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for Vec<Yaml> {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_flow_array(self@, log, r@) }
//@extract fn yaml/mod.rs <Vec as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for HashData {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_hd(self, log, r) }
//@extract fn yaml/hash_data.rs <HashData as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for HashElement {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { self.key == r.key && self.value.alias == r.value.alias && mapped(self.value.value, log, r.value.value) }
//@extract fn yaml/hash_element.rs <HashElement as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for ArrayData {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_ad(self, log, r) }
//@extract fn yaml/array_data.rs <ArrayData as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for AliasedYaml {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { self.alias == r.alias && mapped(self.value, log, r.value) }
//@extract fn yaml/aliased.rs <AliasedYaml as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
impl MapYaml for Yaml {
    open spec fn mapd(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped(self, log, r) }
//@extract fn yaml/mod.rs <Yaml as MapYaml>::map_yaml
//@ret: r
//@decreases: self
//@end: proof { assert(since($p0.log(), old($p0).log()).drop_last() =~= since($p0.log().drop_last(), old($p0).log())); }
//@loop * inv:= extends($p0.log(), old($p0).log()), $src@.take($it.index@).mp(since($p0.log(), old($p0).log()), $m0@)
//@loop * start:= let ghost g0 = $p0.log(); let ghost r0 = $m0@; let ghost k0 = $it.index@;
//@loop * end:= proof {
//@     let a = since($p0.log(), old($p0).log()); let n = g0.len() - old($p0).log().len();
//@     assert($m0@.drop_last() =~= r0);
//@     assert(a.take(n) =~= since(g0, old($p0).log()));
//@     assert(a.skip(n) =~= since($p0.log(), g0));
//@     assert($src@.take(k0 + 1).drop_last() =~= $src@.take(k0));
//@     assert($src@.take(k0 + 1).last() == $src@[k0]);
//@ }
//@end
}
