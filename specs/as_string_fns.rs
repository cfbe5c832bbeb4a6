pub trait YamlTypes {
    spec fn sval(&self) -> Option<Seq<char>>;
    fn as_string(&self) -> (r: Option<String>)
        ensures opt_view(r) == self.sval();
}
impl YamlTypes for Yaml {
    open spec fn sval(&self) -> Option<Seq<char>> { scalar_value(*self) }
//@extract fn yaml/types.rs <Yaml as YamlTypes>::as_string
//@ret: r
//@loop 0 inv:= sv_strs($m0@) =~= sv_strings($src@).take($it.index@)
//@loop 1 inv:= sv_strs($m0@) =~= sv_strings($src@).take($it.index@)
//@end
}
impl YamlTypes for AliasedYaml {
    open spec fn sval(&self) -> Option<Seq<char>> { scalar_value(self.value) }
//@extract fn yaml/aliased.rs <AliasedYaml as YamlTypes>::as_string
//@ret: r
//@end
}
//@include yts_fns.rs
