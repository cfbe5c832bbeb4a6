//@rewrite call Self::Error::custom => m_custom
//@rewrite path Self::Error => YamlDeserializeError
//@rewrite path Self::Variant => YamlDeserializer
//@include yts_fns.rs
//@extract fn yaml/deserializer.rs register
//@requires: $p1.alias is Some ==> tab($p0.values).contains_key($p1.alias->0@) && tab($p0.values)[$p1.alias->0@] == $p1.value
//@ensures: $p1.alias is Some ==> had($p0.values, $p1.alias->0@)
//@end
//@extract fn yaml/deserializer.rs resolve
//@ret: r
//@requires: full($p0.values)
//@ensures: r is Ok == tab($p0.values).contains_key($p1@), r is Ok ==> r->Ok_0 == tab($p0.values)[$p1@]
//@end
//@extract fn yaml/deserializer.rs hash_entries
//@ret: r
//@requires: named_in(nodes_hash($p1@), tab($p0.values))
//@ensures: pairs(r@) =~= entry_values($p1@), all_covered2(r@, tab($p0.values))
//@loop 0 inv:= pairs($m0@) =~= entry_values($src@.take($it.index@)), all_covered2($m0@, tab($p0.values))
//@loop 0 start:= proof { lem_named_hash($src@, $it.index@, tab($p0.values)); }
//@end
//@extract fn yaml/deserializer.rs seq_values
//@ret: r
//@requires: named_in(nodes_array($p1@), tab($p0.values))
//@ensures: r@ =~= elem_values($p1@), all_covered(r@, tab($p0.values))
//@loop 0 inv:= $m0@ =~= elem_values($src@.take($it.index@)), all_covered($m0@, tab($p0.values))
//@loop 0 start:= proof { lem_named_array($src@, $it.index@, tab($p0.values)); }
//@end
//@extract fn yaml/deserializer.rs into_resolved
//@ret: r
//@requires: covered($p0, tab($p1.values)), anc_ok($p1)
//@ensures: match resolved(De { yaml: $p0, cx: cx($p1) }) { Some((y, c)) => r is Ok && r->Ok_0.0 == y && cx(r->Ok_0.1) == c && covered(y, c.tab) && anc_ok(r->Ok_0.1) && !(y is Anchor), None => r is Err }
//@start: let ghost d0__ = De { yaml: $p0, cx: cx($p1) }; proof { lem_fuel(cx($p1)); }
//@loop 0 inv:= cx($m0).tab == d0__.cx.tab, anc_ok($m0), covered($m1, d0__.cx.tab), cx($m0).resolving.len() >= d0__.cx.resolving.len(), follow($m1, cx($m0), (d0__.cx.tab.dom().len() + 1 + d0__.cx.resolving.len() - cx($m0).resolving.len()) as nat) == resolved(d0__)
//@loop 0 start:= let ghost c0__ = cx($m0); proof { lem_fuel(c0__); }
//@loop 0 end:= proof { lem_push_ok(c0__, cx($m0).resolving.last()); }
//@loop 0 dec:= d0__.cx.tab.dom().len() + 1 - cx($m0).resolving.len()
//@end
impl YamlDeserializer {
//@extract fn yaml/deserializer.rs YamlDeserializer::new
//@ret: r
//@requires: consistent(nodes_of($p0))
//@ensures: de_ok(r), de(r).yaml == $p0, de(r).cx.tab == table_of(nodes_of($p0)), de(r).cx.resolving == Seq::<Seq<char>>::empty()
//@let Anchors{:= proof { axiom_choose_table($v.values, table_of(nodes_of($p0))); lem_start($p0, cx($v)); lem_table(nodes_of($p0)); }
//@end: proof { assert(sv_strings(r__.anchors.resolving@) =~= Seq::<Seq<char>>::empty()); lem_full($p0, r__.anchors.values); }
//@closure 0 params:= &AliasedYaml
//@closure 0:= requires $c0.alias is Some ==> tab(anchors.values).contains_key($c0.alias->0@) && tab(anchors.values)[$c0.alias->0@] == $c0.value ensures $c0.alias is Some ==> had(anchors.values, $c0.alias->0@)
//@end
//@extract fn yaml/deserializer.rs YamlDeserializer::with
//@ret: r
//@ensures: r.yaml == $p0, r.anchors == $p1
//@end
}
//@extract fn yaml/deserializer.rs from_yaml
//@ret: r
//@requires: consistent(nodes_of($p0))
//@ensures: T::takes(De { yaml: $p0, cx: Ctx { tab: table_of(nodes_of($p0)), resolving: Seq::empty() } }, r)
//@end
//@extract fn yaml/deserializer.rs from_yaml_str
//@ret: r
//@requires: match parsed($p0@) { Some(d) => match first_yaml(d.items@) { Some(y) => consistent(nodes_of(y)), None => true }, None => true }
//@ensures: match parsed($p0@) { Some(d) => match first_yaml(d.items@) { Some(y) => T::takes(De { yaml: y, cx: Ctx { tab: table_of(nodes_of(y)), resolving: Seq::empty() } }, r), None => r is Err }, None => r is Err }
//@loop 0 inv:= ? $m0 is None
//@loop 0 inv:= first_yaml($src@.take($it.index@)) is None
//@loop 0 start:= proof { lem_first_yaml($src@, $it.index@); }
//@end
impl VecSeqAccess {
//@extract fn yaml/deserializer.rs VecSeqAccess::new
//@ret: r
//@method into_iter:= m_into_iter
//@ensures: rest(r.iter) == $p0@, r.anchors == $p1
//@end
//@extract fn yaml/deserializer.rs <VecSeqAccess as SeqAccess>::next_element_seed
//@ret: r
//@requires: seq_ok(*old(self))
//@ensures: seq_ok(*final(self)), final(self).anchors == old(self).anchors
//@ensures: rest(old(self).iter).len() == 0 ==> r == Ok::<Option<T::Value>, YamlDeserializeError>(None) && rest(final(self).iter).len() == 0
//@ensures: rest(old(self).iter).len() > 0 ==> rest(final(self).iter) == rest(old(self).iter).skip(1) && exists|q: Res<T::Value>| #[trigger] $p0.takes(De { yaml: rest(old(self).iter)[0], cx: cx(old(self).anchors) }, q) && some_of(q, r)
//@end
}
impl VecMapAccess {
//@extract fn yaml/deserializer.rs VecMapAccess::new
//@ret: r
//@method into_iter:= m_into_iter
//@ensures: rest(r.iter) == $p0@, r.anchors == $p1, r.pending_value is None
//@end
//@extract fn yaml/deserializer.rs <VecMapAccess as MapAccess>::next_key_seed
//@ret: r
//@requires: map_ok(*old(self))
//@ensures: map_ok(*final(self)), final(self).anchors == old(self).anchors
//@ensures: rest(old(self).iter).len() == 0 ==> r == Ok::<Option<K::Value>, YamlDeserializeError>(None) && rest(final(self).iter).len() == 0
//@ensures: rest(old(self).iter).len() > 0 ==> rest(final(self).iter) == rest(old(self).iter).skip(1) && final(self).pending_value == Some(rest(old(self).iter)[0].1)
//@ensures: rest(old(self).iter).len() > 0 ==> exists|y: Yaml, q: Res<K::Value>| y is UnquotedString && y->UnquotedString_0@ == rest(old(self).iter)[0].0@ && #[trigger] $p0.takes(De { yaml: y, cx: cx(old(self).anchors) }, q) && some_of(q, r)
//@end
//@extract fn yaml/deserializer.rs <VecMapAccess as MapAccess>::next_value_seed
//@ret: r
//@requires: map_ok(*old(self)), old(self).pending_value is Some
//@ensures: map_ok(*final(self)), final(self).anchors == old(self).anchors, final(self).iter == old(self).iter, final(self).pending_value is None
//@ensures: $p0.takes(De { yaml: old(self).pending_value->0, cx: cx(old(self).anchors) }, r)
//@end
}
impl StrEnumAccess {
//@extract fn yaml/deserializer.rs <StrEnumAccess as EnumAccess>::variant_seed
//@ret: r
//@requires: enum_ok(self)
//@ensures: exists|y: Yaml, q: Res<V::Value>| y is UnquotedString && y->UnquotedString_0@ == self.variant@ && #[trigger] $p0.takes(De { yaml: y, cx: cx(self.anchors) }, q) && (q is Err ==> r is Err) && (q is Ok ==> r is Ok && r->Ok_0.0 == q->Ok_0 && de(r->Ok_0.1) == (De { yaml: self.value, cx: cx(self.anchors) }) && de_ok(r->Ok_0.1))
//@end
}
impl YamlDeserializer {
//@extract fn yaml/deserializer.rs <YamlDeserializer as VariantAccess>::unit_variant
//@ret: r
//@ensures: r is Ok
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as VariantAccess>::newtype_variant_seed
//@ret: r
//@requires: de_ok(self)
//@ensures: $p0.takes(de(self), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as VariantAccess>::tuple_variant
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p1, seq_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as VariantAccess>::struct_variant
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p1, map_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_any
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, any_event(de(self)), r)
//@loop * inv:= sv_strs($m0@) =~= sv_strings($src@).take($it.index@)
//@decreases: if self.yaml is Anchor { 1nat } else { 0nat }
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_i8
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, int_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_i16
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, int_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_i32
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, int_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_i64
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, int_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_u8
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, uint_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_u16
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, uint_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_u32
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, uint_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_u64
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, uint_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_f32
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, float32_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_f64
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, float_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_bool
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, bool_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_char
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, str_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_str
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, str_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_string
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, str_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_identifier
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, str_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_bytes
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, seq_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_byte_buf
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, seq_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_seq
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, seq_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_tuple
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p1, seq_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_tuple_struct
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p2, seq_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_map
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, map_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_struct
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p2, map_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_option
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p0, option_event(de(self)), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_unit
//@ret: r
//@ensures: answers($p0, Some(Ev::Unit), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_unit_struct
//@ret: r
//@ensures: answers($p1, Some(Ev::Unit), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_ignored_any
//@ret: r
//@ensures: answers($p0, Some(Ev::Unit), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_newtype_struct
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p1, Some(Ev::Newtype(de(self))), r)
//@end
//@extract fn yaml/deserializer.rs <YamlDeserializer as Deserializer>::deserialize_enum
//@ret: r
//@requires: de_ok(self)
//@ensures: answers($p2, enum_event(de(self)), r)
//@end
}
