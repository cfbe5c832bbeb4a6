//@extract fn yaml/mod.rs can_be_unquoted_in_block
//@ret: r
//@ensures: r ==> block_plain($p0@) && plain_kind($p0@) is Str, wordy($p0@) ==> r
//@loop 0 inv:= !$m0 ==> forall|j: int| 0 <= j < $it.index@ ==> (is_ws(#[trigger] $p0@[j]) ==> $p0@[j] == ' ')
//@loop 0 inv:= $m0 ==> exists|j: int| 0 <= j < $p0@.len() && is_ws(#[trigger] $p0@[j]) && $p0@[j] != ' '
//@end
//@extract fn yaml/mod.rs inline_breaking_chars
//@ret: r
//@ensures: r == breaking($p0@)
//@end
//@extract fn yaml/serializer.rs str_to_yaml
//@ret: r
//@ensures: repr(Data::Str($p0@), r), wordy($p0@) ==> r is UnquotedString
//@loop 0 inv:= dq_value($m0@) + $m1@ =~= $p0@.take($it.index@), dq_ok($m0@), !$m1@.contains('"'), !$m1@.contains('\\'), !$m1@.contains('\n')
//@loop 1 inv:= sq_value($m0@) + $m1@ =~= $p0@.take($it.index@), sq_ok($m0@), !$m1@.contains('\''), !$m1@.contains('\n')
//@loop 2 inv:= dq_value($m0@) + $m1@ =~= $p0@.take($it.index@), dq_ok($m0@), !$m1@.contains('"'), !$m1@.contains('\\'), !$m1@.contains('\n')
//@end
//@extract fn yaml/serializer.rs aliased
//@ret: r
//@ensures: r.alias is None, r.value == $p0
//@end
//@extract fn yaml/serializer.rs tagged
//@ret: r
//@ensures: sole(r, $p0@) == Some($p1), p3($p1, true) ==> p3(r, true)
//@end: proof { lem_tagged(r__); }
//@end
//@extract fn yaml/serializer.rs yaml_to_key_string
//@ret: r
//@ensures: match $p0 { Yaml::UnquotedString(_) | Yaml::DoubleQuotedString(_) => r is Ok && Some(r->Ok_0@) == scalar_value($p0), _ => r is Err }
//@end
impl YamlSerializer {
//@extract fn yaml/serializer.rs YamlSerializer::new
//@ret: r
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_bool
//@ret: r
//@ensures: r is Ok && repr(Data::Bool($p0), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_i8
//@ret: r
//@ensures: r is Ok && repr(Data::Int($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_i16
//@ret: r
//@ensures: r is Ok && repr(Data::Int($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_i32
//@ret: r
//@ensures: r is Ok && repr(Data::Int($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_i64
//@ret: r
//@ensures: r is Ok && repr(Data::Int($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_i128
//@ret: r
//@ensures: r is Ok && repr(Data::Int($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_u8
//@ret: r
//@ensures: r is Ok && repr(Data::Uint($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_u16
//@ret: r
//@ensures: r is Ok && repr(Data::Uint($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_u32
//@ret: r
//@ensures: r is Ok && repr(Data::Uint($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_u64
//@ret: r
//@ensures: r is Ok && repr(Data::Uint($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_u128
//@ret: r
//@ensures: r is Ok && repr(Data::Uint($p0 as int), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_f32
//@ret: r
//@ensures: r is Ok && repr(Data::F32($p0), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_f64
//@ret: r
//@ensures: r is Ok && repr(Data::F64($p0), r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_char
//@ret: r
//@ensures: r is Ok && repr(Data::Str(seq![$p0]), r->Ok_0)
//@ensures: wordy(seq![$p0]) ==> r->Ok_0 is UnquotedString
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_str
//@ret: r
//@ensures: r is Ok && repr(Data::Str($p0@), r->Ok_0)
//@ensures: wordy($p0@) ==> r->Ok_0 is UnquotedString
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_bytes
//@ret: r
//@ensures: r is Ok && repr(Data::Bytes($p0@), r->Ok_0)
//@end: proof { lem_bytes($p0@, r__->Ok_0); }
//@loop 0 inv:= $m0@.len() == $it.index@, forall|i: int| 0 <= i < $m0@.len() ==> match #[trigger] $m0@[i] { ArrayData::Element(e) => e.alias is None && num(e.value, int_str($p0@[i] as int)), _ => false }
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_none
//@ret: r
//@ensures: r is Ok && repr(Data::None_, r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_some
//@ret: r
//@ensures: r is Ok ==> repr(Data::Some_(Box::new($p0.model())), r->Ok_0)
//@ensures: keys_ok($p0.model()) ==> r is Ok
//@ensures: key_ok($p0.model()) ==> r is Ok && r->Ok_0 is UnquotedString
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_unit
//@ret: r
//@ensures: r is Ok && repr(Data::Unit, r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_unit_struct
//@ret: r
//@ensures: r is Ok && repr(Data::Unit, r->Ok_0)
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_unit_variant
//@ret: r
//@ensures: r is Ok && repr(Data::UnitVariant($p2@), r->Ok_0)
//@ensures: wordy($p2@) ==> r->Ok_0 is UnquotedString
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_newtype_struct
//@ret: r
//@ensures: r is Ok ==> repr(Data::Newtype(Box::new($p1.model())), r->Ok_0)
//@ensures: keys_ok($p1.model()) ==> r is Ok
//@ensures: key_ok($p1.model()) ==> r is Ok && r->Ok_0 is UnquotedString
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_newtype_variant
//@ret: r
//@ensures: r is Ok ==> repr(Data::NewtypeVariant($p2@, Box::new($p3.model())), r->Ok_0)
//@ensures: keys_ok($p3.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_seq
//@ret: r
//@ensures: r is Ok && r->Ok_0.elements@.len() == 0
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_tuple
//@ret: r
//@ensures: r is Ok && r->Ok_0.elements@.len() == 0
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_tuple_struct
//@ret: r
//@ensures: r is Ok && r->Ok_0.elements@.len() == 0
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_tuple_variant
//@ret: r
//@ensures: r is Ok && r->Ok_0.inner.elements@.len() == 0 && r->Ok_0.variant@ == $p2@
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_map
//@ret: r
//@ensures: r is Ok && r->Ok_0.entries@.len() == 0 && r->Ok_0.current_key is None
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_struct
//@ret: r
//@ensures: r is Ok && r->Ok_0.entries@.len() == 0 && r->Ok_0.current_key is None
//@end
//@extract fn yaml/serializer.rs <YamlSerializer as Serializer>::serialize_struct_variant
//@ret: r
//@ensures: r is Ok && r->Ok_0.inner.entries@.len() == 0 && r->Ok_0.inner.current_key is None && r->Ok_0.variant@ == $p2@
//@end
}
impl SeqSerializer {
//@extract fn yaml/serializer.rs <SeqSerializer as SerializeSeq>::serialize_element
//@ret: r
//@ensures: r is Ok ==> final(self).elements@.len() == old(self).elements@.len() + 1 && final(self).elements@.drop_last() == old(self).elements@ && repr($p0.model(), final(self).elements@.last())
//@ensures: keys_ok($p0.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <SeqSerializer as SerializeSeq>::end
//@ret: r
//@ensures: r is Ok && seq_of(r->Ok_0) == Some(self.elements@) && (all_plain(self.elements@) ==> p3(r->Ok_0, true))
//@loop 0 inv:= $m0@ =~= elements_of($src@.take($it.index@))
//@end
}
impl TupleSerializer {
//@extract fn yaml/serializer.rs <TupleSerializer as SerializeTuple>::serialize_element
//@ret: r
//@ensures: r is Ok ==> final(self).elements@.len() == old(self).elements@.len() + 1 && final(self).elements@.drop_last() == old(self).elements@ && repr($p0.model(), final(self).elements@.last())
//@ensures: keys_ok($p0.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <TupleSerializer as SerializeTuple>::end
//@ret: r
//@ensures: r is Ok && seq_of(r->Ok_0) == Some(self.elements@) && (all_plain(self.elements@) ==> p3(r->Ok_0, true))
//@end
//@extract fn yaml/serializer.rs <TupleSerializer as SerializeTupleStruct>::serialize_field
//@ret: r
//@ensures: r is Ok ==> final(self).elements@.len() == old(self).elements@.len() + 1 && final(self).elements@.drop_last() == old(self).elements@ && repr($p0.model(), final(self).elements@.last())
//@ensures: keys_ok($p0.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <TupleSerializer as SerializeTupleStruct>::end
//@ret: r
//@name: end_struct
//@ensures: r is Ok && seq_of(r->Ok_0) == Some(self.elements@) && (all_plain(self.elements@) ==> p3(r->Ok_0, true))
//@end
}
impl VariantSerializer<TupleSerializer> {
//@extract fn yaml/serializer.rs <VariantSerializer as SerializeTupleVariant>::serialize_field
//@ret: r
//@ensures: r is Ok ==> final(self).inner.elements@.len() == old(self).inner.elements@.len() + 1 && final(self).inner.elements@.drop_last() == old(self).inner.elements@ && repr($p0.model(), final(self).inner.elements@.last())
//@ensures: keys_ok($p0.model()) ==> r is Ok
//@ensures: final(self).variant == old(self).variant
//@end
//@extract fn yaml/serializer.rs <VariantSerializer as SerializeTupleVariant>::end
//@ret: r
//@ensures: r is Ok && sole(r->Ok_0, self.variant@) is Some && seq_of(sole(r->Ok_0, self.variant@)->0) == Some(self.inner.elements@) && (all_plain(self.inner.elements@) ==> p3(r->Ok_0, true))
//@end
}
impl MapSerializer {
//@extract fn yaml/serializer.rs <MapSerializer as SerializeMap>::serialize_key
//@ret: r
//@ensures: final(self).entries == old(self).entries
//@ensures: r is Ok ==> final(self).current_key is Some && key_text($p0.model()) == Some(final(self).current_key->0@)
//@ensures: key_ok($p0.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <MapSerializer as SerializeMap>::serialize_value
//@ret: r
//@requires: old(self).current_key is Some
//@ensures: r is Ok ==> final(self).entries@.len() == old(self).entries@.len() + 1 && final(self).entries@.drop_last() == old(self).entries@ && final(self).entries@.last().0 == old(self).current_key->0 && repr($p0.model(), final(self).entries@.last().1)
//@ensures: keys_ok($p0.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <MapSerializer as SerializeMap>::end
//@ret: r
//@ensures: r is Ok && map_of(r->Ok_0) == Some(pairs(self.entries@)) && (entries_plain(self.entries@) ==> p3(r->Ok_0, true))
//@loop 0 inv:= $m0@ =~= entries_of($src@.take($it.index@))
//@end
//@extract fn yaml/serializer.rs <MapSerializer as SerializeStruct>::serialize_field
//@ret: r
//@ensures: r is Ok ==> final(self).entries@.len() == old(self).entries@.len() + 1 && final(self).entries@.drop_last() == old(self).entries@ && final(self).entries@.last().0@ == $p0@ && repr($p1.model(), final(self).entries@.last().1)
//@ensures: keys_ok($p1.model()) ==> r is Ok
//@end
//@extract fn yaml/serializer.rs <MapSerializer as SerializeStruct>::end
//@ret: r
//@name: end_struct
//@ensures: r is Ok && map_of(r->Ok_0) == Some(pairs(self.entries@)) && (entries_plain(self.entries@) ==> p3(r->Ok_0, true))
//@end
}
impl VariantSerializer<MapSerializer> {
//@extract fn yaml/serializer.rs <VariantSerializer as SerializeStructVariant>::serialize_field
//@ret: r
//@ensures: r is Ok ==> final(self).inner.entries@.len() == old(self).inner.entries@.len() + 1 && final(self).inner.entries@.drop_last() == old(self).inner.entries@ && final(self).inner.entries@.last().0@ == $p0@ && repr($p1.model(), final(self).inner.entries@.last().1)
//@ensures: keys_ok($p1.model()) ==> r is Ok
//@ensures: final(self).variant == old(self).variant
//@end
//@extract fn yaml/serializer.rs <VariantSerializer as SerializeStructVariant>::end
//@ret: r
//@ensures: r is Ok && sole(r->Ok_0, self.variant@) is Some && map_of(sole(r->Ok_0, self.variant@)->0) == Some(pairs(self.inner.entries@)) && (entries_plain(self.inner.entries@) ==> p3(r->Ok_0, true))
//@end
}
