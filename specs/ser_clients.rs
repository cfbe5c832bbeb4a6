// what serde's own implementations do with a serializer (std collections, derived code), written
// down as clients and checked against the contracts above: serializers called in this order give
// a tree that holds the value
pub open spec fn models<T: Serialize>(v: Seq<T>) -> Seq<Data> { Seq::new(v.len(), |i: int| v[i].model()) }
pub open spec fn all_ok(v: Seq<Data>) -> bool { forall|i: int| 0 <= i < v.len() ==> keys_ok(#[trigger] v[i]) }
fn client_seq<T: Serialize>(v: &Vec<T>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::Seq(models(v@)), r->Ok_0), all_ok(models(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_seq(Some(v.len()))?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.elements@.len() == i, forall|j: int| 0 <= j < i ==> repr(v[j].model(), #[trigger] s.elements@[j]),
        decreases v.len() - i
    {
        let ghost before = s.elements@;
        proof { if all_ok(models(v@)) { assert(keys_ok(models(v@)[i as int])); } }
        s.serialize_element(&v[i])?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.elements@[j] == before[j]) by { assert(s.elements@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.elements@;
    let r = s.end();
    proof { lem_client_seq(models(v@), e, r->Ok_0); }
    r
}
fn client_tuple<T: Serialize>(v: &Vec<T>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::Tuple(models(v@)), r->Ok_0), all_ok(models(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_tuple(v.len())?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.elements@.len() == i, forall|j: int| 0 <= j < i ==> repr(v[j].model(), #[trigger] s.elements@[j]),
        decreases v.len() - i
    {
        let ghost before = s.elements@;
        proof { if all_ok(models(v@)) { assert(keys_ok(models(v@)[i as int])); } }
        s.serialize_element(&v[i])?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.elements@[j] == before[j]) by { assert(s.elements@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.elements@;
    let r = s.end();
    proof { lem_client_seq(models(v@), e, r->Ok_0); }
    r
}
fn client_tuple_struct<T: Serialize>(name: &'static str, v: &Vec<T>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::Tuple(models(v@)), r->Ok_0), all_ok(models(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_tuple_struct(name, v.len())?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.elements@.len() == i, forall|j: int| 0 <= j < i ==> repr(v[j].model(), #[trigger] s.elements@[j]),
        decreases v.len() - i
    {
        let ghost before = s.elements@;
        proof { if all_ok(models(v@)) { assert(keys_ok(models(v@)[i as int])); } }
        s.serialize_field(&v[i])?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.elements@[j] == before[j]) by { assert(s.elements@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.elements@;
    let r = s.end_struct();
    proof { lem_client_seq(models(v@), e, r->Ok_0); }
    r
}
fn client_tuple_variant<T: Serialize>(name: &'static str, n: u32, variant: &'static str, v: &Vec<T>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::TupleVariant(variant@, models(v@)), r->Ok_0), all_ok(models(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_tuple_variant(name, n, variant, v.len())?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.variant@ == variant@, s.inner.elements@.len() == i, forall|j: int| 0 <= j < i ==> repr(v[j].model(), #[trigger] s.inner.elements@[j]),
        decreases v.len() - i
    {
        let ghost before = s.inner.elements@;
        proof { if all_ok(models(v@)) { assert(keys_ok(models(v@)[i as int])); } }
        s.serialize_field(&v[i])?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.inner.elements@[j] == before[j]) by { assert(s.inner.elements@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.inner.elements@;
    let r = s.end();
    proof { assert(holds_seq(models(v@), sole(r->Ok_0, variant@)->0)); assert(all_plain(e)); }
    r
}
pub open spec fn fields<T: Serialize>(v: Seq<(&'static str, T)>) -> Seq<(Seq<char>, Data)> { Seq::new(v.len(), |i: int| (v[i].0@, v[i].1.model())) }
pub open spec fn fields_ok(v: Seq<(Seq<char>, Data)>) -> bool { forall|i: int| 0 <= i < v.len() ==> keys_ok((#[trigger] v[i]).1) }
pub open spec fn entry_holds(e: (String, Yaml), k: Seq<char>, d: Data) -> bool { e.0@ == k && repr(d, e.1) }
fn client_struct<T: Serialize>(name: &'static str, v: &Vec<(&'static str, T)>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::Struct(fields(v@)), r->Ok_0), fields_ok(fields(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_struct(name, v.len())?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.entries@.len() == i, forall|j: int| 0 <= j < i ==> entry_holds(#[trigger] s.entries@[j], v[j].0@, v[j].1.model()),
        decreases v.len() - i
    {
        let ghost before = s.entries@;
        proof { if fields_ok(fields(v@)) { assert(keys_ok(fields(v@)[i as int].1)); } }
        s.serialize_field(v[i].0, &v[i].1)?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.entries@[j] == before[j]) by { assert(s.entries@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.entries@;
    let r = s.end_struct();
    proof { lem_client_fields(fields(v@), e, r->Ok_0); }
    r
}
fn client_struct_variant<T: Serialize>(name: &'static str, n: u32, variant: &'static str, v: &Vec<(&'static str, T)>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::StructVariant(variant@, fields(v@)), r->Ok_0), fields_ok(fields(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_struct_variant(name, n, variant, v.len())?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.variant@ == variant@, s.inner.entries@.len() == i, forall|j: int| 0 <= j < i ==> entry_holds(#[trigger] s.inner.entries@[j], v[j].0@, v[j].1.model()),
        decreases v.len() - i
    {
        let ghost before = s.inner.entries@;
        proof { if fields_ok(fields(v@)) { assert(keys_ok(fields(v@)[i as int].1)); } }
        s.serialize_field(v[i].0, &v[i].1)?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.inner.entries@[j] == before[j]) by { assert(s.inner.entries@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.inner.entries@;
    let r = s.end();
    proof {
        lem_client_entries(fields(v@), e);
        assert(holds_fields(fields(v@), sole(r->Ok_0, variant@)->0));
    }
    r
}
pub open spec fn kv<K: Serialize, T: Serialize>(v: Seq<(K, T)>) -> Seq<(Data, Data)> { Seq::new(v.len(), |i: int| (v[i].0.model(), v[i].1.model())) }
pub open spec fn kv_ok(v: Seq<(Data, Data)>) -> bool { forall|i: int| 0 <= i < v.len() ==> key_ok((#[trigger] v[i]).0) && keys_ok(v[i].1) }
pub open spec fn keyed_holds(e: (String, Yaml), k: Data, d: Data) -> bool { key_text(k) == Some(e.0@) && repr(d, e.1) }
fn client_map<K: Serialize, T: Serialize>(v: &Vec<(K, T)>) -> (r: SRes)
    ensures r is Ok ==> repr(Data::Map(kv(v@)), r->Ok_0), kv_ok(kv(v@)) ==> r is Ok
{
    let mut s = YamlSerializer.serialize_map(Some(v.len()))?;
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v.len(), s.entries@.len() == i, forall|j: int| 0 <= j < i ==> keyed_holds(#[trigger] s.entries@[j], v[j].0.model(), v[j].1.model()),
        decreases v.len() - i
    {
        let ghost before = s.entries@;
        proof { if kv_ok(kv(v@)) { assert(key_ok(kv(v@)[i as int].0)); } }
        s.serialize_key(&v[i].0)?;
        s.serialize_value(&v[i].1)?;
        proof { assert(forall|j: int| 0 <= j < i ==> #[trigger] s.entries@[j] == before[j]) by { assert(s.entries@.drop_last() == before); } }
        i = i + 1;
    }
    let ghost e = s.entries@;
    let r = s.end();
    proof { lem_client_map(kv(v@), e, r->Ok_0); }
    r
}
proof fn lem_client_seq(v: Seq<Data>, e: Seq<Yaml>, y: Yaml)
    requires e.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> repr(v[j], #[trigger] e[j]), seq_of(y) == Some(e), all_plain(e) ==> p3(y, true)
    ensures repr(Data::Seq(v), y), repr(Data::Tuple(v), y)
{
    assert(holds_seq(v, y));
    assert(all_plain(e));
}
proof fn lem_client_entries(v: Seq<(Seq<char>, Data)>, e: Seq<(String, Yaml)>)
    requires e.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> entry_holds(#[trigger] e[j], v[j].0, v[j].1)
    ensures entries_plain(e), forall|j: int| 0 <= j < v.len() ==> (#[trigger] pairs(e)[j]).0 == v[j].0 && holds(v[j].1, pairs(e)[j].1)
{
    assert forall|i: int| 0 <= i < e.len() implies p3((#[trigger] e[i]).1, true) by { assert(entry_holds(e[i], v[i].0, v[i].1)); }
    assert forall|j: int| 0 <= j < v.len() implies (#[trigger] pairs(e)[j]).0 == v[j].0 && holds(v[j].1, pairs(e)[j].1) by { assert(entry_holds(e[j], v[j].0, v[j].1)); }
}
proof fn lem_client_fields(v: Seq<(Seq<char>, Data)>, e: Seq<(String, Yaml)>, y: Yaml)
    requires e.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> entry_holds(#[trigger] e[j], v[j].0, v[j].1), map_of(y) == Some(pairs(e)), entries_plain(e) ==> p3(y, true)
    ensures repr(Data::Struct(v), y)
{
    lem_client_entries(v, e);
    assert(holds_fields(v, y));
}
proof fn lem_client_map(v: Seq<(Data, Data)>, e: Seq<(String, Yaml)>, y: Yaml)
    requires e.len() == v.len(), forall|j: int| 0 <= j < v.len() ==> keyed_holds(#[trigger] e[j], v[j].0, v[j].1), map_of(y) == Some(pairs(e)), entries_plain(e) ==> p3(y, true)
    ensures repr(Data::Map(v), y)
{
    assert forall|i: int| 0 <= i < e.len() implies p3((#[trigger] e[i]).1, true) by { assert(keyed_holds(e[i], v[i].0, v[i].1)); }
    assert(entries_plain(e));
    assert forall|j: int| 0 <= j < v.len() implies key_text(v[j].0) == Some((#[trigger] pairs(e)[j]).0) && holds(v[j].1, pairs(e)[j].1) by { assert(keyed_holds(e[j], v[j].0, v[j].1)); }
    assert(holds_map(v, y));
}
