/// the node of a scalar has its text
pub broadcast proof fn lem_key(d: Data, y: Yaml)
    requires #[trigger] repr(d, y), y is UnquotedString || y is DoubleQuotedString
    ensures #[trigger] key_text(d) is Some, scalar_value(y) == key_text(d)
    decreases d
{
    match d {
        Data::Some_(x) => { lem_key(*x, y); }
        Data::Newtype(x) => { lem_key(*x, y); }
        Data::Seq(v) | Data::Tuple(v) => { assert(holds_seq(v, y)); }
        Data::Map(v) => { assert(holds_map(v, y)); }
        Data::Struct(v) => { assert(holds_fields(v, y)); }
        _ => {}
    }
}
// --- what collections made of values hold --------------------------------------
pub proof fn lem_elements(d: Seq<ArrayData>)
    requires forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) is Element
    ensures elem_values(d).len() == d.len(), forall|i: int| 0 <= i < d.len() ==> elem_values(d)[i] == (#[trigger] d[i])->Element_0.value
    decreases d.len()
{
    if d.len() > 0 {
        assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d.drop_last()[i]) is Element by { assert(d[i] is Element); }
        lem_elements(d.drop_last());
        assert(d[d.len() - 1] is Element);
        assert forall|i: int| 0 <= i < d.len() implies elem_values(d)[i] == (#[trigger] d[i])->Element_0.value by { if i < d.len() - 1 { assert(d.drop_last()[i] == d[i]); } }
    }
}
pub broadcast proof fn lem_elements_of(v: Seq<Yaml>)
    ensures elem_values(#[trigger] elements_of(v)) == v, all_plain(v) ==> p3_array(elements_of(v), true)
{
    lem_elements(elements_of(v));
    assert(elem_values(elements_of(v)) =~= v) by { assert forall|i: int| 0 <= i < v.len() implies elem_values(elements_of(v))[i] == v[i] by { assert(elements_of(v)[i] is Element); } }
}
pub proof fn lem_entries(d: Seq<HashData>)
    requires forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) is Element
    ensures entry_values(d).len() == d.len(), forall|i: int| 0 <= i < d.len() ==> entry_values(d)[i] == ((#[trigger] d[i])->Element_0.key@, d[i]->Element_0.value.value)
    decreases d.len()
{
    if d.len() > 0 {
        assert forall|i: int| 0 <= i < d.len() - 1 implies (#[trigger] d.drop_last()[i]) is Element by { assert(d[i] is Element); }
        lem_entries(d.drop_last());
        assert(d[d.len() - 1] is Element);
        assert forall|i: int| 0 <= i < d.len() implies entry_values(d)[i] == ((#[trigger] d[i])->Element_0.key@, d[i]->Element_0.value.value) by { if i < d.len() - 1 { assert(d.drop_last()[i] == d[i]); } }
    }
}
pub broadcast proof fn lem_entries_of(v: Seq<(String, Yaml)>)
    ensures entry_values(#[trigger] entries_of(v)) == pairs(v), entries_plain(v) ==> p3_hash(entries_of(v), true)
{
    lem_entries(entries_of(v));
    assert(entry_values(entries_of(v)) =~= pairs(v)) by { assert forall|i: int| 0 <= i < v.len() implies entry_values(entries_of(v))[i] == pairs(v)[i] by { assert(entries_of(v)[i] is Element); } }
}
pub proof fn lem_tagged(y: Yaml)
    ensures match y {
        Yaml::Hash(h) => h@.len() == 1 && h@[0] is Element ==> map_of(y)->0 =~= seq![(h@[0]->Element_0.key@, h@[0]->Element_0.value.value)]
            && (h@[0]->Element_0.value.alias is None && p3(h@[0]->Element_0.value.value, true) ==> p3(y, true)),
        _ => true,
    }
{
    match y {
        Yaml::Hash(h) => {
            if h@.len() == 1 && h@[0] is Element {
                lem_entries(h@);
                assert(h@[0] is Element);
                if h@[0]->Element_0.value.alias is None && p3(h@[0]->Element_0.value.value, true) { assert(p3_hd(h@[0], true)); assert(p3_hash(h@, true)); }
            }
        }
        _ => {}
    }
}
pub proof fn lem_bytes(b: Seq<u8>, y: Yaml)
    requires match y { Yaml::Array(a) => a@.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> match #[trigger] a@[i] { ArrayData::Element(e) => e.alias is None && num(e.value, int_str(b[i] as int)), _ => false }, _ => false }
    ensures repr(Data::Bytes(b), y)
{
    let a = y->Array_0@;
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]) is Element by { assert(y->Array_0@[i] == a[i]); }
    lem_elements(a);
    assert forall|i: int| 0 <= i < b.len() implies num(#[trigger] elem_values(a)[i], int_str(b[i] as int)) by { assert(a[i] is Element); }
    assert(holds_bytes(b, y));
    assert forall|i: int| 0 <= i < a.len() implies p3_ad(#[trigger] a[i], true) by { assert(y->Array_0@[i] == a[i]); let e = a[i]->Element_0; assert(scalar_value(e.value) is Some); }
}
// --- beautifying keeps it ------------------------------------------------------
pub proof fn lem_keeps_array(d: Seq<ArrayData>, e: Seq<ArrayData>)
    requires keeps_array(d, e)
    ensures elem_values(d).len() == elem_values(e).len(), forall|i: int| 0 <= i < elem_values(d).len() ==> keeps(#[trigger] elem_values(d)[i], elem_values(e)[i])
    decreases d.len()
{
    if d.len() > 0 {
        assert(keeps_ad(d[d.len() - 1], e[d.len() - 1]));
        assert forall|i: int| 0 <= i < d.len() - 1 implies keeps_ad(#[trigger] d.drop_last()[i], e.drop_last()[i]) by { assert(keeps_ad(d[i], e[i])); }
        lem_keeps_array(d.drop_last(), e.drop_last());
    }
}
pub proof fn lem_keeps_array_flow(d: Seq<ArrayData>, e: Seq<Yaml>)
    requires keeps_array_flow(d, e)
    ensures elem_values(d).len() == e.len(), forall|i: int| 0 <= i < e.len() ==> keeps(#[trigger] elem_values(d)[i], e[i])
    decreases d.len()
{
    if d.len() > 0 {
        match d.last() {
            ArrayData::Element(a) => { lem_keeps_array_flow(d.drop_last(), e.drop_last()); }
            _ => { lem_keeps_array_flow(d.drop_last(), e); }
        }
    }
}
pub open spec fn keeps_pairs(a: Seq<(Seq<char>, Yaml)>, b: Seq<(Seq<char>, Yaml)>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0 == b[i].0 && keeps(a[i].1, b[i].1)
}
pub proof fn lem_keeps_hash(d: Seq<HashData>, e: Seq<HashData>)
    requires keeps_hash(d, e)
    ensures keeps_pairs(entry_values(d), entry_values(e))
    decreases d.len()
{
    if d.len() > 0 {
        assert(keeps_hd(d[d.len() - 1], e[d.len() - 1]));
        assert forall|i: int| 0 <= i < d.len() - 1 implies keeps_hd(#[trigger] d.drop_last()[i], e.drop_last()[i]) by { assert(keeps_hd(d[i], e[i])); }
        lem_keeps_hash(d.drop_last(), e.drop_last());
    }
}
pub proof fn lem_keeps_hash_flow(d: Seq<HashData>, e: Seq<(String, Yaml)>)
    requires keeps_hash_flow(d, e)
    ensures keeps_pairs(entry_values(d), pairs(e))
    decreases d.len()
{
    if d.len() > 0 {
        match d.last() {
            HashData::Element(a) => { lem_keeps_hash_flow(d.drop_last(), e.drop_last()); assert(pairs(e.drop_last()) =~= pairs(e).drop_last()); }
            _ => { lem_keeps_hash_flow(d.drop_last(), e); }
        }
    }
}
pub proof fn lem_keeps_seq(y: Yaml, r: Yaml)
    requires keeps(y, r), seq_of(y) is Some
    ensures seq_of(r) is Some, seq_of(r)->0.len() == seq_of(y)->0.len(), forall|i: int| 0 <= i < seq_of(y)->0.len() ==> keeps(#[trigger] seq_of(y)->0[i], seq_of(r)->0[i])
{
    match (y, r) {
        (Yaml::Array(d), Yaml::Array(e)) => { assert(keeps_array(d@, e@)); lem_keeps_array(d@, e@); }
        (Yaml::Array(d), Yaml::InlineArray(e)) => { assert(keeps_array_flow(d@, e@)); lem_keeps_array_flow(d@, e@); }
        (Yaml::InlineArray(d), Yaml::InlineArray(e)) => { assert(keeps_flow_array(d@, e@)); }
        _ => {}
    }
}
pub proof fn lem_keeps_map(y: Yaml, r: Yaml)
    requires keeps(y, r), map_of(y) is Some
    ensures map_of(r) is Some, keeps_pairs(map_of(y)->0, map_of(r)->0)
{
    match (y, r) {
        (Yaml::Hash(d), Yaml::Hash(e)) => { assert(keeps_hash(d@, e@)); lem_keeps_hash(d@, e@); }
        (Yaml::Hash(d), Yaml::InlineHash(e)) => { assert(keeps_hash_flow(d@, e@)); lem_keeps_hash_flow(d@, e@); }
        (Yaml::InlineHash(d), Yaml::InlineHash(e)) => { assert(keeps_flow_hash(d@, e@)); assert(keeps_pairs(pairs(d@), pairs(e@))) by { assert forall|i: int| 0 <= i < d@.len() implies (#[trigger] pairs(d@)[i]).0 == pairs(e@)[i].0 && keeps(pairs(d@)[i].1, pairs(e@)[i].1) by { assert(d@[i].0 == e@[i].0); } } }
        _ => {}
    }
}
pub proof fn lem_keeps_sole(y: Yaml, r: Yaml, k: Seq<char>)
    requires keeps(y, r), sole(y, k) is Some
    ensures sole(r, k) is Some, keeps(sole(y, k)->0, sole(r, k)->0)
{ lem_keeps_map(y, r); assert(map_of(y)->0[0].0 == map_of(r)->0[0].0); }
pub proof fn lem_keeps_holds_seq(v: Seq<Data>, y: Yaml, r: Yaml)
    requires holds_seq(v, y), keeps(y, r)
    ensures holds_seq(v, r)
    decreases v, 0int
{
    lem_keeps_seq(y, r);
    assert forall|i: int| 0 <= i < v.len() implies holds(v[i], #[trigger] seq_of(r)->0[i]) by { let x = seq_of(y)->0[i]; assert(holds(v[i], x)); lem_keeps_holds(v[i], x, seq_of(r)->0[i]); }
}
pub proof fn lem_keeps_holds_fields(v: Seq<(Seq<char>, Data)>, y: Yaml, r: Yaml)
    requires holds_fields(v, y), keeps(y, r)
    ensures holds_fields(v, r)
    decreases v, 0int
{
    lem_keeps_map(y, r);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] map_of(r)->0[i]).0 == v[i].0 && holds(v[i].1, map_of(r)->0[i].1) by { let x = map_of(y)->0[i]; assert(x.0 == v[i].0); lem_keeps_holds(v[i].1, x.1, map_of(r)->0[i].1); }
}
pub proof fn lem_keeps_holds_map(v: Seq<(Data, Data)>, y: Yaml, r: Yaml)
    requires holds_map(v, y), keeps(y, r)
    ensures holds_map(v, r)
    decreases v, 0int
{
    lem_keeps_map(y, r);
    assert forall|i: int| 0 <= i < v.len() implies key_text(v[i].0) == Some((#[trigger] map_of(r)->0[i]).0) && holds(v[i].1, map_of(r)->0[i].1) by { let x = map_of(y)->0[i]; assert(key_text(v[i].0) == Some(x.0)); lem_keeps_holds(v[i].1, x.1, map_of(r)->0[i].1); }
}
/// beautifying (`keeps`, proved of the code in u_pretty) leaves the data
pub proof fn lem_keeps_holds(d: Data, y: Yaml, r: Yaml)
    requires holds(d, y), keeps(y, r)
    ensures holds(d, r)
    decreases d, 0int
{
    match d {
        Data::Bytes(b) => {
            lem_keeps_seq(y, r);
            assert forall|i: int| 0 <= i < b.len() implies num(#[trigger] seq_of(r)->0[i], int_str(b[i] as int)) by { let x = seq_of(y)->0[i]; assert(num(x, int_str(b[i] as int))); assert(keeps(x, seq_of(r)->0[i])); }
        }
        Data::Some_(x) => { lem_keeps_holds(*x, y, r); }
        Data::Newtype(x) => { lem_keeps_holds(*x, y, r); }
        Data::Seq(v) => { lem_keeps_holds_seq(v, y, r); }
        Data::Tuple(v) => { lem_keeps_holds_seq(v, y, r); }
        Data::Map(v) => { lem_keeps_holds_map(v, y, r); }
        Data::Struct(v) => { lem_keeps_holds_fields(v, y, r); }
        Data::NewtypeVariant(n, x) => { lem_keeps_sole(y, r, n); lem_keeps_holds(*x, sole(y, n)->0, sole(r, n)->0); }
        Data::TupleVariant(n, v) => { lem_keeps_sole(y, r, n); lem_keeps_holds_seq(v, sole(y, n)->0, sole(r, n)->0); }
        Data::StructVariant(n, v) => { lem_keeps_sole(y, r, n); lem_keeps_holds_fields(v, sole(y, n)->0, sole(r, n)->0); }
        _ => {}
    }
}
// --- a tree that holds the data gives it to the reader -------------------------
pub proof fn lem_resolved(y: Yaml, c: Ctx)
    requires !(y is Anchor)
    ensures resolved(at(y, c)) == Some((y, c))
{}
pub proof fn lem_bools()
    ensures forall|b: bool| !null_text(#[trigger] bool_text(b)) && true_text(bool_text(b)) == b && false_text(bool_text(b)) == !b && yes_text(bool_text(b)) == b && no_text(bool_text(b)) == !b,
{
    reveal_strlit("true"); reveal_strlit("True"); reveal_strlit("TRUE"); reveal_strlit("yes"); reveal_strlit("Yes"); reveal_strlit("YES"); reveal_strlit("on"); reveal_strlit("On"); reveal_strlit("ON");
    reveal_strlit("false");
    assert("true"@ =~= bool_text(true)); assert("false"@ =~= bool_text(false));
    let t = bool_text(true); let f = bool_text(false);
    assert(t.len() == 4 && f.len() == 5 && t[0] == 't' && t[1] == 'r' && f[0] == 'f');
    assert(null_text(t) ==> t[0] == '~' || t[0] == 'n' || t[0] == 'N');
    assert(null_text(f) ==> f[0] == '~' || f[0] == 'n' || f[0] == 'N');
    reveal_strlit("False"); reveal_strlit("FALSE"); reveal_strlit("no"); reveal_strlit("No"); reveal_strlit("NO"); reveal_strlit("off"); reveal_strlit("Off"); reveal_strlit("OFF");
    assert(no_text(t) ==> t[0] == 'f' || t[0] == 'F' || t[0] == 'n' || t[0] == 'N' || t[0] == 'o' || t[0] == 'O');
    assert(!yes_text(f)) by { assert(yes_text(f) ==> f[0] == 't' || f[0] == 'T' || f[0] == 'y' || f[0] == 'Y' || f[0] == 'o' || f[0] == 'O'); }
    assert forall|b: bool| !null_text(#[trigger] bool_text(b)) && true_text(bool_text(b)) == b && false_text(bool_text(b)) == !b && yes_text(bool_text(b)) == b && no_text(bool_text(b)) == !b by { if b { assert(bool_text(b) == t); } else { assert(bool_text(b) == f); } }
}
pub proof fn lem_not_null(d: Data, y: Yaml)
    requires holds(d, y), supported(d), !nullish(d)
    ensures match y { Yaml::UnquotedString(s) => !null_text(s@), _ => true }, !(y is Anchor)
    decreases d
{
    broadcast use {axiom_int_str, axiom_f64_str, axiom_f32_str};
    match d {
        Data::Some_(x) => { lem_not_null(*x, y); }
        Data::Newtype(x) => { lem_not_null(*x, y); }
        Data::Seq(v) | Data::Tuple(v) => { assert(holds_seq(v, y)); }
        Data::Map(v) => { assert(holds_map(v, y)); }
        Data::Struct(v) => { assert(holds_fields(v, y)); }
        Data::Bytes(v) => { assert(holds_bytes(v, y)); }
        Data::Bool(b) => { lem_bools(); assert(plain(y, bool_text(b))); }
        Data::NewtypeVariant(n, x) => { assert(sole(y, n) is Some); assert(map_of(y) is Some); }
        Data::TupleVariant(n, x) => { assert(sole(y, n) is Some); assert(map_of(y) is Some); }
        Data::StructVariant(n, x) => { assert(sole(y, n) is Some); assert(map_of(y) is Some); }
        Data::Int(n) | Data::Uint(n) => { assert(num(y, int_str(n))); }
        Data::F32(x) => { assert(finite32(x)); axiom_f32_str(x); assert(num(y, f32_str(x))); }
        Data::F64(x) => { assert(finite64(x)); axiom_f64_str(x); assert(num(y, f64_str(x))); }
        Data::Str(n) | Data::UnitVariant(n) => { assert(words(y, n)); }
        Data::None_ | Data::Unit => { assert(nullish(d)); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lem_gives_key(d: Data, k: Seq<char>, c: Ctx)
    requires key_supported(d), key_text(d) == Some(k)
    ensures gives_key(d, k, c)
    decreases d
{
    broadcast use {axiom_int_str, axiom_f64_str, axiom_f32_str};
    assert forall|y: Yaml| plain(y, k) implies gives(d, #[trigger] at(y, c)) by {
        lem_resolved(y, c);
        match d {
            Data::Some_(x) => { lem_gives_key(*x, k, c); assert(gives(*x, at(y, c))); assert(plain(y, key_text(*x)->0)); assert(option_event(at(y, c)) == Some(Ev::Some_(at(y, c)))); }
            Data::Newtype(x) => { lem_gives_key(*x, k, c); assert(gives(*x, at(y, c))); }
            Data::Bool(b) => { lem_bools(); assert(bool_text(b) == k); assert(bool_event(at(y, c)) == Some(Ev::Bool(b))); }
            Data::Int(n) => { assert(int_event(at(y, c)) == Some(Ev::I64(n as i64))); }
            Data::Uint(n) => { assert(uint_event(at(y, c)) == Some(Ev::U64(n as u64))); }
            Data::F32(x) => { assert(finite32(x)); axiom_f32_str(x); assert(float32_event(at(y, c)) == Some(Ev::F32(x))); }
            Data::F64(x) => { assert(finite64(x)); axiom_f64_str(x); assert(float_event(at(y, c)) == Some(Ev::F64(x))); }
            Data::Str(s) => { assert(str_event(at(y, c)) == Some(Ev::Str(s))); }
            Data::UnitVariant(s) => { assert(enum_event(at(y, c)) == Some(Ev::Enum(s, VarValue::Plain(seq!['~']), c))); }
            Data::None_ => { assert(null_text(k)); assert(option_event(at(y, c)) == Some(Ev::None_)); }
            _ => {}
        }
    }
}
pub proof fn lem_gives_seq(v: Seq<Data>, y: Yaml, c: Ctx)
    requires holds_seq(v, y), all_supported(v)
    ensures gives_seq(v, at(y, c))
    decreases v, 0int
{
    lem_resolved(y, c);
    let ys = seq_of(y)->0;
    assert forall|i: int| 0 <= i < v.len() implies gives(v[i], at(#[trigger] ys[i], c)) by { lem_gives(v[i], ys[i], c); }
}
pub proof fn lem_gives_fields(v: Seq<(Seq<char>, Data)>, y: Yaml, c: Ctx)
    requires holds_fields(v, y), fields_supported(v)
    ensures gives_fields(v, at(y, c))
    decreases v, 0int
{
    lem_resolved(y, c);
    let m = map_of(y)->0;
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] m[i]).0 == v[i].0 && gives(v[i].1, at(m[i].1, c)) by { lem_gives(v[i].1, m[i].1, c); }
}
pub proof fn lem_gives_map(v: Seq<(Data, Data)>, y: Yaml, c: Ctx)
    requires holds_map(v, y), entries_supported(v)
    ensures gives_map(v, at(y, c))
    decreases v, 0int
{
    lem_resolved(y, c);
    let m = map_of(y)->0;
    assert forall|i: int| 0 <= i < v.len() implies gives_key(v[i].0, (#[trigger] m[i]).0, c) && gives(v[i].1, at(m[i].1, c)) by { lem_gives_key(v[i].0, m[i].0, c); lem_gives(v[i].1, m[i].1, c); }
}
/// C15: whoever reads a tree that holds a value is given the value
pub proof fn lem_gives(d: Data, y: Yaml, c: Ctx)
    requires holds(d, y), supported(d)
    ensures gives(d, at(y, c))
    decreases d, 0int
{
    broadcast use {axiom_int_str, axiom_f64_str, axiom_f32_str};
    match d {
        Data::Bytes(b) => {
            lem_resolved(y, c);
            let ys = seq_of(y)->0;
            assert forall|i: int| 0 <= i < b.len() implies uint_event(at(#[trigger] ys[i], c)) == Some(Ev::U64(b[i] as u64)) by { assert(num(ys[i], int_str(b[i] as int))); lem_resolved(ys[i], c); }
        }
        Data::Some_(x) => { lem_not_null(*x, y); lem_resolved(y, c); lem_gives(*x, y, c); assert(option_event(at(y, c)) == Some(Ev::Some_(at(y, c)))); }
        Data::Newtype(x) => { lem_gives(*x, y, c); }
        Data::Seq(v) => { lem_gives_seq(v, y, c); }
        Data::Tuple(v) => { lem_gives_seq(v, y, c); }
        Data::Map(v) => { lem_gives_map(v, y, c); }
        Data::Struct(v) => { lem_gives_fields(v, y, c); }
        Data::NewtypeVariant(n, x) => {
            lem_resolved(y, c);
            let z = sole(y, n)->0;
            assert forall|w: Yaml| var_node(vv(z), w) implies gives(*x, #[trigger] at(w, c)) by { lem_same(*x, z, w); lem_gives(*x, w, c); }
        }
        Data::TupleVariant(n, v) => {
            lem_resolved(y, c);
            let z = sole(y, n)->0;
            assert forall|w: Yaml| var_node(vv(z), w) implies gives_seq(v, #[trigger] at(w, c)) by { assert(holds_seq(v, z)); assert(w == z); lem_gives_seq(v, w, c); }
        }
        Data::StructVariant(n, v) => {
            lem_resolved(y, c);
            let z = sole(y, n)->0;
            assert forall|w: Yaml| var_node(vv(z), w) implies gives_fields(v, #[trigger] at(w, c)) by { assert(holds_fields(v, z)); assert(w == z); lem_gives_fields(v, w, c); }
        }
        Data::Bool(b) => { lem_resolved(y, c); lem_bools(); assert(plain(y, bool_text(b))); }
        Data::F32(x) => { lem_resolved(y, c); assert(finite32(x)); axiom_f32_str(x); assert(num(y, f32_str(x))); }
        Data::F64(x) => { lem_resolved(y, c); assert(finite64(x)); axiom_f64_str(x); assert(num(y, f64_str(x))); }
        Data::Int(n) | Data::Uint(n) => { lem_resolved(y, c); assert(num(y, int_str(n))); }
        Data::Str(n) | Data::UnitVariant(n) => { lem_resolved(y, c); assert(words(y, n)); }
        Data::None_ | Data::Unit => { lem_resolved(y, c); assert(plain(y, seq!['~'])); }
    }
}
/// plain scalars with the same characters hold the same
pub proof fn lem_same(d: Data, y: Yaml, w: Yaml)
    requires holds(d, y), var_node(vv(y), w)
    ensures holds(d, w)
    decreases d
{
    match d {
        Data::Some_(x) => { lem_same(*x, y, w); }
        Data::Newtype(x) => { lem_same(*x, y, w); }
        Data::Seq(v) | Data::Tuple(v) => { assert(holds_seq(v, y)); }
        Data::Map(v) => { assert(holds_map(v, y)); }
        Data::Struct(v) => { assert(holds_fields(v, y)); }
        Data::Bytes(v) => { assert(holds_bytes(v, y)); }
        _ => {}
    }
}
/// C15: reading the serializer's tree, beautified or not, gives the value
pub proof fn lem_round_trip(d: Data, y: Yaml, r: Yaml, c: Ctx)
    requires repr(d, y), supported(d)
    ensures gives(d, at(y, c)), keeps(y, r) ==> gives(d, at(r, c))
{
    lem_gives(d, y, c);
    if keeps(y, r) { lem_keeps_holds(d, y, r); lem_gives(d, r, c); }
}
