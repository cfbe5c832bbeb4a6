// ---------------------------------------------------------------------------
// C15: what the serializer makes of a value, and what reading it gives back
// ---------------------------------------------------------------------------
//@extract type yaml/serializer.rs YamlSerializeError
//@extract type yaml/serializer.rs YamlSerializer
//@extract type yaml/serializer.rs SeqSerializer
//@extract type yaml/serializer.rs TupleSerializer
//@extract type yaml/serializer.rs VariantSerializer
//@extract type yaml/serializer.rs MapSerializer
//@rewrite path Self::Error => YamlSerializeError
//@rewrite path ser::SerializeTuple::serialize_element => TupleSerializer::serialize_element
//@rewrite path ser::SerializeTuple::end => TupleSerializer::end
//@rewrite path ser::SerializeMap::end => MapSerializer::end
//@rewrite path ser::SerializeStruct::serialize_field => MapSerializer::serialize_field
//@rewrite path super::string::parse_double_quoted_string => parse_double_quoted_string

/// serde's data model: what a value consists of
pub enum Data {
    Bool(bool),
    Int(int),
    Uint(int),
    F32(f32),
    F64(f64),
    Str(Seq<char>),
    Bytes(Seq<u8>),
    None_,
    Some_(Box<Data>),
    Unit,
    Newtype(Box<Data>),
    Seq(Seq<Data>),
    Tuple(Seq<Data>),
    Map(Seq<(Data, Data)>),
    Struct(Seq<(Seq<char>, Data)>),
    UnitVariant(Seq<char>),
    NewtypeVariant(Seq<char>, Box<Data>),
    TupleVariant(Seq<char>, Seq<Data>),
    StructVariant(Seq<char>, Seq<(Seq<char>, Data)>),
}
// --- texts of numbers --------------------------------------------------------
/// `Display` of integers and floats
pub uninterp spec fn int_str(n: int) -> Seq<char>;
pub uninterp spec fn f32_str(x: f32) -> Seq<char>;
pub uninterp spec fn f64_str(x: f64) -> Seq<char>;
pub open spec fn bool_text(b: bool) -> Seq<char> { if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] } }
//@for T in i8 i16 i32 i64 i128 u8 u16 u32 u64 u128
impl TextOf for %T {
    open spec fn text(&self) -> Seq<char> { int_str(*self as int) }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
//@endfor
impl TextOf for f32 {
    open spec fn text(&self) -> Seq<char> { f32_str(*self) }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
impl TextOf for f64 {
    open spec fn text(&self) -> Seq<char> { f64_str(*self) }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
impl TextOf for bool {
    open spec fn text(&self) -> Seq<char> { bool_text(*self) }
    #[verifier::external_body]
    fn m_text(&self) -> (r: String) { unimplemented!() }
}
// std: parsing a number's text gives the number
pub open spec fn i64_range(n: int) -> bool { -0x8000_0000_0000_0000 <= n <= 0x7fff_ffff_ffff_ffff }
pub open spec fn u64_range(n: int) -> bool { 0 <= n <= 0xffff_ffff_ffff_ffff }
pub uninterp spec fn finite32(x: f32) -> bool;
pub uninterp spec fn finite64(x: f64) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_int_str(n: int)
    ensures
        !null_text(#[trigger] int_str(n)), !true_text(int_str(n)), !false_text(int_str(n)),
        i64_range(n) ==> int_text(int_str(n)) && int_value(int_str(n)) == n,
        !i64_range(n) ==> !int_text(int_str(n)),
        u64_range(n) ==> uint_text(int_str(n)) && uint_value(int_str(n)) == n,
{}
#[verifier::external_body]
pub broadcast proof fn axiom_f64_str(x: f64)
    requires finite64(x)
    ensures !null_text(#[trigger] f64_str(x)), float_text(f64_str(x)), float_value(f64_str(x)) == x
{}
#[verifier::external_body]
pub broadcast proof fn axiom_f32_str(x: f32)
    requires finite32(x)
    ensures !null_text(#[trigger] f32_str(x)), float_text(f32_str(x)), float32_value(f32_str(x)) == x
{}
/// what std parses as an unsigned number it parses as a float, too
#[verifier::external_body]
pub broadcast proof fn axiom_uint_is_float(s: Seq<char>)
    requires #[trigger] uint_text(s)
    ensures float_text(s)
{}

// --- the tree of a value -----------------------------------------------------
pub open spec fn plain(y: Yaml, s: Seq<char>) -> bool { match y { Yaml::UnquotedString(t) => t@ == s, _ => false } }
/// the value as a tree without anchors
pub open spec fn repr(d: Data, y: Yaml) -> bool { holds(d, y) && p3(y, true) }
/// the text of a scalar as key of a mapping
pub open spec fn key_text(d: Data) -> Option<Seq<char>>
    decreases d
{
    match d {
        Data::Bool(b) => Some(if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] }),
        Data::Int(n) | Data::Uint(n) => Some(int_str(n)),
        Data::F32(x) => Some(f32_str(x)),
        Data::F64(x) => Some(f64_str(x)),
        Data::Str(s) | Data::UnitVariant(s) => Some(s),
        Data::None_ | Data::Unit => Some(seq!['~']),
        Data::Some_(x) => key_text(*x),
        Data::Newtype(x) => key_text(*x),
        _ => None,
    }
}
/// strings that certainly can be a key: words of other than special characters that are not numbers or constants
pub open spec fn special(c: char) -> bool {
    breaking_char(c) || c == '\'' || c == '#' || c == '&' || c == '*' || c == ':' || c == '\n' || c == '\r' || (is_ws(c) && c != ' ')
}
pub open spec fn wordy(s: Seq<char>) -> bool {
    s.len() > 0 && s[0] != ' ' && s[0] != '-' && s.last() != ' ' && plain_kind(s) is Str && forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i])
}
pub open spec fn key_ok(d: Data) -> bool
    decreases d
{
    match d {
        Data::Str(s) | Data::UnitVariant(s) => wordy(s),
        Data::Some_(x) => key_ok(*x),
        Data::Newtype(x) => key_ok(*x),
        _ => key_text(d) is Some,
    }
}
/// all keys of mappings inside can be keys
pub open spec fn keys_ok(d: Data) -> bool
    decreases d
{
    match d {
        Data::Some_(x) => keys_ok(*x),
        Data::Newtype(x) => keys_ok(*x),
        Data::NewtypeVariant(_, x) => keys_ok(*x),
        Data::Seq(v) | Data::Tuple(v) | Data::TupleVariant(_, v) => forall|i: int| 0 <= i < v.len() ==> keys_ok(#[trigger] v[i]),
        Data::Map(v) => forall|i: int| 0 <= i < v.len() ==> key_ok((#[trigger] v[i]).0) && keys_ok(v[i].1),
        Data::Struct(v) | Data::StructVariant(_, v) => forall|i: int| 0 <= i < v.len() ==> keys_ok((#[trigger] v[i]).1),
        _ => true,
    }
}
pub type SRes = Result<Yaml, YamlSerializeError>;
/// a value that can be serialized: any implementation that says what its value is (see the drivers in ser_fns.rs)
pub trait Serialize {
    spec fn model(&self) -> Data;
    fn serialize(&self, s: YamlSerializer) -> (r: SRes)
        ensures r is Ok ==> repr(self.model(), r->Ok_0), keys_ok(self.model()) ==> r is Ok, key_ok(self.model()) ==> r is Ok && r->Ok_0 is UnquotedString;
}
pub open spec fn all_plain(v: Seq<Yaml>) -> bool { forall|i: int| 0 <= i < v.len() ==> p3(#[trigger] v[i], true) }
pub open spec fn entries_plain(v: Seq<(String, Yaml)>) -> bool { forall|i: int| 0 <= i < v.len() ==> p3((#[trigger] v[i]).1, true) }
pub open spec fn strs(v: Seq<(String, Yaml)>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i].0@) }
/// the elements of a block sequence / the entries of a block mapping with these values
pub open spec fn elements_of(v: Seq<Yaml>) -> Seq<ArrayData> { Seq::new(v.len(), |i: int| ArrayData::Element(AliasedYaml { alias: None, value: v[i] })) }
pub open spec fn entries_of(v: Seq<(String, Yaml)>) -> Seq<HashData> {
    Seq::new(v.len(), |i: int| HashData::Element(HashElement { key: v[i].0, value: AliasedYaml { alias: None, value: v[i].1 } }))
}

// --- what a reader is given --------------------------------------------------
/// any node that a plain text / the value of a variant stands for
pub open spec fn var_node(v: VarValue, y: Yaml) -> bool { match v { VarValue::Plain(s) => plain(y, s), VarValue::Node(n) => y == n } }
pub open spec fn at(y: Yaml, c: Ctx) -> De { De { yaml: y, cx: c } }
pub open spec fn gives_seq(v: Seq<Data>, e: De) -> bool
    decreases v, 0int
{
    match seq_event(e) { Some(Ev::Seq(ys, c)) => ys.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> gives(v[i], at(#[trigger] ys[i], c)), _ => false }
}
pub open spec fn gives_fields(v: Seq<(Seq<char>, Data)>, e: De) -> bool
    decreases v, 0int
{
    match map_event(e) {
        Some(Ev::Map(m, c)) => m.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] m[i]).0 == v[i].0 && gives(v[i].1, at(m[i].1, c)),
        _ => false,
    }
}
pub open spec fn gives_map(v: Seq<(Data, Data)>, e: De) -> bool
    decreases v, 0int
{
    match map_event(e) {
        Some(Ev::Map(m, c)) => m.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> gives_key(v[i].0, (#[trigger] m[i]).0, c) && gives(v[i].1, at(m[i].1, c)),
        _ => false,
    }
}
pub open spec fn gives_key(d: Data, k: Seq<char>, c: Ctx) -> bool
    decreases d, 1int
{ forall|y: Yaml| plain(y, k) ==> gives(d, #[trigger] at(y, c)) }
pub open spec fn gives_bytes(b: Seq<u8>, e: De) -> bool {
    match seq_event(e) { Some(Ev::Seq(ys, c)) => ys.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> uint_event(at(#[trigger] ys[i], c)) == Some(Ev::U64(b[i] as u64)), _ => false }
}
/// whoever reads this value (asking for what it consists of) is given exactly its data
pub open spec fn gives(d: Data, e: De) -> bool
    decreases d, 0int
{
    match d {
        Data::Bool(b) => bool_event(e) == Some(Ev::Bool(b)),
        Data::Int(n) => match int_event(e) { Some(Ev::I64(v)) => v == n, _ => false },
        Data::Uint(n) => match uint_event(e) { Some(Ev::U64(v)) => v == n, _ => false },
        Data::F64(x) => float_event(e) == Some(Ev::F64(x)),
        Data::F32(x) => float32_event(e) == Some(Ev::F32(x)),
        Data::Str(s) => str_event(e) == Some(Ev::Str(s)),
        Data::Bytes(b) => gives_bytes(b, e),
        Data::None_ => option_event(e) == Some(Ev::None_),
        Data::Some_(x) => match option_event(e) { Some(Ev::Some_(i)) => gives(*x, i), _ => false },
        Data::Unit => true,
        Data::Newtype(x) => gives(*x, e),
        Data::Seq(v) | Data::Tuple(v) => gives_seq(v, e),
        Data::Map(v) => gives_map(v, e),
        Data::Struct(v) => gives_fields(v, e),
        Data::UnitVariant(n) => match enum_event(e) { Some(Ev::Enum(m, _, _)) => m == n, _ => false },
        Data::NewtypeVariant(n, x) => match enum_event(e) { Some(Ev::Enum(m, v, c)) => m == n && forall|y: Yaml| var_node(v, y) ==> gives(*x, #[trigger] at(y, c)), _ => false },
        Data::TupleVariant(n, w) => match enum_event(e) { Some(Ev::Enum(m, v, c)) => m == n && forall|y: Yaml| var_node(v, y) ==> gives_seq(w, #[trigger] at(y, c)), _ => false },
        Data::StructVariant(n, w) => match enum_event(e) { Some(Ev::Enum(m, v, c)) => m == n && forall|y: Yaml| var_node(v, y) ==> gives_fields(w, #[trigger] at(y, c)), _ => false },
    }
}
/// values YAML makes no difference between and none
pub open spec fn nullish(d: Data) -> bool
    decreases d
{ match d { Data::None_ | Data::Unit => true, Data::Some_(x) => nullish(*x), Data::Newtype(x) => nullish(*x), _ => false } }
/// numbers of at most 64 bits, finite floats, no option of something that is null itself
pub open spec fn supported(d: Data) -> bool
    decreases d, 0int
{
    match d {
        Data::Int(n) => i64_range(n),
        Data::Uint(n) => u64_range(n),
        Data::F32(x) => finite32(x),
        Data::F64(x) => finite64(x),
        Data::Some_(x) => supported(*x) && !nullish(*x),
        Data::Newtype(x) => supported(*x),
        Data::NewtypeVariant(_, x) => supported(*x),
        Data::Seq(v) => all_supported(v),
        Data::Tuple(v) => all_supported(v),
        Data::TupleVariant(_, v) => all_supported(v),
        Data::Map(v) => entries_supported(v),
        Data::Struct(v) => fields_supported(v),
        Data::StructVariant(_, v) => fields_supported(v),
        _ => true,
    }
}
pub open spec fn all_supported(v: Seq<Data>) -> bool
    decreases v, 0int
{ forall|i: int| 0 <= i < v.len() ==> supported(#[trigger] v[i]) }
pub open spec fn fields_supported(v: Seq<(Seq<char>, Data)>) -> bool
    decreases v, 0int
{ forall|i: int| 0 <= i < v.len() ==> supported((#[trigger] v[i]).1) }
pub open spec fn entries_supported(v: Seq<(Data, Data)>) -> bool
    decreases v, 0int
{ forall|i: int| 0 <= i < v.len() ==> key_supported((#[trigger] v[i]).0) && supported(v[i].1) }
pub open spec fn key_supported(d: Data) -> bool
    decreases d
{
    match d {
        Data::Some_(x) => key_supported(*x) && key_text(*x) is Some && !null_text(key_text(*x)->0),
        Data::Newtype(x) => key_supported(*x),
        Data::Int(n) => i64_range(n),
        Data::Uint(n) => u64_range(n),
        Data::F32(x) => finite32(x),
        Data::F64(x) => finite64(x),
        _ => key_text(d) is Some,
    }
}

// --- the same data, whatever the layout --------------------------------------
pub open spec fn num(y: Yaml, s: Seq<char>) -> bool { scalar_value(y) is Some && scalar_value(y)->0 =~= s && node_kind(y) == plain_kind(s) }
pub open spec fn words(y: Yaml, s: Seq<char>) -> bool { scalar_value(y) is Some && scalar_value(y)->0 =~= s && node_kind(y) is Str }
pub open spec fn holds_seq(v: Seq<Data>, y: Yaml) -> bool
    decreases v, 0int
{ match seq_of(y) { Some(ys) => ys.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> holds(v[i], #[trigger] ys[i]), None => false } }
pub open spec fn holds_fields(v: Seq<(Seq<char>, Data)>, y: Yaml) -> bool
    decreases v, 0int
{ match map_of(y) { Some(m) => m.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] m[i]).0 == v[i].0 && holds(v[i].1, m[i].1), None => false } }
pub open spec fn holds_map(v: Seq<(Data, Data)>, y: Yaml) -> bool
    decreases v, 0int
{ match map_of(y) { Some(m) => m.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> key_text(v[i].0) == Some((#[trigger] m[i]).0) && holds(v[i].1, m[i].1), None => false } }
pub open spec fn holds_bytes(b: Seq<u8>, y: Yaml) -> bool
{ match seq_of(y) { Some(ys) => ys.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> num(#[trigger] ys[i], int_str(b[i] as int)), None => false } }
/// the value of the only key
pub open spec fn sole(y: Yaml, k: Seq<char>) -> Option<Yaml> { match map_of(y) { Some(m) => if m.len() == 1 && m[0].0 == k { Some(m[0].1) } else { None }, None => None } }
pub open spec fn holds(d: Data, y: Yaml) -> bool
    decreases d, 0int
{
    match d {
        Data::Bool(b) => plain(y, if b { seq!['t', 'r', 'u', 'e'] } else { seq!['f', 'a', 'l', 's', 'e'] }),
        Data::Int(n) | Data::Uint(n) => num(y, int_str(n)),
        Data::F32(x) => num(y, f32_str(x)),
        Data::F64(x) => num(y, f64_str(x)),
        Data::Str(s) => words(y, s),
        Data::Bytes(b) => holds_bytes(b, y),
        Data::None_ | Data::Unit => plain(y, seq!['~']),
        Data::Some_(x) => holds(*x, y),
        Data::Newtype(x) => holds(*x, y),
        Data::Seq(v) => holds_seq(v, y),
        Data::Tuple(v) => holds_seq(v, y),
        Data::Map(v) => holds_map(v, y),
        Data::Struct(v) => holds_fields(v, y),
        Data::UnitVariant(n) => words(y, n),
        Data::NewtypeVariant(n, x) => sole(y, n) is Some && holds(*x, sole(y, n)->0),
        Data::TupleVariant(n, v) => sole(y, n) is Some && holds_seq(v, sole(y, n)->0),
        Data::StructVariant(n, v) => sole(y, n) is Some && holds_fields(v, sole(y, n)->0),
    }
}
