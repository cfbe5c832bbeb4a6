// ---------------------------------------------------------------------------
// C13, C14: what the deserializer tells the visitor it is given
// ---------------------------------------------------------------------------
//@extract type yaml/document.rs DocumentData
//@extract type yaml/document.rs Document
//@extract type yaml/deserializer.rs YamlDeserializeError
//@extract type yaml/deserializer.rs Anchors
//@extract type yaml/deserializer.rs YamlDeserializer
//@extract type yaml/deserializer.rs VecSeqAccess
//@extract type yaml/deserializer.rs VecMapAccess
//@extract type yaml/deserializer.rs StrEnumAccess
//@derives Clone: Anchors
//@rewrite path std::vec::IntoIter => VecIter
//@rewrite path de::Deserializer::deserialize_tuple => YamlDeserializer::deserialize_tuple
//@rewrite path de::Deserializer::deserialize_struct => YamlDeserializer::deserialize_struct
//@rewrite path super::parse_yaml_file => parse_yaml_file
//@rewrite bound Visitor<'de> => Visitor
//@rewrite bound DeserializeSeed<'de> => DeserializeSeed
//@rewrite bound Deserialize<'de> => Deserialize
//@rewrite bound for<'de>Deserialize<'de> => Deserialize

/// std::vec::IntoIter
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecIter<T> { _p: std::vec::IntoIter<T> }
pub uninterp spec fn rest<T>(i: VecIter<T>) -> Seq<T>;
impl<T> VecIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            rest(*old(self)).len() == 0 ==> r is None && rest(*final(self)) == rest(*old(self)),
            rest(*old(self)).len() > 0 ==> r == Some(rest(*old(self))[0]) && rest(*final(self)) == rest(*old(self)).skip(1),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn m_into_iter<T>(v: Vec<T>) -> (r: VecIter<T>)
    ensures rest(r) == v@
{ unimplemented!() }

pub uninterp spec fn uint_text(s: Seq<char>) -> bool;
pub uninterp spec fn uint_value(s: Seq<char>) -> u64;
impl ParseT for u64 {
    open spec fn parses(s: Seq<char>) -> bool { uint_text(s) }
    open spec fn pval(s: Seq<char>) -> u64 { uint_value(s) }
}
#[verifier::external_body]
pub fn m_custom<T>(msg: T) -> (r: YamlDeserializeError) { unimplemented!() }

/// what `q.map(Some)` returns
pub open spec fn some_of<T>(q: Res<T>, r: Res<Option<T>>) -> bool {
    match q { Ok(v) => r == Ok::<Option<T>, YamlDeserializeError>(Some(v)), Err(_) => r is Err }
}
pub trait MapSome {
    type To;
    spec fn msv(self) -> Self::To;
    fn m_map_some(self) -> (r: Self::To) ensures r == self.msv();
}
impl<T, E> MapSome for Result<T, E> {
    type To = Result<Option<T>, E>;
    open spec fn msv(self) -> Result<Option<T>, E> { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
    fn m_map_some(self) -> (r: Result<Option<T>, E>) { match self { Ok(v) => Ok(Some(v)), Err(e) => Err(e) } }
}
pub trait ContainsView {
    spec fn cnt(&self, s: Seq<char>) -> bool;
    fn m_contains(&self, s: &String) -> (r: bool) ensures r == self.cnt(s@);
}
impl ContainsView for Vec<String> {
    open spec fn cnt(&self, s: Seq<char>) -> bool { sv_strings(self@).contains(s) }
    #[verifier::external_body]
    fn m_contains(&self, s: &String) -> (r: bool) { unimplemented!() }
}

// --- the table of anchors: Rc<RefCell<HashMap<String, Yaml>>> ---------------
// The table is shared and only grows.  `tab` is what it holds in the end (chosen when it is made), `had(k)` says
// that the entry of k has been put in.  Every insertion has to agree with `tab`, and a look-up is only allowed once
// everything in `tab` has been put in, so that a look-up gives exactly the entry of `tab`.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Rc<T> { _p: std::rc::Rc<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefCell<T> { _p: T }
#[verifier::external_body]
#[verifier::accept_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _p: Vec<(K, V)> }
pub type Table = Rc<RefCell<HashMap<String, Yaml>>>;
pub uninterp spec fn tab(t: Table) -> Map<Seq<char>, Yaml>;
pub uninterp spec fn had(t: Table, k: Seq<char>) -> bool;
impl<T> Rc<T> {
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Rc<T>) { unimplemented!() }
}
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn new(x: T) -> (r: RefCell<T>) { unimplemented!() }
}
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: HashMap<K, V>) { unimplemented!() }
}
/// used once, where the table is made
#[verifier::external_body]
pub proof fn axiom_choose_table(t: Table, m: Map<Seq<char>, Yaml>)
    ensures tab(t) == m
{}
#[verifier::external_body]
pub struct TabRef { _p: () }
pub uninterp spec fn of(r: TabRef) -> Table;
impl Rc<RefCell<HashMap<String, Yaml>>> {
    #[verifier::external_body]
    pub fn borrow(&self) -> (r: TabRef) ensures of(r) == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut(&self) -> (r: TabRef) ensures of(r) == *self { unimplemented!() }
}
impl TabRef {
    #[verifier::external_body]
    pub fn insert(&self, k: String, v: Yaml) -> (r: Option<Yaml>)
        requires tab(of(*self)).contains_key(k@), tab(of(*self))[k@] == v
        ensures had(of(*self), k@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Yaml>)
        requires full(of(*self))
        ensures r is Some == tab(of(*self)).contains_key(k@), r is Some ==> *r->0 == tab(of(*self))[k@]
    { unimplemented!() }
}
pub open spec fn full(t: Table) -> bool { forall|k: Seq<char>| #[trigger] tab(t).contains_key(k) ==> had(t, k) }
impl Clone for Anchors {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Yaml {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

/// every anchor inside this list stands in the table with its value
pub open spec fn named_in(n: Seq<AliasedYaml>, t: Map<Seq<char>, Yaml>) -> bool {
    forall|i: int| 0 <= i < n.len() && (#[trigger] n[i]).alias is Some ==> t.contains_key(n[i].alias->0@) && t[n[i].alias->0@] == n[i].value
}
pub open spec fn covered(y: Yaml, t: Map<Seq<char>, Yaml>) -> bool { named_in(nodes_of(y), t) }
/// the table of a document (the last one of a name)
pub open spec fn table_of(n: Seq<AliasedYaml>) -> Map<Seq<char>, Yaml>
    decreases n.len()
{
    if n.len() == 0 { Map::empty() }
    else {
        match n.last().alias {
            Some(a) => table_of(n.drop_last()).insert(a@, n.last().value),
            None => table_of(n.drop_last()),
        }
    }
}
/// no name is used for two different values
pub open spec fn consistent(n: Seq<AliasedYaml>) -> bool {
    forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && (#[trigger] n[i]).alias is Some && (#[trigger] n[j]).alias is Some
        && n[i].alias->0@ == n[j].alias->0@ ==> n[i].value == n[j].value
}

pub struct Ctx { pub tab: Map<Seq<char>, Yaml>, pub resolving: Seq<Seq<char>> }
pub open spec fn cx(a: Anchors) -> Ctx { Ctx { tab: tab(a.values), resolving: sv_strings(a.resolving@) } }
pub open spec fn ctx_ok(c: Ctx) -> bool {
    &&& c.tab.dom().finite()
    &&& forall|k: Seq<char>| c.tab.contains_key(k) ==> covered(#[trigger] c.tab[k], c.tab)
    &&& c.resolving.no_duplicates()
    &&& forall|i: int| 0 <= i < c.resolving.len() ==> c.tab.contains_key(#[trigger] c.resolving[i])
}
pub open spec fn anc_ok(a: Anchors) -> bool { ctx_ok(cx(a)) && full(a.values) }
pub struct De { pub yaml: Yaml, pub cx: Ctx }
pub open spec fn de(d: YamlDeserializer) -> De { De { yaml: d.yaml, cx: cx(d.anchors) } }
pub open spec fn de_ok(d: YamlDeserializer) -> bool { covered(d.yaml, tab(d.anchors.values)) && anc_ok(d.anchors) }

/// following an alias: undefined names and names being resolved already have no value
pub open spec fn follow(y: Yaml, c: Ctx, fuel: nat) -> Option<(Yaml, Ctx)>
    decreases fuel
{
    match y {
        Yaml::Anchor(k) =>
            if fuel == 0 || c.resolving.contains(k@) || !c.tab.contains_key(k@) { None }
            else { follow(c.tab[k@], Ctx { tab: c.tab, resolving: c.resolving.push(k@) }, (fuel - 1) as nat) },
        _ => Some((y, c)),
    }
}
/// more steps than there are names are never needed (lem_fuel)
pub open spec fn resolved(d: De) -> Option<(Yaml, Ctx)> { follow(d.yaml, d.cx, d.cx.tab.dom().len() + 1) }

// --- serde's visitors and seeds: any caller-supplied code --------------------
pub enum Ev {
    Unit, Bool(bool), I64(i64), U64(u64), F64(f64), F32(f32), Str(Seq<char>), None_,
    Some_(De), Newtype(De), Seq(Seq<Yaml>, Ctx), Map(Seq<(Seq<char>, Yaml)>, Ctx), Enum(Seq<char>, VarValue, Ctx),
}
/// the value of a variant (plain text by its characters)
pub enum VarValue { Plain(Seq<char>), Node(Yaml) }
pub open spec fn vv(y: Yaml) -> VarValue { match y { Yaml::UnquotedString(s) => VarValue::Plain(s@), _ => VarValue::Node(y) } }
pub type Res<T> = Result<T, YamlDeserializeError>;
pub trait Visitor: Sized {
    type Value;
    /// r is an answer this visitor can give to e
    spec fn takes(self, e: Ev, r: Res<Self::Value>) -> bool;
    fn visit_unit(self) -> (r: Res<Self::Value>) ensures self.takes(Ev::Unit, r);
    fn visit_none(self) -> (r: Res<Self::Value>) ensures self.takes(Ev::None_, r);
    fn visit_bool(self, v: bool) -> (r: Res<Self::Value>) ensures self.takes(Ev::Bool(v), r);
    fn visit_i64(self, v: i64) -> (r: Res<Self::Value>) ensures self.takes(Ev::I64(v), r);
    fn visit_u64(self, v: u64) -> (r: Res<Self::Value>) ensures self.takes(Ev::U64(v), r);
    fn visit_f64(self, v: f64) -> (r: Res<Self::Value>) ensures self.takes(Ev::F64(v), r);
    fn visit_f32(self, v: f32) -> (r: Res<Self::Value>) ensures self.takes(Ev::F32(v), r);
    fn visit_string(self, v: String) -> (r: Res<Self::Value>) ensures self.takes(Ev::Str(v@), r);
    fn visit_some(self, d: YamlDeserializer) -> (r: Res<Self::Value>) requires de_ok(d) ensures self.takes(Ev::Some_(de(d)), r);
    fn visit_newtype_struct(self, d: YamlDeserializer) -> (r: Res<Self::Value>) requires de_ok(d) ensures self.takes(Ev::Newtype(de(d)), r);
    fn visit_seq(self, a: VecSeqAccess) -> (r: Res<Self::Value>) requires seq_ok(a) ensures self.takes(Ev::Seq(rest(a.iter), cx(a.anchors)), r);
    fn visit_map(self, a: VecMapAccess) -> (r: Res<Self::Value>) requires map_ok(a), a.pending_value is None ensures self.takes(Ev::Map(pairs(rest(a.iter)), cx(a.anchors)), r);
    fn visit_enum(self, a: StrEnumAccess) -> (r: Res<Self::Value>) requires enum_ok(a) ensures self.takes(Ev::Enum(a.variant@, vv(a.value), cx(a.anchors)), r);
}
pub trait DeserializeSeed: Sized {
    type Value;
    spec fn takes(self, d: De, r: Res<Self::Value>) -> bool;
    fn deserialize(self, d: YamlDeserializer) -> (r: Res<Self::Value>) requires de_ok(d) ensures self.takes(de(d), r);
}
pub trait Deserialize: Sized {
    spec fn takes(d: De, r: Res<Self>) -> bool;
    fn deserialize(d: YamlDeserializer) -> (r: Res<Self>) requires de_ok(d) ensures Self::takes(de(d), r);
}
pub open spec fn answers<V: Visitor>(v: V, e: Option<Ev>, r: Res<V::Value>) -> bool {
    match e { Some(x) => v.takes(x, r), None => r is Err }
}
pub open spec fn pairs(s: Seq<(String, Yaml)>) -> Seq<(Seq<char>, Yaml)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1)) }
pub open spec fn all_covered(s: Seq<Yaml>, t: Map<Seq<char>, Yaml>) -> bool { forall|i: int| 0 <= i < s.len() ==> covered(#[trigger] s[i], t) }
pub open spec fn all_covered2(s: Seq<(String, Yaml)>, t: Map<Seq<char>, Yaml>) -> bool { forall|i: int| 0 <= i < s.len() ==> covered((#[trigger] s[i]).1, t) }
pub open spec fn seq_ok(a: VecSeqAccess) -> bool { anc_ok(a.anchors) && all_covered(rest(a.iter), tab(a.anchors.values)) }
pub open spec fn map_ok(a: VecMapAccess) -> bool {
    &&& anc_ok(a.anchors)
    &&& all_covered2(rest(a.iter), tab(a.anchors.values))
    &&& a.pending_value is Some ==> covered(a.pending_value->0, tab(a.anchors.values))
}
pub open spec fn enum_ok(a: StrEnumAccess) -> bool { anc_ok(a.anchors) && covered(a.value, tab(a.anchors.values)) }

// --- the events --------------------------------------------------------------
pub open spec fn plain_event(s: Seq<char>) -> Ev {
    if null_text(s) { Ev::Unit }
    else if true_text(s) { Ev::Bool(true) }
    else if false_text(s) { Ev::Bool(false) }
    else if int_text(s) { Ev::I64(int_value(s)) }
    else if uint_text(s) { Ev::U64(uint_value(s)) }
    else if float_text(s) { Ev::F64(float_value(s)) }
    else { Ev::Str(s) }
}
pub open spec fn elem_values(d: Seq<ArrayData>) -> Seq<Yaml>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else { match d.last() { ArrayData::Element(e) => elem_values(d.drop_last()).push(e.value), _ => elem_values(d.drop_last()) } }
}
pub open spec fn entry_values(d: Seq<HashData>) -> Seq<(Seq<char>, Yaml)>
    decreases d.len()
{
    if d.len() == 0 { Seq::empty() }
    else { match d.last() { HashData::Element(e) => entry_values(d.drop_last()).push((e.key@, e.value.value)), _ => entry_values(d.drop_last()) } }
}
/// the elements of a sequence
pub open spec fn seq_of(y: Yaml) -> Option<Seq<Yaml>> {
    match y { Yaml::Array(d) => Some(elem_values(d@)), Yaml::InlineArray(d) => Some(d@), _ => None }
}
/// the entries of a mapping
pub open spec fn map_of(y: Yaml) -> Option<Seq<(Seq<char>, Yaml)>> {
    match y { Yaml::Hash(d) => Some(entry_values(d@)), Yaml::InlineHash(d) => Some(pairs(d@)), _ => None }
}
pub open spec fn any_of(y: Yaml, c: Ctx) -> Option<Ev> {
    match y {
        Yaml::UnquotedString(s) => Some(plain_event(s@)),
        _ => match scalar_value(y) {
            Some(s) => Some(Ev::Str(s)),
            None => match seq_of(y) {
                Some(v) => Some(Ev::Seq(v, c)),
                None => match map_of(y) { Some(m) => Some(Ev::Map(m, c)), None => None },
            },
        },
    }
}
pub open spec fn any_event(d: De) -> Option<Ev> { match resolved(d) { Some((y, c)) => any_of(y, c), None => None } }
/// the text of the scalar
pub open spec fn text_of(d: De) -> Option<Seq<char>> { match resolved(d) { Some((y, c)) => scalar_value(y), None => None } }
pub open spec fn yes_text(s: Seq<char>) -> bool {
    s == "true"@ || s == "True"@ || s == "TRUE"@ || s == "yes"@ || s == "Yes"@ || s == "YES"@ || s == "on"@ || s == "On"@ || s == "ON"@
}
pub open spec fn no_text(s: Seq<char>) -> bool {
    s == "false"@ || s == "False"@ || s == "FALSE"@ || s == "no"@ || s == "No"@ || s == "NO"@ || s == "off"@ || s == "Off"@ || s == "OFF"@
}
pub open spec fn bool_event(d: De) -> Option<Ev> {
    match resolved(d) {
        Some((Yaml::UnquotedString(s), c)) => if yes_text(s@) { Some(Ev::Bool(true)) } else if no_text(s@) { Some(Ev::Bool(false)) } else { None },
        _ => None,
    }
}
pub open spec fn int_event(d: De) -> Option<Ev> { match text_of(d) { Some(s) => if int_text(s) { Some(Ev::I64(int_value(s))) } else { None }, None => None } }
pub open spec fn uint_event(d: De) -> Option<Ev> { match text_of(d) { Some(s) => if uint_text(s) { Some(Ev::U64(uint_value(s))) } else { None }, None => None } }
pub open spec fn float_event(d: De) -> Option<Ev> { match text_of(d) { Some(s) => if float_text(s) { Some(Ev::F64(float_value(s))) } else { None }, None => None } }
pub open spec fn float32_event(d: De) -> Option<Ev> { match text_of(d) { Some(s) => if float_text(s) { Some(Ev::F32(float32_value(s))) } else { None }, None => None } }
pub open spec fn str_event(d: De) -> Option<Ev> { match text_of(d) { Some(s) => Some(Ev::Str(s)), None => None } }
pub open spec fn option_event(d: De) -> Option<Ev> {
    match resolved(d) {
        Some((y, c)) => if (match y { Yaml::UnquotedString(s) => null_text(s@), _ => false }) { Some(Ev::None_) } else { Some(Ev::Some_(De { yaml: y, cx: c })) },
        None => None,
    }
}
pub open spec fn seq_event(d: De) -> Option<Ev> {
    match resolved(d) { Some((y, c)) => match seq_of(y) { Some(v) => Some(Ev::Seq(v, c)), None => None }, None => None }
}
pub open spec fn map_event(d: De) -> Option<Ev> {
    match resolved(d) { Some((y, c)) => match map_of(y) { Some(v) => Some(Ev::Map(v, c)), None => None }, None => None }
}
/// a variant: the text of a scalar (its value is null), or the only key of a mapping with its value
pub open spec fn enum_event(d: De) -> Option<Ev> {
    match resolved(d) {
        Some((y, c)) => match scalar_value(y) {
            Some(s) => Some(Ev::Enum(s, VarValue::Plain(seq!['~']), c)),
            None => match map_of(y) {
                Some(m) => if m.len() == 1 { Some(Ev::Enum(m[0].0, vv(m[0].1), c)) } else { None },
                None => None,
            },
        },
        None => None,
    }
}
/// the text parsed (the parser is outside these contracts)
pub uninterp spec fn parsed(s: Seq<char>) -> Option<Document>;
#[verifier::external_body]
pub struct ParseError { _p: () }
#[verifier::external_body]
pub fn parse_yaml_file(s: &str) -> (r: Result<Document, ParseError>)
    ensures match parsed(s@) { Some(d) => r == Ok::<Document, ParseError>(d), None => r is Err }
{ unimplemented!() }
pub open spec fn first_yaml(d: Seq<DocumentData>) -> Option<Yaml>
    decreases d.len()
{
    if d.len() == 0 { None } else { match first_yaml(d.drop_last()) { Some(y) => Some(y), None => match d.last() { DocumentData::Yaml(y) => Some(y), _ => None } } }
}
// --- visiting the anchored values (contract proved in u_visit, restated for a closure without state) ----------
pub trait VisitYaml {
    spec fn nodes(&self) -> Seq<AliasedYaml>;
    fn visit_yaml<F: Fn(&AliasedYaml)>(&self, f: &mut F)
        requires forall|i: int| 0 <= i < self.nodes().len() ==> call_requires(*old(f), (&#[trigger] self.nodes()[i],))
        ensures forall|i: int| 0 <= i < self.nodes().len() ==> call_ensures(*old(f), (&#[trigger] self.nodes()[i],), ());
}
impl VisitYaml for Yaml {
    open spec fn nodes(&self) -> Seq<AliasedYaml> { nodes_of(*self) }
    #[verifier::external_body]
    fn visit_yaml<F: Fn(&AliasedYaml)>(&self, f: &mut F) { unimplemented!() }
}
