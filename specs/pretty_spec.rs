//@include keeps_spec.rs
/// the domain of C04: no block scalar inside a flow collection (which no text can hold either)
pub open spec fn p4(y: Yaml, inl: bool) -> bool
    decreases y
{
    match y {
        Yaml::Hash(d) => p4_hash(d@, inl),
        Yaml::Array(d) => p4_array(d@, inl),
        Yaml::InlineHash(d) => p4_flow_hash(d@),
        Yaml::InlineArray(d) => p4_flow_array(d@),
        Yaml::LiteralString(_, _) => !inl,
        Yaml::FoldedString(_, _) => !inl,
        _ => true,
    }
}
pub open spec fn p4_hd(d: HashData, inl: bool) -> bool
    decreases d
{ match d { HashData::Element(e) => p4(e.value.value, inl), _ => true } }
pub open spec fn p4_ad(d: ArrayData, inl: bool) -> bool
    decreases d
{ match d { ArrayData::Element(e) => p4(e.value, inl), _ => true } }
pub open spec fn p4_hash(d: Seq<HashData>, inl: bool) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p4_hd(#[trigger] d[i], inl) }
pub open spec fn p4_array(d: Seq<ArrayData>, inl: bool) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p4_ad(#[trigger] d[i], inl) }
pub open spec fn p4_flow_hash(d: Seq<(String, Yaml)>) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p4((#[trigger] d[i]).1, true) }
pub open spec fn p4_flow_array(d: Seq<Yaml>) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> p4(#[trigger] d[i], true) }

/// what beautified trees look like; `inl`: inside a flow collection
pub open spec fn q4(y: Yaml, inl: bool) -> bool
    decreases y
{
    match y {
        Yaml::Hash(d) => !inl && d@.len() > 0 && q4_hash(d@, false),
        Yaml::Array(d) => !inl && d@.len() > 0 && q4_array(d@, false),
        Yaml::InlineHash(d) => q4_flow_hash(d@),
        Yaml::InlineArray(d) => q4_flow_array(d@),
        Yaml::LiteralString(_, _) => !inl,
        Yaml::FoldedString(_, _) => !inl,
        Yaml::UnquotedString(s) => inl ==> !breaking(s@),
        Yaml::SingleQuotedString(_) => true,
        Yaml::DoubleQuotedString(_) => true,
        Yaml::Anchor(_) => true,
    }
}
pub open spec fn q4_hd(d: HashData, inl: bool) -> bool
    decreases d
{ match d { HashData::Element(e) => q4(e.value.value, inl), _ => true } }
pub open spec fn q4_ad(d: ArrayData, inl: bool) -> bool
    decreases d
{ match d { ArrayData::Element(e) => q4(e.value, inl), _ => true } }
pub open spec fn q4_hash(d: Seq<HashData>, inl: bool) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> q4_hd(#[trigger] d[i], inl) }
pub open spec fn q4_array(d: Seq<ArrayData>, inl: bool) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> q4_ad(#[trigger] d[i], inl) }
pub open spec fn q4_flow_hash(d: Seq<(String, Yaml)>) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> q4((#[trigger] d[i]).1, true) }
pub open spec fn q4_flow_array(d: Seq<Yaml>) -> bool
    decreases d
{ forall|i: int| 0 <= i < d.len() ==> q4(#[trigger] d[i], true) }

/// can stand in a flow collection as it is, when beautified
pub open spec fn inlineable(y: Yaml) -> bool {
    match y {
        Yaml::UnquotedString(s) => !breaking(s@),
        Yaml::SingleQuotedString(_) => true,
        Yaml::DoubleQuotedString(_) => true,
        Yaml::InlineArray(_) => true,
        Yaml::InlineHash(_) => true,
        Yaml::Anchor(_) => true,
        _ => false,
    }
}
/// the element a block sequence item holds, when it can be moved into a flow sequence
pub open spec fn movable(d: ArrayData) -> bool {
    match d { ArrayData::Element(e) => e.alias is None && inlineable(e.value), _ => false }
}
pub open spec fn held(d: ArrayData) -> Yaml { match d { ArrayData::Element(e) => e.value, _ => arbitrary() } }

// ---- trusted: derived or display-only code -------------------------------------------------
impl Clone for Yaml {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@extract type yaml/aliased.rs Parent
impl Yaml {
    /// only its length is used, to decide on the layout
    #[verifier::external_body]
    pub fn format(&self, f: &mut String, spaces: usize, parent: Option<Parent>) -> (r: Result<(), ()>) { unimplemented!() }
}
/// unspecified: its result is checked against the text by the caller
#[verifier::external_body]
pub fn create_folded(s: String, line_length: usize) -> (r: Vec<String>) { unimplemented!() }
pub assume_specification[ String::len ](s: &String) -> (r: usize);
//@extract type yaml/document.rs DocumentData
//@extract type yaml/document.rs Document

pub open spec fn doc_kept1(d: DocumentData, e: DocumentData) -> bool {
    match (d, e) { (DocumentData::Yaml(a), DocumentData::Yaml(b)) => keeps(a, b), (DocumentData::Yaml(_), _) => false, (a, b) => a == b }
}
pub open spec fn doc_kept(d: Seq<DocumentData>, e: Seq<DocumentData>) -> bool {
    d.len() == e.len() && forall|i: int| 0 <= i < d.len() ==> doc_kept1(#[trigger] d[i], e[i])
}
pub open spec fn doc_p31(d: DocumentData) -> bool { match d { DocumentData::Yaml(a) => p3(a, false), _ => true } }
pub open spec fn doc_p3(d: Seq<DocumentData>) -> bool { forall|i: int| 0 <= i < d.len() ==> doc_p31(#[trigger] d[i]) }
pub open spec fn doc_p41(d: DocumentData) -> bool { match d { DocumentData::Yaml(a) => p4(a, false), _ => true } }
pub open spec fn doc_p4(d: Seq<DocumentData>) -> bool { forall|i: int| 0 <= i < d.len() ==> doc_p41(#[trigger] d[i]) }
pub open spec fn doc_q41(d: DocumentData) -> bool { match d { DocumentData::Yaml(a) => q4(a, false), _ => true } }
pub open spec fn doc_q4(d: Seq<DocumentData>) -> bool { forall|i: int| 0 <= i < d.len() ==> doc_q41(#[trigger] d[i]) }
