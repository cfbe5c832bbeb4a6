pub trait Pretty: Sized {
    /// the domain of C03
    spec fn pre3(self, inl: bool) -> bool;
    spec fn kept(self, r: Self) -> bool;
    /// the domain of C04
    spec fn pre4(self, inl: bool) -> bool;
    /// what C04 says of the result
    spec fn shape4(self, inl: bool) -> bool;
    /// number of items
    spec fn size(self) -> nat;
    fn pretty_with_options(self, in_inline: bool, child_of_array: bool) -> (r: Self)
        ensures
            r.size() == self.size(),
            self.pre3(in_inline) ==> self.kept(r),
            self.pre4(in_inline) ==> r.shape4(in_inline);
    fn pretty(self) -> (r: Self)
        ensures
            self.pre3(false) ==> self.kept(r),
            self.pre4(false) ==> r.shape4(false)
    {
        self.pretty_with_options(false, false)
    }
}
/// the same for whatever a loop runs over
pub trait PrettySeq: Sized {
    spec fn kept_s(self, r: Self) -> bool;
    spec fn shape4_s(self, inl: bool) -> bool;
}
impl PrettySeq for Seq<HashData> {
    open spec fn kept_s(self, r: Self) -> bool { keeps_hash(self, r) }
    open spec fn shape4_s(self, inl: bool) -> bool { q4_hash(self, inl) }
}
impl PrettySeq for Seq<ArrayData> {
    open spec fn kept_s(self, r: Self) -> bool { keeps_array(self, r) }
    open spec fn shape4_s(self, inl: bool) -> bool { q4_array(self, inl) }
}
impl Pretty for Vec<HashData> {
    open spec fn size(self) -> nat { self@.len() }
    open spec fn pre3(self, inl: bool) -> bool { p3_hash(self@, inl) }
    open spec fn kept(self, r: Self) -> bool { keeps_hash(self@, r@) }
    open spec fn pre4(self, inl: bool) -> bool { p4_hash(self@, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4_hash(self@, inl) }
//@extract fn yaml/mod.rs <Vec as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@loop * inv:= $m0@.len() == $it.index@, self.pre3($p0) ==> $src@.take($it.index@).kept_s($m0@), self.pre4($p0) ==> $m0@.shape4_s($p0)
//@end
}
impl Pretty for Vec<ArrayData> {
    open spec fn size(self) -> nat { self@.len() }
    open spec fn pre3(self, inl: bool) -> bool { p3_array(self@, inl) }
    open spec fn kept(self, r: Self) -> bool { keeps_array(self@, r@) }
    open spec fn pre4(self, inl: bool) -> bool { p4_array(self@, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4_array(self@, inl) }
//@extract fn yaml/mod.rs <Vec as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@loop * inv:= $m0@.len() == $it.index@, self.pre3($p0) ==> $src@.take($it.index@).kept_s($m0@), self.pre4($p0) ==> $m0@.shape4_s($p0)
//@end
}
impl Pretty for Vec<Yaml> {
    open spec fn size(self) -> nat { self@.len() }
    open spec fn pre3(self, inl: bool) -> bool { forall|i: int| 0 <= i < self@.len() ==> p3(#[trigger] self@[i], inl) }
    open spec fn kept(self, r: Self) -> bool { keeps_flow_array(self@, r@) }
    open spec fn pre4(self, inl: bool) -> bool { forall|i: int| 0 <= i < self@.len() ==> p4(#[trigger] self@[i], inl) }
    open spec fn shape4(self, inl: bool) -> bool { forall|i: int| 0 <= i < self@.len() ==> q4(#[trigger] self@[i], inl) }
//@extract fn yaml/mod.rs <Vec as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@loop * inv:= $m0@.len() == $it.index@, self.pre3($p0) ==> forall|j: int| 0 <= j < $it.index@ ==> keeps(#[trigger] $src@[j], $m0@[j]), self.pre4($p0) ==> forall|j: int| 0 <= j < $it.index@ ==> q4(#[trigger] $m0@[j], $p0)
//@end
}
impl Pretty for Vec<DocumentData> {
    open spec fn size(self) -> nat { self@.len() }
    open spec fn pre3(self, inl: bool) -> bool { !inl && doc_p3(self@) }
    open spec fn kept(self, r: Self) -> bool { doc_kept(self@, r@) }
    open spec fn pre4(self, inl: bool) -> bool { !inl && doc_p4(self@) }
    open spec fn shape4(self, inl: bool) -> bool { doc_q4(self@) }
//@extract fn yaml/mod.rs <Vec as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@loop * inv:= $m0@.len() == $it.index@, self.pre3($p0) ==> doc_kept($src@.take($it.index@), $m0@), self.pre4($p0) ==> doc_q4($m0@)
//@end
}
impl Pretty for HashData {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { p3_hd(self, inl) }
    open spec fn kept(self, r: Self) -> bool { keeps_hd(self, r) }
    open spec fn pre4(self, inl: bool) -> bool { p4_hd(self, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4_hd(self, inl) }
//@extract fn yaml/hash_data.rs <HashData as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@end
}
impl Pretty for ArrayData {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { p3_ad(self, inl) }
    open spec fn kept(self, r: Self) -> bool { keeps_ad(self, r) }
    open spec fn pre4(self, inl: bool) -> bool { p4_ad(self, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4_ad(self, inl) }
//@extract fn yaml/array_data.rs <ArrayData as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@end
}
impl Pretty for HashElement {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { p3(self.value.value, inl) }
    open spec fn kept(self, r: Self) -> bool { self.key == r.key && self.value.alias == r.value.alias && keeps(self.value.value, r.value.value) }
    open spec fn pre4(self, inl: bool) -> bool { p4(self.value.value, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4(self.value.value, inl) }
//@extract fn yaml/hash_element.rs <HashElement as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@end
}
impl Pretty for AliasedYaml {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { p3(self.value, inl) }
    open spec fn kept(self, r: Self) -> bool { self.alias == r.alias && keeps(self.value, r.value) }
    open spec fn pre4(self, inl: bool) -> bool { p4(self.value, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4(self.value, inl) }
//@extract fn yaml/aliased.rs <AliasedYaml as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@end
}
impl Pretty for DocumentData {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { !inl && doc_p31(self) }
    open spec fn kept(self, r: Self) -> bool { doc_kept1(self, r) }
    open spec fn pre4(self, inl: bool) -> bool { !inl && doc_p41(self) }
    open spec fn shape4(self, inl: bool) -> bool { doc_q41(self) }
//@extract fn yaml/document.rs <DocumentData as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@end
}
impl Pretty for Document {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { doc_p3(self.items@) }
    open spec fn kept(self, r: Self) -> bool { self.leading_comments == r.leading_comments && doc_kept(self.items@, r.items@) }
    open spec fn pre4(self, inl: bool) -> bool { doc_p4(self.items@) }
    open spec fn shape4(self, inl: bool) -> bool { doc_q4(self.items@) }
//@extract fn yaml/document.rs <Document as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@end
}
impl Pretty for Yaml {
    open spec fn size(self) -> nat { 0 }
    open spec fn pre3(self, inl: bool) -> bool { p3(self, inl) }
    open spec fn kept(self, r: Self) -> bool { keeps(self, r) }
    open spec fn pre4(self, inl: bool) -> bool { p4(self, inl) }
    open spec fn shape4(self, inl: bool) -> bool { q4(self, inl) }
//@extract fn yaml/mod.rs <Yaml as Pretty>::pretty_with_options
//@ret: r
//@decreases: self
//@start: let ghost sf = self;
//@loop 0 inv:= $m0@.len() == $it.index@, p3_flow_hash($src@) ==> keeps_flow_hash($src@.take($it.index@), $m0@), p4_flow_hash($src@) ==> q4_flow_hash($m0@)
//@loop 1 inv:= p3_hash($src@, true) ==> keeps_hash_flow($src@.take($it.index@), $m0@), p4_hash($src@, true) ==> q4_flow_hash($m0@)
//@loop 1 start:= let ghost r0 = $m0@; proof { if p4_hash($src@, true) { assert(p4_hd($src@[$it.index@], true)); } }
//@loop 1 end:= proof { if $src@[$it.index@] is Element { assert($m0@.drop_last() =~= r0); } }
//@loop 2 inv:= p3_array($src@, true) ==> keeps_array_flow($src@.take($it.index@), $m0@), p4_array($src@, true) ==> q4_flow_array($m0@)
//@loop 2 start:= let ghost r0 = $m0@; proof { if p4_array($src@, true) { assert(p4_ad($src@[$it.index@], true)); } }
//@loop 2 end:= proof { if $src@[$it.index@] is Element { assert($m0@.drop_last() =~= r0); } }
//@loop 3 inv:= $m0 ==> forall|j: int| 0 <= j < $it.index@ ==> movable(#[trigger] $src@[j])
//@loop 4 inv:= $m0@.len() == $it.index@, forall|j: int| 0 <= j < $it.index@ ==> $m0@[j] == held(#[trigger] $src@[j])
//@loop 4 after:= proof { if sf is Array { lem_move(sf->Array_0@, $src@, $m0@); } }
//@end
}
//@extract fn yaml/mod.rs is_inlineable
//@ret: r
//@ensures: r ==> inlineable(*$p0)
//@end
//@extract fn yaml/mod.rs fold
//@ret: r
//@loop 0 inv:= sv_strs($m0@) =~= sv_strings($src@).take($it.index@)
//@ensures: r matches Some(y) ==> y is FoldedString && scalar_value(y) == Some($p0@)
//@end
