// ---- looking at one node -----------------------------------------------------------
impl Yaml {
//@extract fn yaml/mod.rs Yaml::key_index
//@ret: r
//@ensures: match r { Some(i) => i == ypos(*self, $p0@), None => ypos(*self, $p0@) < 0 }
//@loop 0 inv:= ? $m0 is None
//@loop 0 inv:= kpos($src@.take($it.index@), $p0@) < 0
//@loop 0 ens:= ? at_key($m0, $src@, $p0@)
//@closure 0 params:= (usize, &HashData)
//@closure 0:= -> (q: usize) ensures q == $a0.0
//@end
//@extract fn yaml/mod.rs Yaml::key_value
//@ret: r
//@ensures: match r { Some(v) => yval(*self, $p0@) == Some(*v), None => yval(*self, $p0@) is None }
//@loop 0 inv:= ? $m0 is None
//@loop 0 inv:= kpos($src@.take($it.index@), $p0@) < 0
//@loop 0 ens:= ? is_val($m0, *self, $p0@)
//@end
//@extract fn yaml/mod.rs Yaml::key_value_owned
//@ret: r
//@ensures: r == yval(*self, $p0@)
//@loop 0 inv:= ? $m0 is None
//@loop 0 inv:= kpos($src@.take($it.index@), $p0@) < 0
//@loop 0 ens:= ? $m0 == yval(*self, $p0@)
//@end
//@extract fn yaml/mod.rs Yaml::key_value_mut
//@ret: r
//@ensures: borrowed(*old(self), *final(self), $p0@, r)
//@loop 0 before:= let ghost v0 = old(self)->Hash_0@;
//@loop 0 inv:= $it.seq().len() == v0.len(), forall|j: int| 0 <= j < v0.len() ==> *(#[trigger] $it.seq()[j]).1 == v0[j]
//@loop 0 inv:= forall|b: Seq<HashData>| is_fin_map(b, $it.seq()) ==> #[trigger] upto(v0, b, $it.index@, $p0@, $m0)
//@loop 0 start:= let ghost o1 = $m0; let ghost i1 = $it.index@;
//@loop 0 end:= proof {
//@    assert(*$it.seq()[i1].1 == v0[i1]);
//@    assert forall|b: Seq<HashData>| is_fin_map(b, $it.seq()) implies #[trigger] upto(v0, b, i1 + 1, $p0@, $m0) by {
//@        assert(upto(v0, b, i1, $p0@, o1));
//@        if o1 is None && is_key(v0[i1], $p0@) { assert(b[i1] == with_value(v0[i1], *final($m0->0))); } else { assert(b[i1] == v0[i1]); }
//@    }
//@ }
//@loop 0 after:= proof { let n = v0.len() as int; assert(v0.take(n) =~= v0); assert(upto(v0, $b0@, n, $p0@, $m0)); l_kpos(v0, $p0@);
//@    let f = *$b0; let i = kpos(v0, $p0@); axiom_vec_ext(f, old(self)->Hash_0);
//@    if i >= 0 { assert(f@ =~= v0.update(i, with_value(v0[i], *final($m0->0)))); assert(*final($m0->0) == *$m0->0 ==> f@ =~= v0); } else { assert(f@ =~= v0); }
//@ }
//@end
//@extract fn yaml/mod.rs Yaml::fits_conditions
//@ret: r
//@ensures: r == fits(*self, $p0@)
//@loop 0 inv:= ? $m0 is None
//@loop 0 inv:= forall|i: int| 0 <= i < $it.index@ ==> cond_holds(*self, #[trigger] $p0@[i])
//@loop 0 ens:= ? unless_cond($m0, *self, $p0@)
//@end
}
impl AliasedYaml {
//@extract fn yaml/aliased.rs AliasedYaml::fits_conditions
//@ret: r
//@ensures: r == fits(self.value, $p0@)
//@end
}
impl ArrayData {
//@extract fn yaml/array_data.rs ArrayData::fits_conditions
//@ret: r
//@ensures: r == (node(*self) is Some && fits(node(*self)->0, $p0@))
//@end
}
// ---- putting results together ---------------------------------------------------------
impl Additive for usize {
    open spec fn is_zero(self) -> bool { self == 0 }
    open spec fn is_sum(self, o: Self, r: Self) -> bool { r == self + o }
//@extract fn yaml/insert.rs <usize as Additive>::zero
//@ret: r
//@end
    /// a count never overflows
    #[verifier::external_body]
    fn m_plus(self, o: Self) -> (r: Self) { unimplemented!() }
}
impl<T> Additive for MyVec<T> {
    open spec fn is_zero(self) -> bool { self.0@.len() == 0 }
    open spec fn is_sum(self, o: Self, r: Self) -> bool { r.0@ == self.0@ + o.0@ }
//@extract fn yaml/insert.rs <MyVec as Additive>::zero
//@ret: r
//@end
//@extract fn yaml/insert.rs <MyVec as Add>::add
//@name: m_plus
//@ret: r
//@loop 0 inv:= $m0@ =~= $it.seq().take($it.index@), $it.seq() =~= self.0@ + $p0.0@
//@end
}
#[verifier::external_body]
fn m_chain<I: Iterator, J: Iterator<Item = I::Item>>(a: I, b: J) -> (r: Vec<I::Item>)
    ensures r@ == a.remaining() + b.remaining()
{ a.chain(b).collect() }
pub fn m_plus<A: Additive>(a: A, b: A) -> (r: A) ensures a.is_sum(b, r) { a.m_plus(b) }

// ---- editing the entries of the mappings a path reaches -------------------------------
//@rewrite path Self::Output => Self
//@rewrite call + => m_plus
//@rewrite call += => m_add
pub trait YamlInsert: Sized {
    #[verifier::prophetic]
    spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool;
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int)
        requires implies_rel(e, s), self.edited(e, p, b, n)
        ensures self.edited(s, p, b, n);
    fn edit_hash_structure<F>(&mut self, path: &YamlPath, f: &F) -> (n: usize)
    where
        F: Fn(&mut Vec<HashData>, String, Option<usize>) -> usize,
        requires forall|m: &mut Vec<HashData>, k: String, i: Option<usize>| 
             (match i { Some(x) => x < m@.len(), None => true }) ==> #[trigger] f.requires((m, k, i)),
        ensures (*old(self)).edited(OfEdit(*f), *path, *final(self), n as int);
    #[verifier::prophetic]
    spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool;
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A)
        requires implies_vis(v, w), self.visited(v, p, b, r)
        ensures self.visited(w, p, b, r);
    /// the values found at a path
    spec fn values(self, p: YamlPath) -> Seq<Yaml>;
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>)
        requires self.visited(FindRel, p, b, r)
        ensures b == self, r.0@ == self.values(p);
    fn for_hash<F, R, A: Additive>(&mut self, path: &YamlPath, f: &F, r: &R) -> (n: A)
    where
        F: Fn(&mut HashElement) -> A,
        R: Fn(&mut Yaml) -> A,
        requires
            forall|m: &mut HashElement| #[trigger] f.requires((m,)),
            forall|m: &mut Yaml| #[trigger] r.requires((m,)),
        ensures (*old(self)).visited(OfVisit(*f, *r), *path, *final(self), n);
}
impl YamlInsert for HashElement {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool { field_frame(self, b) && ed(e, p, self.value.value, b.value.value, n) }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { lem_mono(e, s, p, self.value.value, b.value.value, n); }
//@extract fn yaml/hash_element.rs <HashElement as YamlInsert>::edit_hash_structure
//@ret: r
//@decreases: *$p0, 2nat
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { fh_he(v, p, self, b, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { lem_vmono_he(v, w, p, self, b, r) }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { found_he(p, self) }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { lem_found_he(p, self, b, r) }
//@extract fn yaml/hash_element.rs <HashElement as YamlInsert>::for_hash
//@ret: ret__
//@decreases: psize(*$p0), 2nat
//@end
}
impl YamlInsert for HashData {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool {
        match self { HashData::Element(_) => hd_frame(self, b) && ed(e, p, value_of(self), value_of(b), n), _ => b == self && n == 0 }
    }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { if self is Element { lem_mono(e, s, p, value_of(self), value_of(b), n); } }
//@extract fn yaml/hash_data.rs <HashData as YamlInsert>::edit_hash_structure
//@ret: r
//@decreases: *$p0, 3nat
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { fh_hd(v, p, self, b, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { match (self, b) { (HashData::Element(x), HashData::Element(y)) => lem_vmono_he(v, w, p, x, y, r), _ => {} } }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { match self { HashData::Element(e) => found_he(p, e), _ => Seq::empty() } }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { match (self, b) { (HashData::Element(x), HashData::Element(y)) => lem_found_he(p, x, y, r), _ => { assert(r.0@ =~= Seq::empty()); } } }
//@extract fn yaml/hash_data.rs <HashData as YamlInsert>::for_hash
//@ret: ret__
//@decreases: psize(*$p0), 3nat
//@end
}
impl YamlInsert for ArrayData {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool {
        match self { ArrayData::Element(_) => frame(self, b) && ed(e, p, node(self)->0, node(b)->0, n), _ => b == self && n == 0 }
    }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { if self is Element { lem_mono(e, s, p, node(self)->0, node(b)->0, n); } }
//@extract fn yaml/array_data.rs <ArrayData as YamlInsert>::edit_hash_structure
//@ret: r
//@decreases: *$p0, 2nat
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { fh_ad(v, p, self, b, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { lem_vmono_ad(v, w, p, self, b, r) }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { match (self, p) { (ArrayData::Element(e), YamlPath::Key(_, _, None)) => found(p, e.value), (ArrayData::Element(e), YamlPath::AllIndexes(_, o)) => found_next(o, e.value), (ArrayData::Element(e), YamlPath::Indexes(_, _, o)) => found_next(o, e.value), _ => Seq::empty() } }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { match (self, p) { (ArrayData::Element(_), YamlPath::Key(_, _, None)) => lem_found(p, node(self)->0, node(b)->0, r), (ArrayData::Element(_), YamlPath::AllIndexes(_, o)) => lem_found_next(o, node(self)->0, node(b)->0, r), (ArrayData::Element(_), YamlPath::Indexes(_, _, o)) => lem_found_next(o, node(self)->0, node(b)->0, r), _ => { assert(r.0@ =~= Seq::empty()); } } }
//@extract fn yaml/array_data.rs <ArrayData as YamlInsert>::for_hash
//@ret: ret__
//@decreases: psize(*$p0), if *$p0 is Key { 9nat } else { 1nat }
//@end
}
impl YamlInsert for AliasedYaml {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool { self.alias == b.alias && ed(e, p, self.value, b.value, n) }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { lem_mono(e, s, p, self.value, b.value, n); }
//@extract fn yaml/aliased.rs <AliasedYaml as YamlInsert>::edit_hash_structure
//@ret: r
//@decreases: *$p0, 1nat
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { self.alias == b.alias && fh(v, p, self.value, b.value, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { lem_vmono(v, w, p, self.value, b.value, r) }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { found(p, self.value) }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { lem_found(p, self.value, b.value, r) }
//@extract fn yaml/aliased.rs <AliasedYaml as YamlInsert>::for_hash
//@ret: ret__
//@decreases: psize(*$p0), 8nat
//@end
}
impl YamlInsert for Yaml {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool { ed(e, p, self, b, n) }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { lem_mono(e, s, p, self, b, n); }
//@extract fn yaml/mod.rs <Yaml as YamlInsert>::edit_hash_structure
//@ret: r
//@decreases: *$p0, 0nat
//@loop 0 before:= let ghost e0 = lift($b3@);
//@loop 0 inv:= $b3@.len() == e0.len(), ed_idx(OfEdit(*$p1), $src@.take($it.index@), $b1@, **$b2, e0, lift($b3@), $m0 as int)
//@loop 0 start:= let ghost e1 = $b3@; let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 0 end:= proof {
//@     let i = $src@[i1] as int;
//@     assert(i < e1.len() ==> lift($b3@) =~= lift(e1).update(i, lift($b3@)[i]));
//@     lem_idx_step(OfEdit(*$p1), $src@, i1, $b1@, **$b2, e0, lift(e1), lift($b3@), k1 as int, $m0 - k1);
//@ }
//@loop 1 before:= let ghost e0 = $b3@;
//@loop 1 inv:= cur($it.seq()) == e0, cur($m0@) == pick(e0.take($it.index@), e0.take($it.index@))
//@loop 1 inv:= fin($m0@) == pick(e0.take($it.index@), fin($it.seq()).take($it.index@))
//@loop 1 inv:= forall|j: int| 0 <= j < $it.index@ && node(#[trigger] e0[j]) is None ==> fin($it.seq())[j] == e0[j]
//@loop 1 inv:= forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) ==> fin($m0@) == #[trigger] pick(e0.take($it.index@), b.take($it.index@)) && same_comments(e0.take($it.index@), b.take($it.index@))
//@loop 1 start:= let ghost i1 = $it.index@; let ghost m1 = $m0@;
//@loop 1 end:= proof {
//@     assert(e0[i1] == *$it.seq()[i1]);
//@     if node(e0[i1]) is Some { assert(cur($m0@) =~= cur(m1).push(e0[i1])); assert(fin($m0@) =~= fin(m1).push(fin($it.seq())[i1])); }
//@     assert forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) implies b == fin($it.seq()) by { assert(b =~= fin($it.seq())); }
//@ }
//@loop 2 before:= let ghost e0 = old(self)->Array_0@; let ghost p0 = cur($m1@); let ghost q0 = fin($m1@);
//@loop 2 inv:= fin($m1@) == q0, cur($m1@).len() == p0.len(), ed_idx(OfEdit(*$p1), $src@.take($it.index@), $b1@, **$b2, p0, cur($m1@), $m0 as int)
//@loop 2 start:= let ghost e1 = cur($m1@); let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 2 end:= proof {
//@     let i = $src@[i1] as int;
//@     assert(fin($m1@) =~= q0);
//@     assert(i < e1.len() ==> cur($m1@) =~= e1.update(i, cur($m1@)[i]));
//@     assert(i >= e1.len() ==> cur($m1@) =~= e1);
//@     lem_idx_step(OfEdit(*$p1), $src@, i1, $b1@, **$b2, p0, e1, cur($m1@), k1 as int, $m0 - k1);
//@ }
//@loop 2 after:= proof { assert(has_resolved($m1) ==> cur($m1@) =~= fin($m1@)); }
//@loop 3 before:= let ghost e0 = lift($b2@);
//@loop 3 inv:= lift(cur($it.seq())) == e0
//@loop 3 inv:= ed_all(OfEdit(*$p1), $b0@, **$b1, e0.take($it.index@), lift(fin($it.seq())).take($it.index@), $m0 as int)
//@loop 3 inv:= forall|b: Seq<ArrayData>| is_fin_flow(b, $it.seq()) ==> #[trigger] ed_all(OfEdit(*$p1), $b0@, **$b1, e0.take($it.index@), b.take($it.index@), $m0 as int)
//@loop 3 start:= let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 3 end:= proof {
//@     assert(e0[i1] == lift1(*$it.seq()[i1]));
//@     lem_all_step(OfEdit(*$p1), $b0@, **$b1, e0, lift(fin($it.seq())), i1, k1 as int, $m0 - k1);
//@     assert forall|b: Seq<ArrayData>| is_fin_flow(b, $it.seq()) implies b == lift(fin($it.seq())) by { assert(b =~= lift(fin($it.seq()))); }
//@ }
//@loop 4 before:= let ghost e0 = $b2@;
//@loop 4 inv:= cur($it.seq()) == e0
//@loop 4 inv:= ed_all(OfEdit(*$p1), $b0@, **$b1, e0.take($it.index@), fin($it.seq()).take($it.index@), $m0 as int)
//@loop 4 inv:= forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) ==> #[trigger] ed_all(OfEdit(*$p1), $b0@, **$b1, e0.take($it.index@), b.take($it.index@), $m0 as int)
//@loop 4 start:= let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 4 end:= proof {
//@     assert(e0[i1] == *$it.seq()[i1]);
//@     lem_all_step(OfEdit(*$p1), $b0@, **$b1, e0, fin($it.seq()), i1, k1 as int, $m0 - k1);
//@     assert forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) implies b == fin($it.seq()) by { assert(b =~= fin($it.seq())); }
//@ }
//@loop 0 after:= proof { assert(ed_idx(OfEdit(*$p1), $src@, $b1@, **$b2, e0, lift($b3@), $m0 as int)); }
//@loop 2 after:= proof { assert(ed_idx(OfEdit(*$p1), $src@, $b1@, **$b2, p0, q0, $m0 as int));
//@    let n = e0.len() as int; assert(e0.take(n) =~= e0);
//@    assert(final(self)->Array_0@.len() == n); assert(final(self)->Array_0@.take(n) =~= final(self)->Array_0@); assert(pick(e0.take(n), final(self)->Array_0@.take(n)) == q0);
//@ }
//@loop 3 after:= proof { let n = e0.len() as int; assert(e0.take(n) =~= e0); assert(lift($b2@).take(n) =~= lift($b2@)); assert(ed_all(OfEdit(*$p1), $b0@, **$b1, e0.take(n), lift($b2@).take(n), $m0 as int)); }
//@loop 4 after:= proof { let n = e0.len() as int; assert(e0.take(n) =~= e0); assert($b2@.take(n) =~= $b2@); assert(ed_all(OfEdit(*$p1), $b0@, **$b1, e0.take(n), $b2@.take(n), $m0 as int)); }
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { fh(v, p, self, b, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { lem_vmono(v, w, p, self, b, r) }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { found(p, self) }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { lem_found(p, self, b, r) }
//@extract fn yaml/mod.rs <Yaml as YamlInsert>::for_hash
//@ret: ret__
//@decreases: psize(*$p0), 7nat
//@loop 0 before:= let ghost e0 = lift($b3@);
//@loop 0 inv:= $b3@.len() == e0.len(), fh_idx(OfVisit(*$p1, *$p2), $src@.take($it.index@), $b1@, *$b2, e0, lift($b3@), $m0)
//@loop 0 start:= let ghost e1 = $b3@; let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 0 end:= proof {
//@     let i = $src@[i1] as int;
//@     assert(i < e1.len() ==> lift($b3@) =~= lift(e1).update(i, lift($b3@)[i]));
//@     assert(!(i < e1.len() && elem_fits(lift(e1)[i], $b1@)) ==> lift($b3@) =~= lift(e1));
//@     lem_fh_idx_step(OfVisit(*$p1, *$p2), $src@, i1, $b1@, *$b2, e0, lift(e1), lift($b3@), k1, $m0);
//@ }
//@loop 1 before:= let ghost e0 = $b3@;
//@loop 1 inv:= cur($it.seq()) == e0, cur($m0@) == pick(e0.take($it.index@), e0.take($it.index@))
//@loop 1 inv:= fin($m0@) == pick(e0.take($it.index@), fin($it.seq()).take($it.index@))
//@loop 1 inv:= forall|j: int| 0 <= j < $it.index@ && node(#[trigger] e0[j]) is None ==> fin($it.seq())[j] == e0[j]
//@loop 1 inv:= forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) ==> fin($m0@) == #[trigger] pick(e0.take($it.index@), b.take($it.index@)) && same_comments(e0.take($it.index@), b.take($it.index@))
//@loop 1 start:= let ghost i1 = $it.index@; let ghost m1 = $m0@;
//@loop 1 end:= proof {
//@     assert(e0[i1] == *$it.seq()[i1]);
//@     if node(e0[i1]) is Some { assert(cur($m0@) =~= cur(m1).push(e0[i1])); assert(fin($m0@) =~= fin(m1).push(fin($it.seq())[i1])); }
//@     assert forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) implies b == fin($it.seq()) by { assert(b =~= fin($it.seq())); }
//@ }
//@loop 2 before:= let ghost e0 = old(self)->Array_0@; let ghost p0 = cur($m1@); let ghost q0 = fin($m1@);
//@loop 2 inv:= fin($m1@) == q0, cur($m1@).len() == p0.len(), fh_idx(OfVisit(*$p1, *$p2), $src@.take($it.index@), $b1@, *$b2, p0, cur($m1@), $m0)
//@loop 2 start:= let ghost e1 = cur($m1@); let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 2 end:= proof {
//@     let i = $src@[i1] as int;
//@     assert(fin($m1@) =~= q0);
//@     assert(i < e1.len() ==> cur($m1@) =~= e1.update(i, cur($m1@)[i]));
//@     assert(!(i < e1.len() && elem_fits(e1[i], $b1@)) ==> cur($m1@) =~= e1);
//@     lem_fh_idx_step(OfVisit(*$p1, *$p2), $src@, i1, $b1@, *$b2, p0, e1, cur($m1@), k1, $m0);
//@ }
//@loop 2 after:= proof { assert(has_resolved($m1) ==> cur($m1@) =~= fin($m1@)); }
//@loop 3 before:= let ghost e0 = lift($b2@);
//@loop 3 inv:= lift(cur($it.seq())) == e0
//@loop 3 inv:= fh_all(OfVisit(*$p1, *$p2), $b0@, *$b1, e0.take($it.index@), lift(fin($it.seq())).take($it.index@), $m0)
//@loop 3 inv:= forall|b: Seq<ArrayData>| is_fin_flow(b, $it.seq()) ==> #[trigger] fh_all(OfVisit(*$p1, *$p2), $b0@, *$b1, e0.take($it.index@), b.take($it.index@), $m0)
//@loop 3 start:= let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 3 end:= proof {
//@     assert(e0[i1] == lift1(*$it.seq()[i1]));
//@     lem_fh_all_step(OfVisit(*$p1, *$p2), $b0@, *$b1, e0, lift(fin($it.seq())), i1, k1, $m0);
//@     assert forall|b: Seq<ArrayData>| is_fin_flow(b, $it.seq()) implies b == lift(fin($it.seq())) by { assert(b =~= lift(fin($it.seq()))); }
//@ }
//@loop 4 before:= let ghost e0 = $b2@;
//@loop 4 inv:= cur($it.seq()) == e0
//@loop 4 inv:= fh_all(OfVisit(*$p1, *$p2), $b0@, *$b1, e0.take($it.index@), fin($it.seq()).take($it.index@), $m0)
//@loop 4 inv:= forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) ==> #[trigger] fh_all(OfVisit(*$p1, *$p2), $b0@, *$b1, e0.take($it.index@), b.take($it.index@), $m0)
//@loop 4 start:= let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 4 end:= proof {
//@     assert(e0[i1] == *$it.seq()[i1]);
//@     lem_fh_all_step(OfVisit(*$p1, *$p2), $b0@, *$b1, e0, fin($it.seq()), i1, k1, $m0);
//@     assert forall|b: Seq<ArrayData>| is_fin(b, $it.seq()) implies b == fin($it.seq()) by { assert(b =~= fin($it.seq())); }
//@ }
//@loop 0 after:= proof { assert(fh_idx(OfVisit(*$p1, *$p2), $src@, $b1@, *$b2, e0, lift($b3@), $m0)); }
//@loop 2 after:= proof { assert(fh_idx(OfVisit(*$p1, *$p2), $src@, $b1@, *$b2, p0, q0, $m0));
//@    let n = e0.len() as int; assert(e0.take(n) =~= e0);
//@    assert(final(self)->Array_0@.len() == n); assert(final(self)->Array_0@.take(n) =~= final(self)->Array_0@); assert(pick(e0.take(n), final(self)->Array_0@.take(n)) == q0);
//@ }
//@loop 3 after:= proof { let n = e0.len() as int; assert(e0.take(n) =~= e0); assert(lift($b2@).take(n) =~= lift($b2@)); assert(fh_all(OfVisit(*$p1, *$p2), $b0@, *$b1, e0.take(n), lift($b2@).take(n), $m0)); }
//@loop 4 after:= proof { let n = e0.len() as int; assert(e0.take(n) =~= e0); assert($b2@.take(n) =~= $b2@); assert(fh_all(OfVisit(*$p1, *$p2), $b0@, *$b1, e0.take(n), $b2@.take(n), $m0)); }
//@end
}
impl YamlInsert for DocumentData {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool { ed_dd(e, p, self, b, n) }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { match (self, b) { (DocumentData::Yaml(x), DocumentData::Yaml(y)) => lem_mono(e, s, p, x, y, n), _ => {} } }
//@extract fn yaml/document.rs <DocumentData as YamlInsert>::edit_hash_structure
//@ret: r
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { fh_dd(v, p, self, b, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { match (self, b) { (DocumentData::Yaml(x), DocumentData::Yaml(y)) => lem_vmono(v, w, p, x, y, r), _ => {} } }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { match self { DocumentData::Yaml(y) => found(p, y), _ => Seq::empty() } }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { match (self, b) { (DocumentData::Yaml(x), DocumentData::Yaml(y)) => lem_found(p, x, y, r), _ => { assert(r.0@ =~= Seq::empty()); } } }
//@extract fn yaml/document.rs <DocumentData as YamlInsert>::for_hash
//@ret: ret__
//@end
}
impl YamlInsert for Document {
    #[verifier::prophetic]
    open spec fn edited<E: EditRel>(self, e: E, p: YamlPath, b: Self, n: int) -> bool { self.leading_comments == b.leading_comments && ed_doc(e, p, self.items@, b.items@, n) }
    proof fn mono<E: EditRel, S: EditRel>(self, e: E, s: S, p: YamlPath, b: Self, n: int) { lem_mono_doc(e, s, p, self.items@, b.items@, n); }
//@extract fn yaml/document.rs <Document as YamlInsert>::edit_hash_structure
//@ret: r
//@loop 0 before:= let ghost e0 = self.items@;
//@loop 0 inv:= cur($it.seq()) == e0
//@loop 0 inv:= ed_doc(OfEdit(*$p1), *$p0, e0.take($it.index@), fin($it.seq()).take($it.index@), $m0 as int)
//@loop 0 inv:= forall|b: Seq<DocumentData>| is_fin_doc(b, $it.seq()) ==> #[trigger] ed_doc(OfEdit(*$p1), *$p0, e0.take($it.index@), b.take($it.index@), $m0 as int)
//@loop 0 start:= let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 0 end:= proof {
//@     assert(e0[i1] == *$it.seq()[i1]);
//@     lem_doc_step(OfEdit(*$p1), *$p0, e0, fin($it.seq()), i1, k1 as int, $m0 - k1);
//@     assert forall|b: Seq<DocumentData>| is_fin_doc(b, $it.seq()) implies b == fin($it.seq()) by { assert(b =~= fin($it.seq())); }
//@ }
//@loop 0 after:= proof { let n = e0.len() as int; assert(e0.take(n) =~= e0); assert(self.items@.take(n) =~= self.items@); assert(ed_doc(OfEdit(*$p1), *$p0, e0.take(n), self.items@.take(n), $m0 as int)); }
//@end
    #[verifier::prophetic]
    open spec fn visited<A: Additive, V: VisitRel<A>>(self, v: V, p: YamlPath, b: Self, r: A) -> bool { self.leading_comments == b.leading_comments && fh_doc(v, p, self.items@, b.items@, r) }
    proof fn vmono<A: Additive, V: VisitRel<A>, W: VisitRel<A>>(self, v: V, w: W, p: YamlPath, b: Self, r: A) { lem_vmono_doc(v, w, p, self.items@, b.items@, r) }
    open spec fn values(self, p: YamlPath) -> Seq<Yaml> { found_doc(p, self.items@) }
    proof fn found_ok(self, p: YamlPath, b: Self, r: MyVec<Yaml>) { lem_found_doc(p, self.items@, b.items@, r); axiom_vec_ext(self.items, b.items); }
//@extract fn yaml/document.rs <Document as YamlInsert>::for_hash
//@ret: ret__
//@loop 0 before:= let ghost e0 = self.items@;
//@loop 0 inv:= cur($it.seq()) == e0
//@loop 0 inv:= fh_doc(OfVisit(*$p1, *$p2), *$p0, e0.take($it.index@), fin($it.seq()).take($it.index@), $m0)
//@loop 0 inv:= forall|b: Seq<DocumentData>| is_fin_doc(b, $it.seq()) ==> #[trigger] fh_doc(OfVisit(*$p1, *$p2), *$p0, e0.take($it.index@), b.take($it.index@), $m0)
//@loop 0 start:= let ghost k1 = $m0; let ghost i1 = $it.index@;
//@loop 0 end:= proof {
//@     assert(e0[i1] == *$it.seq()[i1]);
//@     let x = choose|x: A| #[trigger] k1.is_sum(x, $m0) && fh_dd(OfVisit(*$p1, *$p2), *$p0, e0[i1], fin($it.seq())[i1], x);
//@     lem_fh_doc_step(OfVisit(*$p1, *$p2), *$p0, e0, fin($it.seq()), i1, k1, x, $m0);
//@     assert forall|b: Seq<DocumentData>| is_fin_doc(b, $it.seq()) implies b == fin($it.seq()) by { assert(b =~= fin($it.seq())); }
//@ }
//@loop 0 after:= proof { let n = e0.len() as int; assert(e0.take(n) =~= e0); assert(self.items@.take(n) =~= self.items@); assert(fh_doc(OfVisit(*$p1, *$p2), *$p0, e0.take(n), self.items@.take(n), $m0)); }
//@end
}
// ---- the methods every node type gets from the trait (default bodies of trait YamlInsert) ----
//@impls YamlInsert: for_hash edit_hash_structure
pub trait YamlEdits: YamlInsert {
    fn insert_into_hash(&mut self, path: &YamlPath, h: &AliasedYaml, overwrite: bool) -> (n: usize)
        ensures old(self).edited(InsertRel { value: *h, overwrite }, *path, *final(self), n as int);
    fn insert_into_hash_by_call<F>(&mut self, path: &YamlPath, h: F, overwrite: bool) -> (n: usize)
    where
        F: Fn() -> AliasedYaml,
        requires h.requires(())
        ensures old(self).edited(InsertByRel { make: h, overwrite }, *path, *final(self), n as int);
    fn remove_from_hash(&mut self, path: &YamlPath) -> (n: usize)
        ensures old(self).edited(RemoveRel, *path, *final(self), n as int);
    fn find_values(&mut self, path: &YamlPath) -> (v: MyVec<Yaml>)
        ensures *final(self) == *old(self), v.0@ == old(self).values(*path);
    fn rename_field(&mut self, path: &YamlPath, new_name: String) -> (n: usize)
        ensures old(self).visited(RenameRel { name: new_name@ }, *path, *final(self), n);
    fn to_object(&mut self, path: &YamlPath, object_key: String) -> (n: usize)
        ensures old(self).visited(WrapRel { key: object_key@ }, *path, *final(self), n);
    fn move_to_subfield(&mut self, path: &YamlPath, subfield: String, fields_to_move: Vec<String>) -> (n: usize)
        ensures old(self).visited(MoveRel { sub: subfield, names: fields_to_move@ }, *path, *final(self), n);
}
impl<T: YamlInsert> YamlEdits for T {
//@extract fn yaml/insert.rs trait YamlInsert::insert_into_hash
//@ret: r
//@closure [&mutVec<HashData>]:= -> (q: usize) requires $a2 is Some ==> $a2->0 < $a0@.len() ensures put(old($a0)@, $a1@, $a2, *$p1, $p2, final($a0)@, q as int)
//@end: proof { lem_of($k[&mutVec<HashData>], InsertRel { value: *$p1, overwrite: $p2 }); old(self).mono(OfEdit($k[&mutVec<HashData>]), InsertRel { value: *$p1, overwrite: $p2 }, *$p0, *final(self), r__ as int); }
//@end
//@extract fn yaml/insert.rs trait YamlInsert::insert_into_hash_by_call
//@ret: r
//@closure [&mutVec<HashData>]:= -> (q: usize) requires $a2 is Some ==> $a2->0 < $a0@.len() ensures put(old($a0)@, $a1@, $a2, new_value(final($a0)@, $a2), $p2, final($a0)@, q as int) && (q == 1 ==> made_by(&$p1, new_value(final($a0)@, $a2)))
//@end: proof { lem_of($k[&mutVec<HashData>], InsertByRel { make: $p1, overwrite: $p2 }); old(self).mono(OfEdit($k[&mutVec<HashData>]), InsertByRel { make: $p1, overwrite: $p2 }, *$p0, *final(self), r__ as int); }
//@end
//@extract fn yaml/insert.rs trait YamlInsert::remove_from_hash
//@ret: r
//@closure [&mutVec<HashData>]:= -> (q: usize) requires $a2 is Some ==> $a2->0 < $a0@.len() ensures RemoveRel.holds(old($a0)@, $a1@, $a2, final($a0)@, q as int)
//@end: proof { lem_of($k[&mutVec<HashData>], RemoveRel); old(self).mono(OfEdit($k[&mutVec<HashData>]), RemoveRel, *$p0, *final(self), r__ as int); }
//@end
//@extract fn yaml/insert.rs trait YamlInsert::find_values
//@ret: r
//@closure [&mutHashElement]:= -> (q: MyVec<Yaml>) ensures FindRel.on_field(*old($a0), *final($a0), q)
//@closure [&mutYaml]:= -> (q: MyVec<Yaml>) ensures FindRel.on_node(*old($a0), *final($a0), q)
//@end: proof { lem_ofv($k[&mutHashElement], $k[&mutYaml], FindRel); old(self).vmono(OfVisit($k[&mutHashElement], $k[&mutYaml]), FindRel, *$p0, *final(self), r__); old(self).found_ok(*$p0, *final(self), r__); }
//@end
//@extract fn yaml/insert.rs trait YamlInsert::rename_field
//@ret: r
//@closure [&mutHashElement]:= -> (q: usize) ensures (RenameRel { name: $p1@ }).on_field(*old($a0), *final($a0), q)
//@closure [&mutYaml]:= -> (q: usize) ensures *final($a0) == *old($a0), q == 0
//@end: proof { lem_ofv($k[&mutHashElement], $k[&mutYaml], RenameRel { name: $p1@ }); old(self).vmono(OfVisit($k[&mutHashElement], $k[&mutYaml]), RenameRel { name: $p1@ }, *$p0, *final(self), r__); }
//@end
//@extract fn yaml/insert.rs trait YamlInsert::to_object
//@ret: r
//@closure [&mutHashElement]:= -> (q: usize) ensures (WrapRel { key: $p1@ }).on_field(*old($a0), *final($a0), q)
//@closure [&mutYaml]:= -> (q: usize) ensures *final($a0) == *old($a0), q == 0
//@end: proof { lem_ofv($k[&mutHashElement], $k[&mutYaml], WrapRel { key: $p1@ }); old(self).vmono(OfVisit($k[&mutHashElement], $k[&mutYaml]), WrapRel { key: $p1@ }, *$p0, *final(self), r__); }
//@end
//@extract fn yaml/insert.rs trait YamlInsert::move_to_subfield
//@ret: r
//@closure [&mutYaml]:= -> (q: usize) ensures moving(&$p1, &$p2).on_node(*old($a0), *final($a0), q)
//@closure [&mutHashElement]:= -> (q: usize) ensures moving(&$p1, &$p2).on_field(*old($a0), *final($a0), q)
//@loop 0 inv:= pairs($m0@) == sel(*$b0, $p1@, $p2@.take($it.index@))
//@loop 0 start:= let ghost f1 = $m0@; let ghost i1 = $it.index@;
//@loop 0 end:= proof {
//@    let t = $p2@.take(i1 + 1); assert(t.drop_last() =~= $p2@.take(i1)); assert(t.last() == *$x0);
//@    if $m0@.len() > f1.len() { assert(pairs($m0@) =~= pairs(f1).push((*$x0, $m0@.last().1))); }
//@ }
//@loop 0 after:= let ghost a0 = *$b0; let ghost s0 = pairs($m0@); proof { let n = $p2@.len() as int; assert($p2@.take(n) =~= $p2@); assert(s0 == sel(a0, $p1@, $p2@)); }
//@loop 1 inv:= !$m0, forall|j: int| 0 <= j < $it.index@ ==> pairs($src@)[j].0@ != key@
//@loop 1 ens:= $m0 == has_key(pairs($src@), key@)
//@loop 1 start:= proof { assert(pairs($src@)[$it.index@].0@ == $src@[$it.index@].0@); }
//@loop 2 before:= let ghost z0 = *final($b2); let ghost e0 = *$b2;
//@loop 2 inv:= *final($b2) == z0, $b2.value is Hash, $b2.alias == e0.alias, entries($b2.value) == ins_all(entries(e0.value), s0.take($it.index@))
//@loop 2 start:= let ghost e1 = *$b2; let ghost i1 = $it.index@;
//@loop 2 end:= proof {
//@    let t = s0.take(i1 + 1); assert(t.drop_last() =~= s0.take(i1)); assert(t.last() == (**$x0, *$x1));
//@    lem_put(e1, **$x0, *$x1, *$b2);
//@ }
//@loop 2 after:= proof { let n = s0.len() as int; assert(s0.take(n) =~= s0); }
//@loop 3 inv:= $m0@ =~= ents(s0).take($it.index@)
//@loop 4 before:= let ghost h1 = *$b0;
//@loop 4 inv:= *$b0 is Hash, entries(*$b0) == rem_all(entries(h1), s0.take($it.index@))
//@loop 4 start:= let ghost h2 = *$b0; let ghost i1 = $it.index@;
//@loop 4 end:= proof {
//@    let t = s0.take(i1 + 1); assert(t.drop_last() =~= s0.take(i1)); assert(t.last().0 == *$x0);
//@    lem_rem(h2, $x0@, *$b0);
//@ }
//@loop 4 after:= proof { 
//@    let n = s0.len() as int; assert(s0.take(n) =~= s0);
//@    let i = ypos(a0, $p1@);
//@    l_kpos(entries(a0), $p1@);
//@    if i >= 0 { let g = value_of(entries(h1)[i])->Hash_0; assert(consists(g, ins_all(entries(value_of(entries(a0)[i])), s0))); }
//@    else {
//@        let e = entries(h1).last(); let g = value_of(e)->Hash_0; axiom_string_ext(e->Element_0.key, moving(&$p1, &$p2).sub);
//@        assert(e == ent((moving(&$p1, &$p2).sub, mapping(g)))); assert(entries(h1) == entries(a0).push(e)); assert(consists(g, ents(s0)));
//@    }
//@ }
//@end: proof { lem_ofv($k[&mutHashElement], $k[&mutYaml], moving(&$p1, &$p2)); old(self).vmono(OfVisit($k[&mutHashElement], $k[&mutYaml]), moving(&$p1, &$p2), *$p0, *final(self), r__); }
//@end
}
