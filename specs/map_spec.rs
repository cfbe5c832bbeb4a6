// ---------------------------------------------------------------------------
// C12: mapping applies the function once to every node, children first
// ---------------------------------------------------------------------------
/// Stands for `F: FnMut(Yaml) -> Yaml`: any caller-supplied code; the ghost log records
/// every call with its argument and its result.
pub trait MapFn {
    spec fn log(&self) -> Seq<(Yaml, Yaml)>;
    fn m_call(&mut self, y: Yaml) -> (r: Yaml)
        ensures
            final(self).log() == old(self).log().push((y, r)),
            final(self).log().drop_last() =~= old(self).log();  // (follows from the line above)
}
/// number of nodes of a tree
pub open spec fn cnt(y: Yaml) -> nat
    decreases y
{
    match y {
        Yaml::Hash(d) => cnt_hash(d@) + 1,
        Yaml::Array(d) => cnt_array(d@) + 1,
        Yaml::InlineHash(d) => cnt_flow_hash(d@) + 1,
        Yaml::InlineArray(d) => cnt_flow_array(d@) + 1,
        _ => 1,
    }
}
pub open spec fn cnt_hd(d: HashData) -> nat
    decreases d
{ match d { HashData::Element(e) => cnt(e.value.value), _ => 0 } }
pub open spec fn cnt_ad(d: ArrayData) -> nat
    decreases d
{ match d { ArrayData::Element(e) => cnt(e.value), _ => 0 } }
pub open spec fn cnt_hash(d: Seq<HashData>) -> nat
    decreases d
{ if d.len() == 0 { 0 } else { cnt_hash(d.drop_last()) + cnt_hd(d.last()) } }
pub open spec fn cnt_array(d: Seq<ArrayData>) -> nat
    decreases d
{ if d.len() == 0 { 0 } else { cnt_array(d.drop_last()) + cnt_ad(d.last()) } }
pub open spec fn cnt_flow_hash(d: Seq<(String, Yaml)>) -> nat
    decreases d
{ if d.len() == 0 { 0 } else { cnt_flow_hash(d.drop_last()) + cnt(d.last().1) } }
pub open spec fn cnt_flow_array(d: Seq<Yaml>) -> nat
    decreases d
{ if d.len() == 0 { 0 } else { cnt_flow_array(d.drop_last()) + cnt(d.last()) } }

/// mapping `y` made exactly the calls `log` (one for every node, children first, in document
/// order) and gave `r`: the result of the last call, whose argument is `y` with the results of
/// the other calls in the places of their nodes
pub open spec fn mapped(y: Yaml, log: Seq<(Yaml, Yaml)>, r: Yaml) -> bool
    decreases y
{
    log.len() == cnt(y) && log.last().1 == r && match (y, log.last().0) {
        (Yaml::Hash(d), Yaml::Hash(e)) => mapped_hash(d@, log.drop_last(), e@),
        (Yaml::Array(d), Yaml::Array(e)) => mapped_array(d@, log.drop_last(), e@),
        (Yaml::InlineHash(d), Yaml::InlineHash(e)) => mapped_flow_hash(d@, log.drop_last(), e@),
        (Yaml::InlineArray(d), Yaml::InlineArray(e)) => mapped_flow_array(d@, log.drop_last(), e@),
        (Yaml::Hash(_), _) => false,
        (Yaml::Array(_), _) => false,
        (Yaml::InlineHash(_), _) => false,
        (Yaml::InlineArray(_), _) => false,
        (leaf, arg) => leaf == arg,
    }
}
pub open spec fn mapped_hd(d: HashData, log: Seq<(Yaml, Yaml)>, r: HashData) -> bool
    decreases d
{
    log.len() == cnt_hd(d) && match (d, r) {
        (HashData::Element(a), HashData::Element(b)) =>
            a.key == b.key && a.value.alias == b.value.alias && mapped(a.value.value, log, b.value.value),
        (HashData::Element(_), _) => false,
        (a, b) => a == b,
    }
}
pub open spec fn mapped_ad(d: ArrayData, log: Seq<(Yaml, Yaml)>, r: ArrayData) -> bool
    decreases d
{
    log.len() == cnt_ad(d) && match (d, r) {
        (ArrayData::Element(a), ArrayData::Element(b)) => a.alias == b.alias && mapped(a.value, log, b.value),
        (ArrayData::Element(_), _) => false,
        (a, b) => a == b,
    }
}
pub open spec fn mapped_hash(d: Seq<HashData>, log: Seq<(Yaml, Yaml)>, r: Seq<HashData>) -> bool
    decreases d
{
    d.len() == r.len() && log.len() == cnt_hash(d) && (d.len() > 0 ==> {
        let n = log.len() - cnt_hd(d.last());
        mapped_hash(d.drop_last(), log.take(n), r.drop_last()) && mapped_hd(d.last(), log.skip(n), r.last())
    })
}
pub open spec fn mapped_array(d: Seq<ArrayData>, log: Seq<(Yaml, Yaml)>, r: Seq<ArrayData>) -> bool
    decreases d
{
    d.len() == r.len() && log.len() == cnt_array(d) && (d.len() > 0 ==> {
        let n = log.len() - cnt_ad(d.last());
        mapped_array(d.drop_last(), log.take(n), r.drop_last()) && mapped_ad(d.last(), log.skip(n), r.last())
    })
}
pub open spec fn mapped_flow_hash(d: Seq<(String, Yaml)>, log: Seq<(Yaml, Yaml)>, r: Seq<(String, Yaml)>) -> bool
    decreases d
{
    d.len() == r.len() && log.len() == cnt_flow_hash(d) && (d.len() > 0 ==> {
        let n = log.len() - cnt(d.last().1);
        mapped_flow_hash(d.drop_last(), log.take(n), r.drop_last())
            && d.last().0 == r.last().0 && mapped(d.last().1, log.skip(n), r.last().1)
    })
}
pub open spec fn mapped_flow_array(d: Seq<Yaml>, log: Seq<(Yaml, Yaml)>, r: Seq<Yaml>) -> bool
    decreases d
{
    d.len() == r.len() && log.len() == cnt_flow_array(d) && (d.len() > 0 ==> {
        let n = log.len() - cnt(d.last());
        mapped_flow_array(d.drop_last(), log.take(n), r.drop_last()) && mapped(d.last(), log.skip(n), r.last())
    })
}
/// the same for whatever a loop runs over
pub trait Mapped: Sized {
    spec fn mp(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool;
}
impl Mapped for Seq<HashData> { open spec fn mp(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_hash(self, log, r) } }
impl Mapped for Seq<ArrayData> { open spec fn mp(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_array(self, log, r) } }
impl Mapped for Seq<(String, Yaml)> { open spec fn mp(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_flow_hash(self, log, r) } }
impl Mapped for Seq<Yaml> { open spec fn mp(self, log: Seq<(Yaml, Yaml)>, r: Self) -> bool { mapped_flow_array(self, log, r) } }
/// the calls made since `old`
pub open spec fn since(new: Seq<(Yaml, Yaml)>, old: Seq<(Yaml, Yaml)>) -> Seq<(Yaml, Yaml)> { new.skip(old.len() as int) }
pub open spec fn extends(new: Seq<(Yaml, Yaml)>, old: Seq<(Yaml, Yaml)>) -> bool {
    old.len() <= new.len() && new.take(old.len() as int) =~= old
}
