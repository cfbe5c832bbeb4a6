/// moving the elements of a block sequence into a flow sequence keeps them
pub proof fn lem_move(d: Seq<ArrayData>, e: Seq<ArrayData>, f: Seq<Yaml>)
    requires
        e.len() == f.len(),
        forall|j: int| 0 <= j < e.len() ==> movable(#[trigger] e[j]) && f[j] == held(e[j]),
    ensures
        keeps_array(d, e) ==> keeps_array_flow(d, f),
        q4_array(e, false) ==> q4_flow_array(f),
    decreases d.len()
{
    if keeps_array(d, e) && d.len() > 0 {
        assert(keeps_ad(d[d.len() - 1], e[d.len() - 1]));
        assert(movable(e[d.len() - 1]));
        assert(keeps_array(d.drop_last(), e.drop_last())) by {
            assert forall|i: int| 0 <= i < d.len() - 1 implies keeps_ad(#[trigger] d.drop_last()[i], e.drop_last()[i]) by { assert(keeps_ad(d[i], e[i])); }
        }
        lem_move(d.drop_last(), e.drop_last(), f.drop_last());
    }
    if q4_array(e, false) {
        assert forall|i: int| 0 <= i < f.len() implies q4(#[trigger] f[i], true) by { assert(q4_ad(e[i], false)); assert(movable(e[i])); }
    }
}
