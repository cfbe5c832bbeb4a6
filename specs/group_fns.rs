pub trait YamlGroup: YamlEdits {
    fn move_to_map_with_field_as_key(&mut self, path: &YamlPath, old_map_name: String, selector: String, new_map_name: String, keeps: Vec<String>) -> (n: usize)
        ensures old(self).visited(grouping(&old_map_name, &selector, &new_map_name, &keeps), *path, *final(self), n);
}
impl<T: YamlInsert> YamlGroup for T {
//@extract fn yaml/insert.rs trait YamlInsert::move_to_map_with_field_as_key
//@ret: r
//@closure [&mutYaml]:= -> (q: usize) ensures grouping(&$p1, &$p2, &$p3, &$p4).on_node(*old($a0), *final($a0), q)
//@closure [&mutHashElement]:= -> (q: usize) ensures grouping(&$p1, &$p2, &$p3, &$p4).on_field(*old($a0), *final($a0), q)
//@loop 0 before:= let ghost gg = grouping(&$p1, &$p2, &$p3, &$p4).g; let ghost a0 = *$b0; let ghost d0 = $src@;
//@loop 0 inv:= $it.seq() == d0, spread(d0.take($it.index@), gg, $m0.view(), $m1@, $m2@, $m3)
//@loop 0 start:= let ghost g1 = $m0.view(); let ghost o1 = $m1@; let ghost c1 = $m2@; let ghost l1 = $m3; let ghost i1 = $it.index@; let ghost h1 = $x0;
//@loop 0 end:= proof {
//@    let d = d0;
//@    assert(h1 == d[i1]);
//@    if !(h1 is Element) { l_spread_comment(d, i1, gg, g1, o1, c1, l1); }
//@    else { 
//@      match place(h1, gg) {
//@        None => { 
//@            let x = $m1@.last();
//@            assert($m1@ =~= (o1 + c1).push(x));
//@            if choice(h1, gg) is Some { lem_rem(value_of(h1), $p2@, value_of(x)); l_slim(h1, gg, x); }
//@            l_spread_old(d, i1, gg, g1, o1, c1, l1, x);
//@        }
//@        Some(s) => {
//@            let v = $m0.view()[s];
//@            let x = v@.last();
//@            lem_rem(value_of(h1), $p2@, value_of(x)); l_slim(h1, gg, x);
//@            assert(v@ =~= (if g1.dom().contains(s) { g1[s]@ } else { Seq::empty() } + c1).push(x));
//@            l_spread_group(d, i1, gg, g1, o1, c1, l1, $m0.view(), v, x, $m3->0);
//@        }
//@      }
//@    }
//@ }
//@loop 0 after:= let ghost g1 = $m0.view(); let ghost o1 = $m1@; let ghost c1 = $m2@; let ghost l1 = $m3; proof { let n = d0.len() as int; assert(d0.take(n) =~= d0); l_last_group($src@, gg); }
//@loop 1 before:= proof { l_spread_end(d0, gg, g1, o1, c1, l1, $l1.view(), $l2@); l_vec_of($l2); }
//@    let ghost m1 = $l1.view();
//@loop 1 inv:= in_order($it.seq(), m1), made_from($m0@, $it.seq().take($it.index@))
//@loop 1 after:= proof { let s = choose|s: Seq<(String, Vec<HashData>)>| in_order(s, m1) && #[trigger] made_from($m0@, s); l_all_groups($m0@, s, m1, d0, gg, $l2@); }
//@end: proof { lem_ofv($k[&mutHashElement], $k[&mutYaml], grouping(&$p1, &$p2, &$p3, &$p4)); old(self).vmono(OfVisit($k[&mutHashElement], $k[&mutYaml]), grouping(&$p1, &$p2, &$p3, &$p4), *$p0, *final(self), r__); }
//@end
}
