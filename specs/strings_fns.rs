//@extract fn yaml/string.rs create_literal
//@ret: r
//@ensures: literal_value(sv_strings(r@), if $p0@.len() > 0 && $p0@.last() == '\n' { BlockChomping::Keep } else { BlockChomping::Strip }) =~= $p0@
//@loop 0 inv:= sv_strings($m0@) =~= sp_split($p0@, '\n').take($it.index@)
//@closure 0 params:= &String
//@closure 0:= -> (q: bool) ensures q == ($c0@.len() == 0)
//@start: proof { lem_split_join($p0@, '\n'); lem_split_last($p0@, '\n'); }
//@end
//@extract fn yaml/mod.rs can_be_unquoted_in_block
//@ret: r
//@ensures: r ==> block_plain($p0@) && plain_kind($p0@) is Str
//@loop 0 inv:= !$m0 ==> forall|j: int| 0 <= j < $it.index@ ==> (is_ws(#[trigger] $p0@[j]) ==> $p0@[j] == ' ')
//@end
//@extract fn yaml/mod.rs inline_breaking_chars
//@ret: r
//@ensures: r == breaking($p0@)
//@end
//@extract fn yaml/mod.rs can_be_block_scalar
//@ret: r
//@ensures: r ==> $p0@.len() > 0 && !is_ws($p0@[0]) && !$p0@.contains('\r')
//@end
//@extract fn yaml/mod.rs str_to_single_quoted_parts
//@ret: r
//@ensures: sq_value(r@) =~= $p0@, !$p0@.contains('\n') ==> sq_ok(r@)
//@loop 0 inv:= !$m1@.contains('\''), !$p0@.contains('\n') ==> !$m1@.contains('\n') && sq_ok($m0@), sq_value($m0@) + $m1@ =~= $p0@.take($it.index@)
//@end
