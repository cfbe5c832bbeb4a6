//@extract fn yaml/string.rs handle_ending_newlines
//@ret: r
//@ensures: r@ =~= chomp($p0@, $p1)
//@end
//@extract fn yaml/string.rs parse_literal
//@ret: r
//@ensures: r@ =~= literal_value(sv_strs($p0@), $p1)
//@end
//@extract fn yaml/string.rs parse_folded
//@ret: r
//@ensures: r@ =~= folded_value(sv_strs($p0@), $p1)
//@loop 0 inv:= $m0.0@ =~= fold_state(sv_strs($p0@).take($it.index@ + 1)).0, $m0.1 == fold_state(sv_strs($p0@).take($it.index@ + 1)).1
//@end
impl SingleQuotedStringEscapedChar {
//@extract fn yaml/string.rs SingleQuotedStringEscapedChar::char
//@ret: r
//@ensures: sq_part(SingleQuotedStringPart::EscapedChar(*self)) == seq![r]
//@end
}
impl DoubleQuotedStringEscapedChar {
//@extract fn yaml/string.rs DoubleQuotedStringEscapedChar::real_char
//@ret: r
//@ensures: r == dq_escape(*self)
//@end
}
//@extract fn yaml/string.rs parse_single_quoted_string
//@ret: r
//@ensures: r@ =~= sq_value($p0@)
//@loop 0 inv:= $m0@ =~= sq_value($p0@.take($it.index@))
//@loop 1 inv:= $m0@ =~= sq_value($p0@.take($it0.index@)) + newlines($it.index@ as nat)
//@end
//@extract fn yaml/string.rs parse_double_quoted_string
//@ret: r
//@ensures: r@ =~= dq_value($p0@)
//@loop 0 inv:= $m0@ =~= dq_value($p0@.take($it.index@))
//@loop 1 inv:= $m0@ =~= dq_value($p0@.take($it0.index@)) + newlines($it.index@ as nat)
//@end
