impl YamlParser {
//@for N in EOI comment_text comment commentnl alias alias_name anchor inline_hash_element unquoted_string unquoted_inline_string escaped_double_quote_char_value double_quote_text removable_newline double_quote_without_escape double_quote_content double_quoted_string single_quote single_quote_text escaped_single_quote_char single_quote_content single_quoted_string inline_array_string inline_array_value string inline_value block_string block_blank_line block_leading_lines block_short_lines string_block_chomping string_multiline_indent string_multiline_content_part string_multiline_content string_multiline_detected_part string_multiline_detected_content string_multiline_folded string_multiline_literal yaml_value aliased_yaml_value block_array_aliased_yaml_value own_line_aliased_yaml_value alternative_aliased_yaml_value alternative_aliased_yaml_hash alternative_aliased_yaml_array hash_key hash_element first_hash_element hash_element_data alternative_hash_continuation block_array_element first_block_array_element block_array_data array alternative_array_dashes alternative_array_row alternative_array_data alternative_array commentnls leading_comments document
//@extract fn yaml/parser.rs YamlParser::%N
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::%N
//@ensures: match r { Ok(v) => ok_%N(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@end
//@endfor
//@for N in inline_hash inline_array hash alternative_hash block_array
//@extract fn yaml/parser.rs YamlParser::%N
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::%N
//@ensures: match r { Ok(v) => ok_%N(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@end: proof { if r__ is Ok { l_value(r__->Ok_0, $p0@); } }
//@end
//@endfor
//@for N in block_empty_lines string_multiline_trailing
//@extract fn yaml/parser.rs YamlParser::%N
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::%N
//@ensures: match r { Ok(v) => ok_%N(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@loop 0 inv:= $m0@ =~= empties($it.index@ as nat)
//@end
//@endfor
//@extract fn yaml/parser.rs YamlParser::blank_lines
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::blank_lines
//@ensures: match r { Ok(v) => ok_blank_lines(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@loop 0 inv:= $m0 == $it.index@
//@end
//@extract fn yaml/parser.rs YamlParser::yaml
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::yaml
//@ensures: match r { Ok(v) => ok_yaml(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@end: proof { if r__ is Ok { l_document(r__->Ok_0, $p0@); } }
//@end
//@extract fn yaml/parser.rs YamlParser::alternative_array_dash
//@ret: r
//@vis: pub
//@requires: shape($p0@), $p0@.rule == Rule::alternative_array_dash
//@ensures: match r { Ok(v) => ok_alternative_array_dash(v, $p0@) && !bad($p0@), Err(_) => bad($p0@) }
//@decreases: $p0@
//@start: let ghost pre__ = $p0@.pre;
//@loop 0 inv:= $m0 == $it.index@, tail_clear(pre__, $it.index@ as nat)
//@loop 0 ens:= $m0 == column(pre__)
//@end
}
//@extract fn yaml/parser.rs parse_yaml_file
//@ret: r
//@ensures: ok_document_text(r, $p0@)
//@end
//@extract fn yaml/parser.rs open_arrays
//@ensures: final($p0)@ == opened(old($p0)@, $p1, $p2@)
//@start: let ghost o0__ = $p0@; let ghost a0__ = $p1;
//@loop 0 start:= proof { l_skip($src@, $it.index@); }
//@loop 0 inv:= opened(o0__, a0__, $src@) == opened($p0@, $p1, $src@.skip($it.index@))
//@end
//@extract fn yaml/parser.rs append_to_innermost
//@ensures: final($p0)@ == added(old($p0)@, $p1@)
//@end
//@extract fn yaml/parser.rs close_innermost
//@ensures: final($p0)@ == closed(old($p0)@)
//@end
//@extract fn yaml/parser.rs nest_array_rows
//@ret: r
//@ensures: r == nested(row_view($p0), rows_view($p1@), $p2@)
//@loop 0 before:= let ghost st0__ = $m0@;
//@loop 0 inv:= $m0@ == continued_all(st0__, rows_view($src@.take($it.index@)))
//@loop 0 start:= let ghost st1__ = $m0@; proof { l_rows($src@, $it.index@); }
//@loop 1 inv:= !$m0, forall|i: int| 0 <= i < $it.index@ ==> (#[trigger] $src[i]).0 != $l2
//@loop 1 ens:= $m0 == exists|i: int| 0 <= i < $src.len() && (#[trigger] $src[i]).0 == $l2
//@loop 2 inv:= closed_until($m0@, $l2) == closed_until(st1__, $l2)
//@loop 2 dec:= $m0@.len()
//@loop 3 before:= let ghost st2__ = $m0@;
//@loop 3 inv:= closed_all($m0@) == closed_all(st2__)
//@loop 3 dec:= $m0@.len()
//@end
//@extract fn yaml/parser.rs clean_multiline_strings
//@ret: r
//@ensures: r@ =~= all_stripped($p1@, $p0 as int)
//@loop 0 inv:= $m0@ =~= all_stripped($src@.take($it.index@), $p0 as int)
//@loop 0 start:= proof { l_stripped($src@[$it.index@]@, $p0 as int); }
//@end
//@extract fn yaml/parser.rs indentation_to_strip
//@ret: r
//@loop 0 inv:= strip_from($p0@, 0, $p1 as int) == strip_from($p0@, $it.index@, $p1 as int), $m0 == bytes($p0@.take($it.index@))
//@loop 0 ens:= $m0 == bytes($p0@.take(strip_from($p0@, 0, $p1 as int)))
//@ensures: r == bytes($p0@.take(strip_from($p0@, 0, $p1 as int)))
//@end
