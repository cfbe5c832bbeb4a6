impl SingleQuotedStringEscapedChar {
//@extract fn yaml/string.rs SingleQuotedStringEscapedChar::char
//@ret: r
//@ensures: r == '\''
//@end
}
impl DoubleQuotedStringEscapedChar {
//@extract fn yaml/string.rs DoubleQuotedStringEscapedChar::char
//@ret: r
//@ensures: r == escape_letter(*self)
//@end
}
//@extract fn utils.rs indent
//@ret: r
//@ensures: r@ =~= blanks($p0 as nat)
//@start: broadcast use {lem_join_spaces, lem_repeat_one};
//@loop 0 inv:= $m0.all_space($it.index@)
//@end
impl BlockChomping {
//@extract fn yaml/mod.rs BlockChomping::write
//@ret: r
//@ensures: r is Ok && final($p0)@ == chomp_sign(old($p0)@, *self)
//@end
}
impl HashData {
//@extract fn yaml/hash_data.rs HashData::ends_with_block_scalar
//@ret: r
//@decreases: self
//@ensures: r == block_end_m(*self)
//@end
}
impl ArrayData {
//@extract fn yaml/array_data.rs ArrayData::ends_with_block_scalar
//@ret: r
//@decreases: self
//@ensures: r == block_end_s(*self)
//@end
}
//@extract fn yaml/mod.rs starts_with_space
//@ret: r
//@ensures: r == spaced(sv_strings($p0@))
//@loop 0 end:= proof { assert(sv_strings($p0@).skip($it.index@).skip(1) =~= sv_strings($p0@).skip($it.index@ + 1)); }
//@loop 0 inv:= spaced(sv_strings($p0@)) == spaced(sv_strings($p0@).skip($it.index@))
//@end
impl AliasedYaml {
//@extract fn yaml/aliased.rs AliasedYaml::format
//@ret: r
//@decreases: self, 1int
//@ensures: r is Ok && final($p0)@ == anchored_text(old($p0)@, *self, $p1 as nat, in_seq($p2))
//@end
}
impl Yaml {
//@extract fn yaml/mod.rs Yaml::ends_with_block_scalar
//@ret: r
//@decreases: self
//@ensures: r == block_end(*self)
//@end
//@extract fn yaml/mod.rs Yaml::format
//@ret: r
//@decreases: self, 1int
//@split: on
//@ensures: r is Ok && final($p0)@ == text(old($p0)@, *self, $p1 as nat, in_seq($p2))
//@loop 8 end:= proof { assert(sv_strings(self->LiteralString_0@.take($it.index@ + 1)).drop_last() =~= sv_strings(self->LiteralString_0@.take($it.index@))); }
//@loop 9 end:= proof { assert(sv_strings(self->FoldedString_0@.take($it.index@ + 1)).drop_last() =~= sv_strings(self->FoldedString_0@.take($it.index@))); }
//@loop 0 inv:= $p0@ == flow_map_text(old($p0)@ + ch(' ') + ch('{'), self->InlineHash_0@.take($it.index@))
//@loop 1 end:= proof { assert($p0@ == map_item_text(map_text(old($p0)@, self->Hash_0@.take($it.index@), $p1 as nat, in_seq($p2)), self->Hash_0@[$it.index@], $p1 as nat, in_seq($p2) && $it.index@ == 0, $it.index@ > 0 && block_end_m(self->Hash_0@[$it.index@ - 1]))); }
//@loop 3 end:= proof { assert($p0@ == seq_item_text(seq_text(old($p0)@, self->Array_0@.take($it.index@), $p1 as nat, in_seq($p2)), self->Array_0@[$it.index@], $p1 as nat, in_seq($p2) && $it.index@ == 0, $it.index@ > 0 && block_end_s(self->Array_0@[$it.index@ - 1]))); }
//@loop 1 inv:= $p0@ == map_text(old($p0)@, self->Hash_0@.take($it.index@), $p1 as nat, in_seq($p2))
//@loop 2 inv:= $p0@ == flow_seq_text(old($p0)@ + ch(' ') + ch('['), self->InlineArray_0@.take($it.index@))
//@loop 3 inv:= $p0@ == seq_text(old($p0)@, self->Array_0@.take($it.index@), $p1 as nat, in_seq($p2))
//@loop 4 inv:= $p0@ == dq_text(old($p0)@ + ch(' ') + ch('"'), self->DoubleQuotedString_0@.take($it.index@))
//@loop 5 inv:= $p0@ == breaks(dq_text(old($p0)@ + ch(' ') + ch('"'), self->DoubleQuotedString_0@.take($it4.index@)), $it.index@ as nat)
//@loop 6 inv:= $p0@ == sq_text(old($p0)@ + ch(' ') + ch('\''), self->SingleQuotedString_0@.take($it.index@))
//@loop 7 inv:= $p0@ == breaks(sq_text(old($p0)@ + ch(' ') + ch('\''), self->SingleQuotedString_0@.take($it6.index@)), $it.index@ as nat)
//@loop 8 inv:= $p0@ == block_text(old($p0)@, sv_strings(self->LiteralString_0@.take($it.index@)), spaced(sv_strings(self->LiteralString_0@)), '|', self->LiteralString_1, $p1 as nat)
//@loop 9 inv:= $p0@ == block_text(old($p0)@, sv_strings(self->FoldedString_0@.take($it.index@)), spaced(sv_strings(self->FoldedString_0@)), '>', self->FoldedString_1, $p1 as nat)
//@end
}
impl Document {
//@extract fn yaml/document.rs Document::format
//@ret: r
//@ensures: r is Ok && r->Ok_0@ == document_text(*self)
//@loop 0 inv:= $m0@ == comments_text(Seq::empty(), self.leading_comments@.take($it.index@))
//@loop 1 inv:= $m0@ == items_text(comments_text(Seq::empty(), self.leading_comments@) + ch('-') + ch('-') + ch('-'), self.items@.take($it.index@))
//@end
}
