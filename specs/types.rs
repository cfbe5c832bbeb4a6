//@extract type yaml/mod.rs Yaml
//@extract type yaml/hash_data.rs HashData
//@extract type yaml/hash_element.rs HashElement
//@extract type yaml/array_data.rs ArrayData
//@extract type yaml/aliased.rs AliasedYaml
//@extract type yaml/mod.rs BlockChomping
impl Copy for BlockChomping {}
impl Clone for BlockChomping { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@extract type yaml/string.rs SingleQuotedStringPart
//@extract type yaml/string.rs SingleQuotedStringEscapedChar
//@extract type yaml/string.rs DoubleQuotedStringPart
//@extract type yaml/string.rs DoubleQuotedStringEscapedChar
//@derives Clone: Yaml HashData HashElement ArrayData AliasedYaml BlockChomping SingleQuotedStringPart SingleQuotedStringEscapedChar DoubleQuotedStringPart DoubleQuotedStringEscapedChar
