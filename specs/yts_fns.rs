//@extract fn yaml/deserializer.rs yaml_to_string
//@ret: r
//@ensures: opt_view(r) == scalar_value(*$p0)
//@loop 0 inv:= sv_strs($m0@) =~= sv_strings($src@).take($it.index@)
//@loop 1 inv:= sv_strs($m0@) =~= sv_strings($src@).take($it.index@)
//@end
