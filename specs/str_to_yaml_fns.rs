//@extract fn yaml/serializer.rs str_to_yaml
//@ret: r
//@ensures: scalar_value(r) is Some, scalar_value(r)->Some_0 =~= $p0@
//@ensures: node_kind(r) is Str
//@ensures: writable(r)
//@loop 0 inv:= dq_value($m0@) + $m1@ =~= $p0@.take($it.index@), dq_ok($m0@), !$m1@.contains('"'), !$m1@.contains('\\'), !$m1@.contains('\n')
//@loop 1 inv:= sq_value($m0@) + $m1@ =~= $p0@.take($it.index@), sq_ok($m0@), !$m1@.contains('\''), !$m1@.contains('\n')
//@loop 2 inv:= dq_value($m0@) + $m1@ =~= $p0@.take($it.index@), dq_ok($m0@), !$m1@.contains('"'), !$m1@.contains('\\'), !$m1@.contains('\n')
//@end
