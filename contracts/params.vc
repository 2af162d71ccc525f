@fn transport_parameters::PreferredAddress::to_bytes -> r C14
ensures pref_ok(*self) ==> r@ == e_pref(*self),
@pre
broadcast use {group_bytes, group_cat};
@post
assert(pref_ok(*self) ==> r@ =~= e_pref(*self));

@fn transport_parameters::TransportParameter::identifier_val -> r C14
ensures r == param_id(*self),

@fn transport_parameters::TransportParameter::serialize -> r C14
ensures param_sized(*self) ==> (r is Ok <==> param_ok(*self)), r is Ok && param_sized(*self) ==> r->Ok_0@ == e_param(*self),
@pre
broadcast use {group_bytes, group_cat};
@post
assert(r is Ok && param_sized(*self) ==> r->Ok_0@ =~= e_param(*self));
