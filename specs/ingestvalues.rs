// ---- one value (the same functions again, so that their callers see what is proved here)
//@fn src/ingester/src/lib.rs scaled | ret=r block
//@contract
    ensures r is Ok ==> r->Ok_0 == at_scale(*v), r is Ok <==> abs(at_scale(*v)) < ten(DECIMAL_PRECISION as nat), r is Err ==> r->Err_0 is BadRequest,
//@start
    proof { axiom_rounded(*v, DECIMAL_SCALE as nat); lemma_ten(28, 38); lemma_ten((DECIMAL_SCALE - rounded(*v, DECIMAL_SCALE as nat).sc()) as nat, 16); assert(ten(28) == 10_000_000_000_000_000_000_000_000_000) by (compute); assert(ten(16) == 10_000_000_000_000_000) by (compute); }
//@end
fn out_of_range(v: &Decimal) -> (r: IngesterError) ensures r is BadRequest { bad_request() }
//@fn src/ingester/src/lib.rs property_to_value | ret=r block
//@rule $~v . ok_or_else ( | | out_of_range ( v ) ) ? =>> match $v { Some(x_) => x_, None => { return Err(out_of_range(v)); } }
//@contract
    requires ctx.project_id is Some, typed(*prop),
    ensures r is Ok ==> s_value(ctx.project_id->0, tbl@, *prop) == Some(r->Ok_0), r is Err ==> s_value(ctx.project_id->0, tbl@, *prop) is None || r->Err_0 is Metadata,
//@start
    reveal(s_value);
//@end
