// C06: operators, time units and column types are translated without changing their meaning
//@include base.rs
use vstd::prelude::*;
verus! {
//@item reg:datafusion-expr-39.0.0/src/operator.rs Operator | name=DFOperator
//@item src/common/src/query.rs Operator
//@item src/common/src/query.rs PropValueOperation
//@item src/common/src/query.rs QueryAggregate
//@item src/common/src/query.rs AggregateFunction
//@item reg:datafusion-expr-39.0.0/src/aggregate_function.rs AggregateFunction | name=DFAggregateFunction
//@item src/common/src/query.rs TimeUnit
mod arrow_schema {
//@item reg:arrow-schema-52.2.0/src/datatype.rs TimeUnit | vis=keep
}
#[derive(Debug)] pub enum CommonError { General(String) }

// ---- what each operator means, as the truth of `left op right` for a three-way comparison result
pub enum Meaning { Eq, Ne, Lt, Le, Gt, Ge, Re, NotRe, Other }
spec fn m_df(o: DFOperator) -> Meaning { match o {
    DFOperator::Eq => Meaning::Eq, DFOperator::NotEq => Meaning::Ne, DFOperator::Lt => Meaning::Lt, DFOperator::LtEq => Meaning::Le,
    DFOperator::Gt => Meaning::Gt, DFOperator::GtEq => Meaning::Ge, DFOperator::RegexMatch => Meaning::Re, DFOperator::RegexNotMatch => Meaning::NotRe, _ => Meaning::Other } }
spec fn m_op(o: Operator) -> Meaning { match o {
    Operator::Eq => Meaning::Eq, Operator::NotEq => Meaning::Ne, Operator::Lt => Meaning::Lt, Operator::LtEq => Meaning::Le,
    Operator::Gt => Meaning::Gt, Operator::GtEq => Meaning::Ge, Operator::RegexMatch => Meaning::Re, Operator::RegexNotMatch => Meaning::NotRe } }
spec fn m_pv(o: PropValueOperation) -> Meaning { match o {
    PropValueOperation::Eq => Meaning::Eq, PropValueOperation::Neq => Meaning::Ne, PropValueOperation::Lt => Meaning::Lt, PropValueOperation::Lte => Meaning::Le,
    PropValueOperation::Gt => Meaning::Gt, PropValueOperation::Gte => Meaning::Ge, PropValueOperation::Regex => Meaning::Re, PropValueOperation::NotRegex => Meaning::NotRe, _ => Meaning::Other } }

//@fn src/common/src/query.rs [From<DFOperator> for Operator]::from | name=operator_from_df ret=r block
//@rule Self =>> Operator
//@contract
    requires m_df(o) != Meaning::Other,
    ensures m_op(r) == m_df(o),
//@end
//@fn src/common/src/query.rs [From<Operator> for DFOperator]::from | name=df_from_operator ret=r block
//@rule Self =>> DFOperator
//@contract
    ensures m_df(r) == m_op(o),
//@end
//@fn src/common/src/query.rs [From<PropValueOperation> for Operator]::from | name=operator_from_pv ret=r block
//@rule Self =>> Operator
//@contract
    requires m_pv(pv) != Meaning::Other,
    ensures m_op(r) == m_pv(pv),
//@end
//@fn src/common/src/query.rs [TryInto<DFOperator> for PropValueOperation]::try_into | name=df_from_pv ret=r block
//@rule Self :: Error =>> CommonError
//@rule ( self ) =>> (this: PropValueOperation)
//@rule match self =>> match this
//@contract
    requires m_pv(this) != Meaning::Other,
    ensures r.is_ok(), m_df(r.unwrap()) == m_pv(this),
//@end

spec fn m_unit(u: arrow_schema::TimeUnit) -> TimeUnit { match u { arrow_schema::TimeUnit::Second => TimeUnit::Second, arrow_schema::TimeUnit::Millisecond => TimeUnit::Millisecond, arrow_schema::TimeUnit::Microsecond => TimeUnit::Microsecond, arrow_schema::TimeUnit::Nanosecond => TimeUnit::Nanosecond } }
//@fn src/common/src/query.rs [TryInto<TimeUnit> for arrow_schema::TimeUnit]::try_into | name=unit_from_arrow ret=r block
//@rule Self :: Error =>> CommonError
//@rule ( self ) =>> (this: arrow_schema::TimeUnit)
//@rule match self =>> match this
//@contract
    ensures r.is_ok(), r.unwrap() == m_unit(this),
//@end
//@fn src/common/src/query.rs [TryInto<arrow_schema::TimeUnit> for TimeUnit]::try_into | name=unit_to_arrow ret=r block
//@rule Self :: Error =>> CommonError
//@rule ( self ) =>> (this: TimeUnit)
//@rule match self =>> match this
//@contract
    ensures r.is_ok(), m_unit(r.unwrap()) == this,
//@end
//@fn src/common/src/query.rs QueryAggregate::aggregate_function | name=query_aggregate_function ret=r block
//@rule ( & self ) =>> (this: &QueryAggregate)
//@rule match self =>> match this
//@contract
    requires matches!(*this, QueryAggregate::Min | QueryAggregate::Max | QueryAggregate::Sum | QueryAggregate::Avg),
    ensures match *this { QueryAggregate::Min => r is Min, QueryAggregate::Max => r is Max, QueryAggregate::Sum => r is Sum, QueryAggregate::Avg => r is Avg, _ => true },
//@end
spec fn m_agg(d: DFAggregateFunction) -> Option<AggregateFunction> { match d { DFAggregateFunction::Count => Some(AggregateFunction::Count), DFAggregateFunction::Min => Some(AggregateFunction::Min), DFAggregateFunction::Max => Some(AggregateFunction::Max), DFAggregateFunction::Avg => Some(AggregateFunction::Avg), _ => None } }
//@fn src/common/src/query.rs [From<DFAggregateFunction> for AggregateFunction]::from | name=agg_from_df ret=r block
//@contract
    requires m_agg(v) is Some,
    ensures Some(r) == m_agg(v),
//@end
//@fn src/common/src/query.rs [From<AggregateFunction> for DFAggregateFunction]::from | name=agg_to_df ret=r block
//@contract
    requires !(v is Sum),
    ensures m_agg(r) == Some(v),
//@end
//@fn src/common/src/query.rs PropValueOperation::is_without_value | name=is_without_value ret=r block
//@rule ( & self ) =>> (this: &PropValueOperation)
//@rule matches ! ( self , $$p ) =>> match this { $p => true, _ => false }
//@contract
    ensures r == matches!(*this, PropValueOperation::True | PropValueOperation::False | PropValueOperation::Exists | PropValueOperation::Empty),
//@end
} // verus!
fn main() {}
