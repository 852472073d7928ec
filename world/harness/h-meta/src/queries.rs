//! Random stored queries and filters.
use crate::kinds::{opt, text};
use crate::*;
use common::event_segmentation as es;
use common::funnel as fu;
use common::query::*;
use common::{DECIMAL_PRECISION, DECIMAL_SCALE};
use datafusion_common::ScalarValue;
pub fn pref(r: &mut Rng) -> PropertyRef { match r.below(3) { 0 => PropertyRef::Group(text(r), r.below(3) as usize), 1 => PropertyRef::Event(text(r)), _ => PropertyRef::Custom(r.below(9)) } }
pub fn eref(r: &mut Rng) -> EventRef { match r.below(3) { 0 => EventRef::RegularName(text(r)), 1 => EventRef::Regular(r.below(9)), _ => EventRef::Custom(r.below(9)) } }
pub fn op(r: &mut Rng) -> PropValueOperation { use PropValueOperation::*; r.pick(&[Eq, Neq, Gt, Gte, Lt, Lte, True, False, Exists, Empty, Like, NotLike, Regex, NotRegex]).clone() }
pub fn scalar(r: &mut Rng) -> ScalarValue { match r.below(8) { 0 => ScalarValue::Boolean(Some(r.bool())), 1 => ScalarValue::Int8(Some(r.int() as i8)), 2 => ScalarValue::Int16(Some(r.int() as i16)), 3 => ScalarValue::Int32(Some(r.int() as i32)), 4 => ScalarValue::Int64(Some(r.int())), 5 => ScalarValue::Utf8(Some(text(r))), 6 => ScalarValue::TimestampMillisecond(Some(r.int()), None), _ => ScalarValue::Decimal128(Some(r.int() as i128), DECIMAL_PRECISION, DECIMAL_SCALE) } }
pub fn prop_filter(r: &mut Rng) -> PropValueFilter { PropValueFilter::Property { property: pref(r), operation: op(r), value: Some((0..1 + r.below(2)).map(|_| scalar(r)).collect()) } }
fn unit(r: &mut Rng) -> TimeIntervalUnit { use TimeIntervalUnit::*; r.pick(&[Hour, Day, Week, Month, Year]).clone() }
fn ts(r: &mut Rng) -> DateTime<Utc> { DateTime::from_timestamp_millis(r.range(0, 2_000_000_000_000)).unwrap() }
fn time(r: &mut Rng) -> QueryTime { match r.below(3) { 0 => QueryTime::Between { from: ts(r), to: ts(r) }, 1 => QueryTime::From(ts(r)), _ => QueryTime::Last { last: r.int(), unit: unit(r) } } }
fn filters(r: &mut Rng) -> Vec<PropValueFilter> { (0..r.below(3)).map(|_| prop_filter(r)).collect() }
fn agg(r: &mut Rng) -> AggregateFunction { use AggregateFunction::*; r.pick(&[Count, Sum, Min, Max, Avg]).clone() }
fn pagg(r: &mut Rng) -> PartitionedAggregateFunction { use PartitionedAggregateFunction::*; r.pick(&[Count, Sum, Min, Max, Avg]).clone() }
fn breakdowns(r: &mut Rng) -> Vec<Breakdown> { (0..r.below(3)).map(|_| Breakdown::Property(pref(r))).collect() }
fn es_query(r: &mut Rng) -> es::Query { match r.below(7) { 0 => es::Query::CountEvents, 1 => es::Query::CountUniqueGroups, 2 => es::Query::DailyActiveGroups, 3 => es::Query::CountPerGroup { aggregate: agg(r) }, 4 => es::Query::AggregatePropertyPerGroup { property: pref(r), aggregate_per_group: pagg(r), aggregate: agg(r) }, 5 => es::Query::AggregateProperty { property: pref(r), aggregate: agg(r) }, _ => es::Query::QueryFormula { formula: text(r) } } }
fn stime(r: &mut Rng) -> SegmentTime { match r.below(4) { 0 => SegmentTime::Between { from: ts(r), to: ts(r) }, 1 => SegmentTime::From(ts(r)), 2 => SegmentTime::Last { n: r.int(), unit: unit(r) }, _ => SegmentTime::Each { n: r.below(99) as i64, unit: unit(r) } } }
fn cond(r: &mut Rng) -> SegmentCondition { match r.below(3) {
    0 => SegmentCondition::HasPropertyValue { property: pref(r), operation: op(r), value: opt(r, |r| vec![scalar(r)]) },
    1 => SegmentCondition::HadPropertyValue { property: pref(r), operation: op(r), value: opt(r, |r| vec![scalar(r)]), time: stime(r) },
    _ => SegmentCondition::DidEvent { event: eref(r), filters: opt(r, filters), aggregate: DidEventAggregate::Count { operation: op(r), value: r.int(), time: stime(r) } } } }
fn segs(r: &mut Rng) -> Vec<Segment> { (0..r.below(3)).map(|_| Segment { name: text(r), conditions: (0..r.below(3)).map(|_| (0..r.below(3)).map(|_| cond(r)).collect()).collect() }).collect() }
pub fn report_query(r: &mut Rng) -> metadata::reports::Query {
    if r.bool() {
        metadata::reports::Query::EventSegmentation(es::EventSegmentationRequest { time: time(r), group_id: r.below(4) as usize, interval_unit: unit(r), chart_type: r.pick(&[es::ChartType::Line, es::ChartType::Column, es::ChartType::Pie]).clone(), analysis: if r.bool() { es::Analysis::Linear } else { es::Analysis::RollingAverage { window: r.below(9) as usize, unit: unit(r) } }, compare: opt(r, |r| es::Compare { offset: r.below(9) as usize, unit: unit(r) }), events: (0..r.below(3)).map(|_| es::Event { event: eref(r), filters: opt(r, filters), breakdowns: opt(r, breakdowns), queries: (0..r.below(3)).map(|_| es::NamedQuery { agg: es_query(r), name: opt(r, text) }).collect() }).collect(), filters: opt(r, filters), breakdowns: opt(r, breakdowns), segments: opt(r, segs) })
    } else {
        metadata::reports::Query::Funnel(fu::Funnel { time: time(r), group_id: r.below(4) as usize, steps: (0..r.below(3)).map(|_| fu::Step { events: (0..r.below(3)).map(|_| fu::Event { event: eref(r), filters: opt(r, filters) }).collect(), order: if r.bool() { fu::StepOrder::Exact } else { fu::StepOrder::Any(vec![(r.below(3) as usize, r.below(3) as usize)]) } }).collect(), time_window: fu::TimeWindow { n: r.below(99) as usize, unit: r.pick(&[fu::TimeIntervalUnitSession::Hour, fu::TimeIntervalUnitSession::Month, fu::TimeIntervalUnitSession::Session]).clone() }, chart_type: fu::ChartType::Steps, count: r.pick(&[fu::Count::Unique, fu::Count::NonUnique, fu::Count::Session]).clone(), filter: opt(r, |r| r.pick(&[fu::Filter::DropOffOnAnyStep, fu::Filter::DropOffOnStep(2), fu::Filter::TimeToConvert(1, -5)]).clone()), touch: opt(r, |r| r.pick(&[fu::Touch::First, fu::Touch::Last, fu::Touch::Step { step: 3 }]).clone()), holding_constants: opt(r, |r| vec![pref(r)]), exclude: opt(r, |r| vec![fu::Exclude { event: eref(r), filters: opt(r, filters), steps: opt(r, |r| if r.bool() { fu::ExcludeSteps::All } else { fu::ExcludeSteps::Between(1, 2) }) }]), breakdowns: opt(r, breakdowns), segments: opt(r, segs), filters: opt(r, filters) })
    }
}
