//! In-memory stand-in for arrow2 (fork used by the repository), covering what the storage
//! engine's db / memtable / table / scan-merge code and the query crate name.
//! "Parquet" files are a bincode image of schema + row groups.
pub mod error {
    #[derive(Debug)]
    pub enum Error { Other(String), Io(std::io::Error) }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for Error {}
    impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error::Io(e) } }
    impl From<bincode::Error> for Error { fn from(e: bincode::Error) -> Self { Error::Other(e.to_string()) } }
    pub type Result<T> = std::result::Result<T, Error>;
}
pub mod datatypes {
    use serde::{Deserialize, Serialize};
    use std::collections::BTreeMap;
    pub type Metadata = BTreeMap<String, String>;
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub enum TimeUnit { Second, Millisecond, Microsecond, Nanosecond }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub enum IntervalUnit { YearMonth, DayTime, MonthDayNano }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub enum UnionMode { Dense, Sparse }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub enum IntegerType { Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64 }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub enum DataType {
        Null, Boolean, Int8, Int16, Int32, Int64, UInt8, UInt16, UInt32, UInt64, Float16, Float32, Float64,
        Timestamp(TimeUnit, Option<String>), Date32, Date64, Time32(TimeUnit), Time64(TimeUnit), Duration(TimeUnit), Interval(IntervalUnit),
        Binary, FixedSizeBinary(usize), LargeBinary, Utf8, LargeUtf8, List(Box<Field>), FixedSizeList(Box<Field>, usize), LargeList(Box<Field>),
        Struct(Vec<Field>), Union(Vec<Field>, Option<Vec<i32>>, UnionMode), Map(Box<Field>, bool), Dictionary(IntegerType, Box<DataType>, bool),
        Decimal(usize, usize), Decimal256(usize, usize), Extension(String, Box<DataType>, Option<String>),
    }
    #[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
    pub struct Field { pub name: String, pub data_type: DataType, pub is_nullable: bool, pub metadata: Metadata }
    impl Field {
        pub fn new<T: Into<String>>(name: T, data_type: DataType, is_nullable: bool) -> Self { Self { name: name.into(), data_type, is_nullable, metadata: Default::default() } }
        pub fn data_type(&self) -> &DataType { &self.data_type }
    }
    #[derive(Debug, Clone, PartialEq, Eq, Default, Serialize, Deserialize)]
    pub struct Schema { pub fields: Vec<Field>, pub metadata: Metadata }
    impl Schema {
        pub fn filter<F: Fn(usize, &Field) -> bool>(self, f: F) -> Self { Self { fields: self.fields.into_iter().enumerate().filter(|(i, x)| f(*i, x)).map(|x| x.1).collect(), metadata: self.metadata } }
    }
    impl From<Vec<Field>> for Schema { fn from(fields: Vec<Field>) -> Self { Self { fields, metadata: Default::default() } } }
}
pub mod types {
    pub trait NativeType: Copy + Send + Sync + std::fmt::Debug + Default + PartialEq + PartialOrd + 'static { fn dt() -> crate::datatypes::DataType; }
    macro_rules! n { ($($t:ty => $d:ident),*) => { $(impl NativeType for $t { fn dt() -> crate::datatypes::DataType { crate::datatypes::DataType::$d } })* } }
    n!(i8 => Int8, i16 => Int16, i32 => Int32, i64 => Int64, u8 => UInt8, u16 => UInt16, u32 => UInt32, u64 => UInt64, f32 => Float32, f64 => Float64);
    impl NativeType for i128 { fn dt() -> crate::datatypes::DataType { crate::datatypes::DataType::Decimal(32, 32) } }
    pub trait Offset: Copy + Send + Sync + std::fmt::Debug + 'static {}
    impl Offset for i32 {} impl Offset for i64 {}
}
pub mod array {
    use crate::datatypes::DataType;
    use crate::types::{NativeType, Offset};
    use std::any::Any;
    use std::fmt::Debug;
    use std::marker::PhantomData;
    pub trait Array: Send + Sync + Debug {
        fn as_any(&self) -> &dyn Any;
        fn len(&self) -> usize;
        fn is_empty(&self) -> bool { self.len() == 0 }
        fn data_type(&self) -> &DataType;
        fn is_null(&self, i: usize) -> bool;
        fn is_valid(&self, i: usize) -> bool { !self.is_null(i) }
        fn null_count(&self) -> usize { (0..self.len()).filter(|i| self.is_null(*i)).count() }
        fn to_boxed(&self) -> Box<dyn Array>;
        /// rows picked by index (None = null)
        fn pick(&self, idx: &[Option<usize>]) -> Box<dyn Array>;
        fn concat_pick(&self, others: &[&dyn Array], idx: &[Option<(usize, usize)>]) -> Box<dyn Array>;
        fn cmp_rows(&self, a: usize, b: usize) -> std::cmp::Ordering;
        fn eq_dyn(&self, o: &dyn Array) -> bool;
        fn sliced(&self, o: usize, l: usize) -> Box<dyn Array> { assert!(o + l <= self.len()); self.pick(&(o..o + l).map(Some).collect::<Vec<_>>()) }
        fn cell(&self, i: usize) -> Option<Cell>;
    }
    #[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize)]
    pub enum Cell { I(i128), F(f64), B(bool), S(String) }
    impl Clone for Box<dyn Array> { fn clone(&self) -> Self { self.to_boxed() } }
    impl PartialEq for dyn Array { fn eq(&self, o: &dyn Array) -> bool { self.eq_dyn(o) } }

    #[derive(Clone, Debug, PartialEq)] pub struct Flat<V: Clone + Debug + PartialEq> { dt: DataType, v: Vec<V>, ok: Vec<bool> }
    impl<V: Clone + Debug + PartialEq + Default> Flat<V> {
        fn from_opt(dt: DataType, x: Vec<Option<V>>) -> Self { let ok = x.iter().map(|o| o.is_some()).collect(); Self { dt, v: x.into_iter().map(|o| o.unwrap_or_default()).collect(), ok } }
        fn get(&self, i: usize) -> Option<V> { if self.ok[i] { Some(self.v[i].clone()) } else { None } }
    }
    macro_rules! flat_common { ($ty:ty, $v:ty, [$($g:tt)*]) => {
        impl<$($g)*> $ty {
            pub fn len(&self) -> usize { self.0.v.len() }
            pub fn is_empty(&self) -> bool { self.0.v.is_empty() }
            pub fn is_null(&self, i: usize) -> bool { !self.0.ok[i] }
            pub fn is_valid(&self, i: usize) -> bool { self.0.ok[i] }
            pub fn boxed(self) -> Box<dyn Array> { Box::new(self) }
            pub fn arced(self) -> std::sync::Arc<dyn Array> { std::sync::Arc::new(self) }
            pub fn data_type(&self) -> &DataType { &self.0.dt }
            pub fn to(mut self, dt: DataType) -> Self { self.0.dt = dt; self }
        }
    } }
    macro_rules! flat_array { ($ty:ty, $v:ty, [$($g:tt)*], $cell:expr, $cmp:expr) => {
        impl<$($g)*> Array for $ty {
            fn as_any(&self) -> &dyn Any { self }
            fn len(&self) -> usize { self.0.v.len() }
            fn data_type(&self) -> &DataType { &self.0.dt }
            fn is_null(&self, i: usize) -> bool { !self.0.ok[i] }
            fn to_boxed(&self) -> Box<dyn Array> { Box::new(self.clone()) }
            fn pick(&self, idx: &[Option<usize>]) -> Box<dyn Array> { Box::new(Self(Flat::from_opt(self.0.dt.clone(), idx.iter().map(|i| i.and_then(|i| self.0.get(i))).collect()), PhantomData)) }
            fn concat_pick(&self, others: &[&dyn Array], idx: &[Option<(usize, usize)>]) -> Box<dyn Array> {
                let o: Vec<&Self> = others.iter().map(|x| x.as_any().downcast_ref::<Self>().expect("same array type")).collect();
                Box::new(Self(Flat::from_opt(self.0.dt.clone(), idx.iter().map(|i| i.and_then(|(a, r)| o[a].0.get(r))).collect()), PhantomData))
            }
            fn cmp_rows(&self, a: usize, b: usize) -> std::cmp::Ordering {
                match (self.0.get(a), self.0.get(b)) { (None, None) => std::cmp::Ordering::Equal, (None, _) => std::cmp::Ordering::Greater, (_, None) => std::cmp::Ordering::Less, (Some(x), Some(y)) => $cmp(&x, &y) }
            }
            fn eq_dyn(&self, o: &dyn Array) -> bool { match o.as_any().downcast_ref::<Self>() { Some(o) => self.0.dt == o.0.dt && self.len() == o.len() && (0..self.len()).all(|i| self.0.get(i) == o.0.get(i)), None => false } }
            fn cell(&self, i: usize) -> Option<Cell> { self.0.get(i).map($cell) }
        }
    } }
    #[derive(Clone, Debug)] pub struct PrimitiveArray<T: NativeType>(Flat<T>, PhantomData<()>);
    #[derive(Clone, Debug)] pub struct BooleanArray(Flat<bool>, PhantomData<()>);
    #[derive(Clone, Debug)] pub struct Utf8Array<O: Offset>(Flat<String>, PhantomData<O>);
    flat_common!(PrimitiveArray<T>, T, [T: NativeType]);
    flat_common!(BooleanArray, bool, []);
    flat_common!(Utf8Array<O>, String, [O: Offset]);
    fn pcell<T: NativeType>(x: T) -> Cell {
        let a: &dyn Any = &x;
        macro_rules! t { ($($i:ty),*) => { $(if let Some(v) = a.downcast_ref::<$i>() { return Cell::I(*v as i128); })* } }
        t!(i8, i16, i32, i64, i128, u8, u16, u32, u64);
        if let Some(v) = a.downcast_ref::<f64>() { return Cell::F(*v); }
        if let Some(v) = a.downcast_ref::<f32>() { return Cell::F(*v as f64); }
        unreachable!()
    }
    flat_array!(PrimitiveArray<T>, T, [T: NativeType], pcell::<T>, (|x: &T, y: &T| x.partial_cmp(y).unwrap()));
    flat_array!(BooleanArray, bool, [], Cell::B, (|x: &bool, y: &bool| x.cmp(y)));
    flat_array!(Utf8Array<O>, String, [O: Offset], Cell::S, (|x: &String, y: &String| x.cmp(y)));
    impl<T: NativeType> PrimitiveArray<T> {
        pub fn from_slice<S: AsRef<[T]>>(s: S) -> Self { Self(Flat::from_opt(T::dt(), s.as_ref().iter().map(|x| Some(*x)).collect()), PhantomData) }
        pub fn from_vec(s: Vec<T>) -> Self { Self::from_slice(s) }
        pub fn value(&self, i: usize) -> T { self.0.v[i] }
        pub fn values(&self) -> &Vec<T> { &self.0.v }
        pub fn values_iter(&self) -> std::slice::Iter<'_, T> { self.0.v.iter() }
        pub fn iter(&self) -> impl Iterator<Item = Option<&T>> + '_ { self.0.v.iter().zip(self.0.ok.iter()).map(|(v, k)| if *k { Some(v) } else { None }) }
        pub fn get(&self, i: usize) -> Option<T> { self.0.get(i) }
        pub fn to_typed(x: Vec<Option<T>>, dt: DataType) -> Self { Self(Flat::from_opt(dt, x), PhantomData) }
    }
    impl<T: NativeType, P: AsRef<[Option<T>]>> From<P> for PrimitiveArray<T> { fn from(x: P) -> Self { Self(Flat::from_opt(T::dt(), x.as_ref().to_vec()), PhantomData) } }
    impl<P: AsRef<[Option<bool>]>> From<P> for BooleanArray { fn from(x: P) -> Self { Self(Flat::from_opt(DataType::Boolean, x.as_ref().to_vec()), PhantomData) } }
    impl BooleanArray { pub fn value(&self, i: usize) -> bool { self.0.v[i] } }
    impl<O: Offset> Utf8Array<O> { pub fn value(&self, i: usize) -> &str { &self.0.v[i] } pub fn from_opt(x: Vec<Option<String>>) -> Self { Self(Flat::from_opt(DataType::Utf8, x), PhantomData) } }
    impl<O: Offset, S: AsRef<str>> From<Vec<Option<S>>> for Utf8Array<O> { fn from(x: Vec<Option<S>>) -> Self { Self::from_opt(x.iter().map(|o| o.as_ref().map(|s| s.as_ref().to_string())).collect()) } }
    pub type Int8Array = PrimitiveArray<i8>; pub type Int16Array = PrimitiveArray<i16>; pub type Int32Array = PrimitiveArray<i32>; pub type Int64Array = PrimitiveArray<i64>; pub type Int128Array = PrimitiveArray<i128>;
    pub type UInt8Array = PrimitiveArray<u8>; pub type UInt16Array = PrimitiveArray<u16>; pub type UInt32Array = PrimitiveArray<u32>; pub type UInt64Array = PrimitiveArray<u64>; pub type Float32Array = PrimitiveArray<f32>; pub type Float64Array = PrimitiveArray<f64>;
    #[derive(Clone, Debug)] pub struct ListArray<O: Offset> { dt: DataType, rows: Vec<Option<Box<dyn Array>>>, _p: PhantomData<O> }
    impl<O: Offset> Array for ListArray<O> {
        fn as_any(&self) -> &dyn Any { self } fn len(&self) -> usize { self.rows.len() } fn data_type(&self) -> &DataType { &self.dt } fn is_null(&self, i: usize) -> bool { self.rows[i].is_none() }
        fn to_boxed(&self) -> Box<dyn Array> { Box::new(self.clone()) }
        fn pick(&self, idx: &[Option<usize>]) -> Box<dyn Array> { Box::new(Self { dt: self.dt.clone(), rows: idx.iter().map(|i| i.and_then(|i| self.rows[i].clone())).collect(), _p: PhantomData }) }
        fn concat_pick(&self, _: &[&dyn Array], _: &[Option<(usize, usize)>]) -> Box<dyn Array> { unimplemented!() }
        fn cmp_rows(&self, _: usize, _: usize) -> std::cmp::Ordering { unimplemented!() } fn eq_dyn(&self, _: &dyn Array) -> bool { unimplemented!() } fn cell(&self, _: usize) -> Option<Cell> { unimplemented!() }
    }
    pub trait MutableArray { fn as_box(&mut self) -> Box<dyn Array>; fn push_null(&mut self); fn len(&self) -> usize; }
    #[derive(Debug, Clone)] pub struct MutablePrimitiveArray<T: NativeType> { dt: DataType, v: Vec<Option<T>> }
    impl<T: NativeType> MutablePrimitiveArray<T> {
        pub fn new() -> Self { Self { dt: T::dt(), v: vec![] } } pub fn with_capacity(n: usize) -> Self { Self { dt: T::dt(), v: Vec::with_capacity(n) } }
        pub fn push(&mut self, x: Option<T>) { self.v.push(x) } pub fn to(self, dt: DataType) -> Self { Self { dt, v: self.v } }
    }
    impl<T: NativeType> From<Vec<Option<T>>> for MutablePrimitiveArray<T> { fn from(v: Vec<Option<T>>) -> Self { Self { dt: T::dt(), v } } }
    impl<T: NativeType> MutableArray for MutablePrimitiveArray<T> { fn as_box(&mut self) -> Box<dyn Array> { Box::new(PrimitiveArray::to_typed(std::mem::take(&mut self.v), self.dt.clone())) } fn push_null(&mut self) { self.v.push(None) } fn len(&self) -> usize { self.v.len() } }
    #[derive(Debug, Clone, Default)] pub struct MutableBooleanArray { v: Vec<Option<bool>> }
    impl From<Vec<Option<bool>>> for MutableBooleanArray { fn from(v: Vec<Option<bool>>) -> Self { Self { v } } }
    impl MutableArray for MutableBooleanArray { fn as_box(&mut self) -> Box<dyn Array> { Box::new(BooleanArray::from(std::mem::take(&mut self.v))) } fn push_null(&mut self) { self.v.push(None) } fn len(&self) -> usize { self.v.len() } }
    #[derive(Debug, Clone)] pub struct MutableUtf8Array<O> { v: Vec<Option<String>>, _p: PhantomData<O> }
    impl<O, S: AsRef<str>> From<Vec<Option<S>>> for MutableUtf8Array<O> { fn from(v: Vec<Option<S>>) -> Self { Self { v: v.into_iter().map(|x| x.map(|s| s.as_ref().to_string())).collect(), _p: PhantomData } } }
    impl<O: Offset> MutableArray for MutableUtf8Array<O> { fn as_box(&mut self) -> Box<dyn Array> { Box::new(Utf8Array::<O>::from_opt(std::mem::take(&mut self.v))) } fn push_null(&mut self) { self.v.push(None) } fn len(&self) -> usize { self.v.len() } }
    pub fn new_null_array(dt: DataType, n: usize) -> Box<dyn Array> { build(&dt, vec![None; n]) }
    pub fn build(dt: &DataType, c: Vec<Option<Cell>>) -> Box<dyn Array> {
        macro_rules! p { ($t:ty) => { Box::new(PrimitiveArray::<$t>::to_typed(c.into_iter().map(|x| x.map(|x| match x { Cell::I(v) => v as $t, _ => unreachable!() })).collect(), dt.clone())) } }
        match dt {
            DataType::Int8 => p!(i8), DataType::Int16 => p!(i16), DataType::Int32 => p!(i32), DataType::Int64 | DataType::Timestamp(_, _) => p!(i64), DataType::Decimal(_, _) => p!(i128),
            DataType::UInt8 => p!(u8), DataType::UInt16 => p!(u16), DataType::UInt32 => p!(u32), DataType::UInt64 => p!(u64),
            DataType::Boolean => Box::new(BooleanArray::from(c.into_iter().map(|x| x.map(|x| match x { Cell::B(b) => b, _ => unreachable!() })).collect::<Vec<_>>())),
            DataType::Utf8 => Box::new(Utf8Array::<i32>::from_opt(c.into_iter().map(|x| x.map(|x| match x { Cell::S(b) => b, _ => unreachable!() })).collect())),
            _ => unimplemented!("{:?}", dt),
        }
    }
    pub mod growable {
        use super::*;
        pub trait Growable<'a> { fn extend(&mut self, i: usize, s: usize, l: usize); fn as_box(&mut self) -> Box<dyn Array>; }
        struct G<'a> { a: Vec<&'a dyn Array>, idx: Vec<Option<(usize, usize)>> }
        impl<'a> Growable<'a> for G<'a> { fn extend(&mut self, i: usize, s: usize, l: usize) { assert!(s + l <= self.a[i].len()); for r in s..s + l { self.idx.push(Some((i, r))); } } fn as_box(&mut self) -> Box<dyn Array> { self.a[0].concat_pick(&self.a, &self.idx) } }
        pub fn make_growable<'a>(a: &[&'a dyn Array], _: bool, _: usize) -> Box<dyn Growable<'a> + 'a> { Box::new(G { a: a.to_vec(), idx: vec![] }) }
    }
}
pub mod chunk {
    use crate::array::Array;
    #[derive(Debug, Clone, PartialEq)]
    pub struct Chunk<A: AsRef<dyn Array>> { arrays: Vec<A> }
    impl<A: AsRef<dyn Array>> Chunk<A> {
        pub fn new(arrays: Vec<A>) -> Self { Self::try_new(arrays).unwrap() }
        pub fn try_new(arrays: Vec<A>) -> crate::error::Result<Self> { if let Some(f) = arrays.first() { let n = f.as_ref().len(); if arrays.iter().any(|a| a.as_ref().len() != n) { return Err(crate::error::Error::Other("Chunk require all its arrays to have an equal number of rows".into())); } } Ok(Self { arrays }) }
        pub fn arrays(&self) -> &[A] { &self.arrays }
        pub fn columns(&self) -> &[A] { &self.arrays }
        pub fn len(&self) -> usize { self.arrays.first().map(|a| a.as_ref().len()).unwrap_or(0) }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
        pub fn into_arrays(self) -> Vec<A> { self.arrays }
    }
}
pub mod compute {
    pub mod merge_sort { #[derive(Debug, Clone, Copy, Default)] pub struct SortOptions { pub descending: bool, pub nulls_first: bool } }
    pub mod sort {
        use crate::array::{Array, PrimitiveArray}; use super::merge_sort::SortOptions;
        pub struct SortColumn<'a> { pub values: &'a dyn Array, pub options: Option<SortOptions> }
        /// nulls last, ascending only (all the repository asks for); the real sort is unstable, this one is stable
        pub fn lexsort_to_indices<I>(cols: &[SortColumn], limit: Option<usize>) -> crate::error::Result<PrimitiveArray<i32>> {
            if cols.is_empty() { return Err(crate::error::Error::Other("Sort requires at least one column".into())); }
            let n = cols[0].values.len(); let mut v: Vec<usize> = (0..n).collect();
            v.sort_by(|a, b| { for c in cols { let o = c.values.cmp_rows(*a, *b); if o != std::cmp::Ordering::Equal { return o; } } std::cmp::Ordering::Equal });
            if let Some(l) = limit { v.truncate(l); }
            Ok(PrimitiveArray::<i32>::from_slice(v.into_iter().map(|x| x as i32).collect::<Vec<_>>()))
        }
    }
    pub mod take {
        use crate::array::{Array, PrimitiveArray, Cell}; use crate::types::NativeType;
        pub fn take<T: NativeType>(a: &dyn Array, idx: &PrimitiveArray<T>) -> crate::error::Result<Box<dyn Array>> {
            let v: Vec<Option<usize>> = (0..idx.len()).map(|i| idx.cell(i).map(|c| match c { Cell::I(v) => v as usize, _ => unreachable!() })).collect();
            Ok(a.pick(&v))
        }
    }
    pub mod concatenate { use crate::array::Array; pub fn concatenate(a: &[&dyn Array]) -> crate::error::Result<Box<dyn Array>> { let mut idx = vec![]; for (i, x) in a.iter().enumerate() { for r in 0..x.len() { idx.push(Some((i, r))); } } Ok(a[0].concat_pick(a, &idx)) } }
}
pub mod io { pub mod parquet {
    use crate::array::{Array, Cell, build}; use crate::chunk::Chunk; use crate::datatypes::Schema; use serde::{Serialize, Deserialize};
    #[derive(Serialize, Deserialize, Clone, Debug)] pub struct RowGroupMetaData { pub cols: Vec<(crate::datatypes::DataType, Vec<Option<Cell>>)> }
    #[derive(Serialize, Deserialize, Clone, Debug)] pub struct Image { pub schema: Schema, pub row_groups: Vec<RowGroupMetaData> }
    pub mod write {
        use super::*; use std::io::Write;
        pub use parquet2::compression::CompressionOptions;
        #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Version { V1, V2 }
        #[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum Encoding { Plain, RleDictionary }
        #[derive(Debug, Clone, Copy)] pub struct WriteOptions { pub write_statistics: bool, pub version: Version, pub compression: CompressionOptions, pub data_pagesize_limit: Option<usize> }
        pub fn transverse<T, F: Fn(&crate::datatypes::DataType) -> T + Clone>(dt: &crate::datatypes::DataType, f: F) -> Vec<T> { vec![f(dt)] }
        pub struct SchemaDescriptor { cols: Vec<parquet2::metadata::ColumnDescriptor> }
        impl SchemaDescriptor { pub fn columns(&self) -> &[parquet2::metadata::ColumnDescriptor] { &self.cols } }
        pub fn to_parquet_schema(s: &Schema) -> crate::error::Result<SchemaDescriptor> { Ok(SchemaDescriptor { cols: s.fields.iter().map(|f| parquet2::metadata::ColumnDescriptor { path_in_schema: vec![f.name.clone()] }).collect() }) }
        pub struct RowGroupIterator<I> { it: I }
        impl<A: AsRef<dyn Array>, I: Iterator<Item = crate::error::Result<Chunk<A>>>> RowGroupIterator<I> { pub fn try_new(it: I, s: &Schema, _: WriteOptions, e: Vec<Vec<Encoding>>) -> crate::error::Result<Self> { if e.len() != s.fields.len() { return Err(crate::error::Error::Other("The number of encodings must equal the number of fields".into())); } Ok(Self { it }) } }
        impl<A: AsRef<dyn Array>, I: Iterator<Item = crate::error::Result<Chunk<A>>>> Iterator for RowGroupIterator<I> { type Item = crate::error::Result<RowGroupMetaData>; fn next(&mut self) -> Option<Self::Item> { self.it.next().map(|c| c.map(|c| RowGroupMetaData { cols: c.columns().iter().map(|a| { let a = a.as_ref(); (a.data_type().clone(), (0..a.len()).map(|i| a.cell(i)).collect()) }).collect() })) } }
        pub struct FileWriter<W: Write> { w: W, img: Image }
        impl<W: Write> FileWriter<W> {
            pub fn try_new(w: W, schema: Schema, _: WriteOptions) -> crate::error::Result<Self> { Ok(Self { w, img: Image { schema, row_groups: vec![] } }) }
            pub fn write(&mut self, g: RowGroupMetaData) -> crate::error::Result<()> { if g.cols.len() != self.img.schema.fields.len() { return Err(crate::error::Error::Other("column count".into())); } self.img.row_groups.push(g); Ok(()) }
            pub fn end(&mut self, _: Option<()>) -> crate::error::Result<u64> { let b = bincode::serialize(&self.img)?; self.w.write_all(&b)?; self.w.flush()?; Ok(b.len() as u64) }
        }
    }
    pub mod read {
        use super::*; use std::io::Read;
        #[derive(Clone, Debug)] pub struct FileMetaData { pub schema: Schema, pub row_groups: Vec<RowGroupMetaData> }
        pub fn read_metadata<R: Read>(r: &mut R) -> crate::error::Result<FileMetaData> { let mut b = vec![]; r.read_to_end(&mut b)?; let i: Image = bincode::deserialize(&b)?; Ok(FileMetaData { schema: i.schema, row_groups: i.row_groups }) }
        pub fn infer_schema(m: &FileMetaData) -> crate::error::Result<Schema> { Ok(m.schema.clone()) }
        pub struct FileReader<R> { schema: Schema, full: Option<Schema>, groups: std::vec::IntoIter<RowGroupMetaData>, _r: R, names: Vec<String> }
        impl<R: Read> FileReader<R> { pub fn new(r: R, groups: Vec<RowGroupMetaData>, schema: Schema, _: Option<usize>, _: Option<usize>, _: Option<()>) -> Self { let names = schema.fields.iter().map(|f| f.name.clone()).collect(); Self { schema, full: None, groups: groups.into_iter(), _r: r, names } }
            /// stub-only: the file's full schema, needed to project (real parquet row groups know their column names)
            pub fn with_full(mut self, s: Schema) -> Self { self.full = Some(s); self } }
        impl<R: Read> Iterator for FileReader<R> { type Item = crate::error::Result<Chunk<Box<dyn Array>>>;
            fn next(&mut self) -> Option<Self::Item> { let g = self.groups.next()?; let full = self.full.clone().unwrap_or(self.schema.clone());
                let cols = g.cols.into_iter().enumerate().filter(|(i, _)| full.fields.get(*i).map(|f| self.names.contains(&f.name)).unwrap_or(false)).map(|(_, (dt, c))| build(&dt, c)).collect(); Some(Chunk::try_new(cols)) } }
        pub mod statistics {
            use super::*;
            pub struct Statistics { pub min_value: Box<dyn Array>, pub max_value: Box<dyn Array> }
            /// column index is not recoverable from the Field alone: the caller passes one row group and the schema order is the file order
            pub fn deserialize(f: &crate::datatypes::Field, g: &[RowGroupMetaData]) -> crate::error::Result<Statistics> {
                let g = &g[0]; let i = COL.with(|c| c.borrow().iter().position(|n| *n == f.name)).unwrap_or(0);
                let (dt, cells) = &g.cols[i]; let a = build(dt, cells.clone()); let n = a.len(); let mut lo = 0; let mut hi = 0;
                for r in 0..n { if a.cmp_rows(r, lo) == std::cmp::Ordering::Less { lo = r } if a.cmp_rows(r, hi) == std::cmp::Ordering::Greater { hi = r } }
                Ok(Statistics { min_value: a.pick(&[Some(lo)]), max_value: a.pick(&[Some(hi)]) })
            }
            thread_local! { pub static COL: std::cell::RefCell<Vec<String>> = Default::default(); }
        }
    }
} }

/// C data interface: backed by arrow-rs' own implementation of the same ABI.
pub mod ffi {
    use crate::array::{Array, Cell}; use crate::datatypes::{DataType, Field, TimeUnit};
    use arrow::array as a1; use arrow::array::Array as _; use arrow::datatypes as d1; use std::sync::Arc;
    #[repr(transparent)] pub struct ArrowArray(pub arrow::ffi::FFI_ArrowArray);
    #[repr(transparent)] pub struct ArrowSchema(pub arrow::ffi::FFI_ArrowSchema);
    fn tu(t: TimeUnit) -> d1::TimeUnit { match t { TimeUnit::Second => d1::TimeUnit::Second, TimeUnit::Millisecond => d1::TimeUnit::Millisecond, TimeUnit::Microsecond => d1::TimeUnit::Microsecond, TimeUnit::Nanosecond => d1::TimeUnit::Nanosecond } }
    fn dt1(d: &DataType) -> d1::DataType { match d { DataType::Boolean => d1::DataType::Boolean, DataType::Int8 => d1::DataType::Int8, DataType::Int16 => d1::DataType::Int16, DataType::Int32 => d1::DataType::Int32, DataType::Int64 => d1::DataType::Int64, DataType::UInt8 => d1::DataType::UInt8, DataType::UInt16 => d1::DataType::UInt16, DataType::UInt32 => d1::DataType::UInt32, DataType::UInt64 => d1::DataType::UInt64, DataType::Float64 => d1::DataType::Float64, DataType::Utf8 => d1::DataType::Utf8, DataType::Timestamp(t, z) => d1::DataType::Timestamp(tu(*t), z.as_ref().map(|z| z.as_str().into())), DataType::Decimal(p, s) => d1::DataType::Decimal128(*p as u8, *s as i8), _ => unimplemented!("{d:?}") } }
    fn arr1(a: &dyn Array) -> a1::ArrayRef {
        let c: Vec<Option<Cell>> = (0..a.len()).map(|i| a.cell(i)).collect();
        macro_rules! p { ($t:ty, $n:ty) => { Arc::new(c.into_iter().map(|x| x.map(|x| match x { Cell::I(v) => v as $n, _ => unreachable!() })).collect::<$t>()) } }
        match a.data_type() {
            DataType::Int8 => p!(a1::Int8Array, i8), DataType::Int16 => p!(a1::Int16Array, i16), DataType::Int32 => p!(a1::Int32Array, i32), DataType::Int64 => p!(a1::Int64Array, i64),
            DataType::UInt8 => p!(a1::UInt8Array, u8), DataType::UInt16 => p!(a1::UInt16Array, u16), DataType::UInt32 => p!(a1::UInt32Array, u32), DataType::UInt64 => p!(a1::UInt64Array, u64),
            DataType::Timestamp(TimeUnit::Nanosecond, _) => p!(a1::TimestampNanosecondArray, i64), DataType::Timestamp(TimeUnit::Millisecond, _) => p!(a1::TimestampMillisecondArray, i64),
            DataType::Decimal(p, s) => Arc::new(c.into_iter().map(|x| x.map(|x| match x { Cell::I(v) => v, _ => unreachable!() })).collect::<a1::Decimal128Array>().with_precision_and_scale(*p as u8, *s as i8).unwrap()),
            DataType::Boolean => Arc::new(c.into_iter().map(|x| x.map(|x| match x { Cell::B(v) => v, _ => unreachable!() })).collect::<a1::BooleanArray>()),
            DataType::Utf8 => Arc::new(c.into_iter().map(|x| x.map(|x| match x { Cell::S(v) => v, _ => unreachable!() })).collect::<a1::StringArray>()),
            d => unimplemented!("{d:?}"),
        }
    }
    pub fn export_array_to_c(a: Box<dyn Array>) -> ArrowArray { ArrowArray(arrow::ffi::FFI_ArrowArray::new(&arr1(a.as_ref()).to_data())) }
    pub fn export_field_to_c(f: &Field) -> ArrowSchema { ArrowSchema(arrow::ffi::FFI_ArrowSchema::try_from(dt1(&f.data_type)).unwrap()) }
    pub unsafe fn import_array_from_c(_: ArrowArray, _: DataType) -> crate::error::Result<Box<dyn Array>> { unimplemented!() }
}
