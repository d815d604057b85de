//! Model definitions used by the checks. The text of this file is also parsed at run time
//! to obtain the schemas (see schema.rs), through the same code as the `#[model]` macro.
#![allow(dead_code)]
use butane::{model, AutoPk, FieldType, ForeignKey, Many, PrimaryKeyType};
use chrono::{NaiveDate, NaiveDateTime};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use uuid::Uuid;

// ---- queries -------------------------------------------------------------------------
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub id: i64,
    pub a: i32,
    pub b: Option<i32>,
    pub s: String,
    pub t: Option<String>,
    pub f: f64,
    pub g: Option<f64>,
    pub big: i64,
    pub obig: Option<i64>,
    pub flag: bool,
    pub oflag: Option<bool>,
    pub day: NaiveDate,
    pub oday: Option<NaiveDate>,
    pub ts: NaiveDateTime,
    pub ots: Option<NaiveDateTime>,
    pub blob: Vec<u8>,
    pub oblob: Option<Vec<u8>>,
    pub u: Uuid,
    pub ou: Option<Uuid>,
    pub small: u8,
    pub js: serde_json::Value,
}

/// A table no operation addresses.
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Sentinel {
    pub id: i64,
    pub v: String,
}

// ---- stored values -------------------------------------------------------------------
#[model]
#[derive(Clone, Debug)]
pub struct Vals {
    pub id: i64,
    pub v_bool: bool,
    pub v_i8: i8,
    pub v_u8: u8,
    pub v_i16: i16,
    pub v_u16: u16,
    pub v_i32: i32,
    pub v_u32: u32,
    pub v_i64: i64,
    pub v_f32: f32,
    pub v_f64: f64,
    pub v_str: String,
    pub v_date: NaiveDate,
    pub v_ts: NaiveDateTime,
    pub v_tz: chrono::DateTime<chrono::Utc>,
    pub v_blob: Vec<u8>,
    pub v_uuid: Uuid,
    pub v_json: serde_json::Value,
    pub v_hm: HashMap<String, String>,
    pub v_bm: BTreeMap<String, i64>,
}
#[model]
#[derive(Clone, Debug)]
pub struct OVals {
    pub id: AutoPk<i64>,
    pub v_bool: Option<bool>,
    pub v_i8: Option<i8>,
    pub v_u8: Option<u8>,
    pub v_i16: Option<i16>,
    pub v_u16: Option<u16>,
    pub v_i32: Option<i32>,
    pub v_u32: Option<u32>,
    pub v_i64: Option<i64>,
    pub v_f32: Option<f32>,
    pub v_f64: Option<f64>,
    pub v_str: Option<String>,
    pub v_date: Option<NaiveDate>,
    pub v_ts: Option<NaiveDateTime>,
    pub v_tz: Option<chrono::DateTime<chrono::Utc>>,
    pub v_blob: Option<Vec<u8>>,
    pub v_uuid: Option<Uuid>,
    pub v_json: Option<serde_json::Value>,
    pub v_hm: Option<HashMap<String, String>>,
    pub v_bm: Option<BTreeMap<String, i64>>,
}
#[model]
#[derive(Clone, Debug)]
pub struct KBool {
    #[pk]
    pub key: bool,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KI8 {
    #[pk]
    pub key: i8,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KU16 {
    #[pk]
    pub key: u16,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KI32 {
    #[pk]
    pub key: i32,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KU32 {
    #[pk]
    pub key: u32,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KI64 {
    #[pk]
    pub key: i64,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KF64 {
    #[pk]
    pub key: f64,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KStr {
    #[pk]
    pub key: String,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KDate {
    #[pk]
    pub key: NaiveDate,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KTs {
    #[pk]
    pub key: NaiveDateTime,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KBlob {
    #[pk]
    pub key: Vec<u8>,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct KUuid {
    #[pk]
    pub key: Uuid,
    pub n: i32,
}

// ---- keyed stores --------------------------------------------------------------------
#[model]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct AutoA {
    pub id: AutoPk<i64>,
    pub name: String,
    pub n: Option<i32>,
}
#[model]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct IntK {
    pub id: i64,
    pub name: String,
    pub n: Option<i32>,
}
#[model]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct StrK {
    #[pk]
    pub name: String,
    pub n: Option<i32>,
}
#[model]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct UuK {
    #[pk]
    pub key: Uuid,
    pub name: String,
}
#[model]
#[derive(Clone, Debug)]
pub struct UniqK {
    pub id: i64,
    #[unique]
    pub name: String,
    #[unique]
    pub n: Option<i32>,
    pub plain: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct AutoU {
    pub id: AutoPk<i32>,
    #[unique]
    pub name: String,
    pub n: Option<i32>,
}
#[model]
#[derive(Clone, Debug)]
pub struct OnlyAuto {
    pub id: AutoPk<i64>,
}
#[model]
#[derive(Clone, Debug)]
pub struct OnlyPk {
    pub id: i64,
}

// ---- relations -----------------------------------------------------------------------
#[model]
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tag {
    #[pk]
    pub tag: String,
    pub w: Option<i32>,
}
#[model]
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Num {
    pub id: AutoPk<i64>,
    pub v: i32,
}
#[model]
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Blog {
    pub id: AutoPk<i64>,
    pub name: String,
    pub score: Option<i32>,
    pub parent: Option<ForeignKey<Blog>>,
}
#[model]
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Post {
    pub id: AutoPk<i64>,
    pub title: String,
    pub likes: Option<i32>,
    pub blog: ForeignKey<Blog>,
    pub alt: Option<ForeignKey<Blog>>,
    pub top: Option<ForeignKey<Tag>>,
    pub tags: Many<Tag>,
    pub seen: Many<Blog>,
}
#[model]
#[derive(Clone, Debug)]
pub struct Owner {
    pub id: i64,
    pub name: String,
    pub first: Many<Tag>,
    pub second: Many<Tag>,
    pub nums: Many<Num>,
}
#[model]
#[derive(Clone, Debug)]
pub struct StrOwner {
    #[pk]
    pub key: String,
    pub nums: Many<Num>,
}
#[model]
#[table = "AutoKeyed"]
#[derive(Clone, Debug)]
pub struct AutoOwner {
    pub id: AutoPk<i64>,
    pub name: String,
    pub tags: Many<Tag>,
}

#[model]
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Refs {
    pub id: i64,
    pub req: ForeignKey<IntK>,
    pub s: Option<ForeignKey<StrK>>,
    pub u: Option<ForeignKey<UuK>>,
    pub a: Option<ForeignKey<AutoA>>,
    pub me: Option<ForeignKey<Refs>>,
    pub note: String,
}

// ---- texts, bytes and JSON -----------------------------------------------------------
#[model]
#[derive(Clone, Debug)]
pub struct Note {
    pub id: i64,
    pub body: String,
    pub alt: Option<String>,
    pub raw: Vec<u8>,
    pub js: serde_json::Value,
    pub on: Option<ForeignKey<StrK>>,
    pub tags: Many<Tag>,
}
#[model]
#[derive(Clone, Debug)]
pub struct BlobK {
    #[pk]
    pub key: Vec<u8>,
    pub n: i32,
}

// ---- derived field types -------------------------------------------------------------
#[derive(Clone, Copy, Debug, PartialEq, Eq, FieldType, PrimaryKeyType)]
pub enum Color {
    Red,
    Green,
    DarkBlue,
    #[allow(non_camel_case_types)]
    red,
    #[allow(non_camel_case_types)]
    r#type,
    Élan,
}
#[derive(Clone, Debug, PartialEq, PartialOrd, FieldType, PrimaryKeyType)]
pub struct Name(pub String);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType, PrimaryKeyType)]
pub struct Cents(pub i64);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType, PrimaryKeyType)]
pub struct Level(pub i16);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Small(pub u8);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Wide(pub u32);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Single(pub f32);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Ratio(pub f64);
#[derive(Clone, Debug, PartialEq, FieldType)]
pub struct Bytes(pub Vec<u8>);
#[derive(Clone, Copy, Debug, PartialEq, FieldType, PrimaryKeyType)]
pub struct Ident(pub Uuid);
#[derive(Clone, Copy, Debug, PartialEq, FieldType)]
pub struct On(pub bool);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType, PrimaryKeyType)]
pub struct Day(pub NaiveDate);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct When(pub NaiveDateTime);
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, FieldType)]
pub struct Stamp(pub chrono::DateTime<chrono::Utc>);
#[derive(Clone, Debug, PartialEq, FieldType)]
pub struct Any(pub serde_json::Value);
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub struct Doc {
    pub a: i64,
    pub b: Option<String>,
    pub c: Vec<i32>,
    pub d: BTreeMap<String, Shape>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub struct Pair(pub i32, pub String);
/// Wraps a type with no column type of its own.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub struct Maybe(pub Option<String>);
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub struct Mark;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize, FieldType)]
pub enum Shape {
    Dot,
    Circle(u32),
    Rect { w: i32, h: i32 },
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct Derived {
    pub id: i64,
    pub color: Color,
    pub name: Name,
    pub cents: Cents,
    pub level: Level,
    pub small: Small,
    pub wide: Wide,
    pub single: Single,
    pub ratio: Ratio,
    pub bytes: Bytes,
    pub ident: Ident,
    pub on: On,
    pub day: Day,
    pub when: When,
    pub stamp: Stamp,
    pub any: Any,
    pub doc: Doc,
    pub pair: Pair,
    pub maybe: Maybe,
    pub mark: Mark,
    pub shape: Shape,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct ODerived {
    pub id: i64,
    pub color: Option<Color>,
    pub name: Option<Name>,
    pub cents: Option<Cents>,
    pub level: Option<Level>,
    pub small: Option<Small>,
    pub wide: Option<Wide>,
    pub single: Option<Single>,
    pub ratio: Option<Ratio>,
    pub bytes: Option<Bytes>,
    pub ident: Option<Ident>,
    pub on: Option<On>,
    pub day: Option<Day>,
    pub when: Option<When>,
    pub stamp: Option<Stamp>,
    pub any: Option<Any>,
    pub doc: Option<Doc>,
    pub pair: Option<Pair>,
    pub maybe: Option<Maybe>,
    pub mark: Option<Mark>,
    pub shape: Option<Shape>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct KColor {
    #[pk]
    pub key: Color,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RColor {
    pub id: i64,
    pub one: ForeignKey<KColor>,
    pub other: Option<ForeignKey<KColor>>,
    pub many: Many<KColor>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct KName {
    #[pk]
    pub key: Name,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RName {
    pub id: i64,
    pub one: ForeignKey<KName>,
    pub other: Option<ForeignKey<KName>>,
    pub many: Many<KName>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct KCents {
    #[pk]
    pub key: Cents,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RCents {
    pub id: i64,
    pub one: ForeignKey<KCents>,
    pub other: Option<ForeignKey<KCents>>,
    pub many: Many<KCents>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct KLevel {
    #[pk]
    pub key: Level,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RLevel {
    pub id: i64,
    pub one: ForeignKey<KLevel>,
    pub other: Option<ForeignKey<KLevel>>,
    pub many: Many<KLevel>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct KIdent {
    #[pk]
    pub key: Ident,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RIdent {
    pub id: i64,
    pub one: ForeignKey<KIdent>,
    pub other: Option<ForeignKey<KIdent>>,
    pub many: Many<KIdent>,
}
#[model]
#[derive(Clone, Debug, PartialEq)]
pub struct KDay {
    #[pk]
    pub key: Day,
    pub n: i32,
}
#[model]
#[derive(Clone, Debug)]
pub struct RDay {
    pub id: i64,
    pub one: ForeignKey<KDay>,
    pub other: Option<ForeignKey<KDay>>,
    pub many: Many<KDay>,
}
/// A later version of `struct Dflt { id: i64 }`.
#[model]
#[table = "dflt"]
#[derive(Clone, Debug, PartialEq)]
pub struct Dflt {
    pub id: i64,
    #[default = "Green"]
    pub color: Color,
    #[default = "x"]
    pub name: Name,
    #[default = 1]
    pub cents: Cents,
    #[default = 1]
    pub level: Level,
    #[default = 1]
    pub wide: Wide,
    #[default = 1.5]
    pub ratio: Ratio,
    #[default = b"x"]
    pub bytes: Bytes,
    #[default = true]
    pub on: On,
    #[default = "Red"]
    pub ocolor: Option<Color>,
    pub oname: Option<Name>,
}
