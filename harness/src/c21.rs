//! C21 models compile to the schema they declare: generated definitions, spelt in every supported
//! way, through the implementation of the macros, against the schema written down independently.
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::vals::s_str;
use crate::{ensure, fail, infra};
use butane_core::codegen;
use butane_core::migrations::adb::*;
use butane_core::migrations::{from_root, Migration, MigrationMut, MigrationsMut};
use butane_core::{SqlType, SqlVal};
use proc_macro2::TokenStream;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

type Desc = BTreeMap<String, Vec<(String, String)>>;
fn describe(adb: &ADB) -> Desc {
    let col = |c: &AColumn| {
        format!(
            "{:?} null={} pk={} auto={} unique={} default={:?} ref={:?}",
            c.typeid().ok(),
            c.nullable(),
            c.is_pk(),
            c.is_auto(),
            c.unique(),
            c.default(),
            c.reference()
        )
    };
    adb.tables().map(|t| (t.name.clone(), t.columns.iter().map(|c| (c.name().to_string(), col(c))).collect())).collect()
}

// ---- definitions

/// Names of models; the last ones are spelt raw.
const MODELS: [&str; 14] = [
    "Blog", "Post", "Tag", "Order", "User", "Über", "a", "HTTPLog", "Value2", "Select", "r#type", "r#struct", "r#Normal", "Group",
];
const TABLES: [&str; 12] =
    ["posts", "Blogs", "with space", "Tag", "Post", "q\"uote", "it's", "Ünï", "order", "a.b", "User", "type"];
const FIELDS: [&str; 17] = [
    "name", "title", "r#type", "r#match", "owner", "has", "key", "value", "größe", "select", "ID", "_x", "a1", "table", "r#plain", "default_", "pk",
];
const TYPES: [&str; 6] = ["Currency", "Kind", "r#mod", "Amount", "Länge", "Blob"];

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Ty {
    Bool,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    F32,
    F64,
    Str,
    Bytes,
    Json,
    Uuid,
    DateTime,
    Utc,
    Date,
    Map,
}
const TYS: [Ty; 18] = {
    use Ty::*;
    [Bool, I8, U8, I16, U16, I32, U32, I64, F32, F64, Str, Bytes, Json, Uuid, DateTime, Utc, Date, Map]
};
impl Ty {
    fn sql(self) -> SqlType {
        use Ty::*;
        match self {
            Bool => SqlType::Bool,
            I8 | U8 | I16 | U16 | I32 => SqlType::Int,
            U32 | I64 => SqlType::BigInt,
            F32 | F64 => SqlType::Real,
            Str => SqlType::Text,
            Bytes | Uuid => SqlType::Blob,
            Json | Map => SqlType::Json,
            DateTime | Utc => SqlType::Timestamp,
            Date => SqlType::Date,
        }
    }
    fn spellings(self) -> &'static [&'static str] {
        use Ty::*;
        match self {
            Bool => &["bool", "r#bool"],
            I8 => &["i8", "r#i8"],
            U8 => &["u8"],
            I16 => &["i16"],
            U16 => &["u16"],
            I32 => &["i32"],
            U32 => &["u32"],
            I64 => &["i64"],
            F32 => &["f32"],
            F64 => &["f64"],
            Str => &["String", "std::string::String", "::std::string::String", "r#String"],
            Bytes => &["Vec<u8>", "std::vec::Vec<u8>", "::std::vec::Vec<u8>", "Vec < u8 >"],
            Json => &["serde_json::Value", "Value"],
            Uuid => &["Uuid", "uuid::Uuid"],
            DateTime => &["NaiveDateTime", "chrono::NaiveDateTime", "chrono::naive::NaiveDateTime", "::chrono::NaiveDateTime"],
            Utc => &["DateTime<Utc>", "chrono::DateTime<chrono::Utc>", "chrono::DateTime<Utc>", "DateTime<chrono::offset::Utc>"],
            Date => &["NaiveDate", "chrono::NaiveDate", "::chrono::naive::NaiveDate"],
            Map => &[
                "HashMap<String, i32>",
                "std::collections::HashMap<String, Vec<u8>>",
                "BTreeMap<String, std::string::String>",
                "std::collections::BTreeMap<std::string::String, Option<i64>>",
                "collections::BTreeMap<String, HashMap<String, bool>>",
            ],
        }
    }
}
const OPTION: [&str; 4] = ["Option", "std::option::Option", "Option", "core::option::Option"];
const FK: [&str; 4] = ["ForeignKey", "butane::ForeignKey", "butane::fkey::ForeignKey", "::butane::ForeignKey"];
const MANY: [&str; 4] = ["Many", "butane::Many", "butane::many::Many", "::butane::Many"];
const AUTO: [&str; 4] = ["AutoPk", "butane::AutoPk", "::butane::AutoPk", "butane::autopk::AutoPk"];
const PREFIX: [&str; 4] = ["", "super::", "crate::models::", "self::"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Lit {
    Bool(bool),
    Int(i64, u8),
    Real(u32),
    Text(String, u8),
    Bytes(Vec<u8>),
}
impl Lit {
    fn text(&self) -> String {
        match self {
            Lit::Bool(b) => b.to_string(),
            Lit::Int(i, sp) => match sp % 4 {
                0 => i.to_string(),
                1 => format!("{i:#x}"),
                2 => format!("{i}_0").replace("_0", ""),
                _ => format!("{i:#b}"),
            },
            Lit::Real(r) => format!("{:?}", *r as f64 / 16.0),
            Lit::Text(s, sp) if sp % 3 == 1 && !s.contains("\"##") && !s.contains('\r') => format!("r##\"{s}\"##"),
            Lit::Text(s, _) => format!("{s:?}"),
            Lit::Bytes(b) => {
                let s: String = b.iter().map(|b| format!("\\x{b:02x}")).collect();
                format!("b\"{s}\"")
            }
        }
    }
    fn val(&self) -> SqlVal {
        match self {
            Lit::Bool(b) => SqlVal::Bool(*b),
            Lit::Int(i, _) => match i32::try_from(*i) {
                Ok(i) => SqlVal::Int(i),
                Err(_) => SqlVal::BigInt(*i),
            },
            Lit::Real(r) => SqlVal::Real(*r as f64 / 16.0),
            Lit::Text(s, _) => SqlVal::Text(s.clone()),
            Lit::Bytes(b) => SqlVal::Blob(b.clone()),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Kind {
    Plain(Ty),
    /// a model by its place
    Fk(u8),
    Many(u8),
    /// a declared type by its place
    Custom(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FSpec {
    name: u8,
    kind: Kind,
    /// which of the spellings
    sp: u8,
    opt: bool,
    unique: bool,
    default: Option<Lit>,
    /// other attributes: doc comments and serde
    extra: u8,
    /// the order of the attributes
    turn: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Key {
    /// `AutoPk` of i32 or i64
    Auto(bool),
    Ty(Ty),
    Custom(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MSpec {
    name: u8,
    table: Option<u8>,
    key: Key,
    /// named `id`, or named otherwise with #[pk]
    key_name: Option<u8>,
    /// #[pk] on a field named `id`
    key_attr: bool,
    key_at: u8,
    key_sp: u8,
    fields: Vec<FSpec>,
    derive: bool,
    extra: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum TSpec {
    Alias(Ty, u8),
    /// an alias of another declared type
    Again(u8),
    Struct(Ty, u8),
    Enum(Ty),
    Name(u8),
    /// deriving `FieldType`: a wrapper, an enum without fields, anything else
    New(Ty, u8),
    Plain(u8),
    Stored(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prog {
    /// for the compiler, and not only for the macros
    real: bool,
    types: Vec<TSpec>,
    models: Vec<MSpec>,
    /// the order in which everything is compiled
    order: Vec<u16>,
    again: Vec<u16>,
}

fn s_ty() -> BoxedStrategy<Ty> {
    proptest::sample::select(TYS.to_vec()).boxed()
}
fn s_lit() -> BoxedStrategy<Lit> {
    prop_oneof![
        any::<bool>().prop_map(Lit::Bool),
        (prop_oneof![0i64..200, Just(i32::MAX as i64), Just(i32::MAX as i64 + 1), Just(i64::MAX), 0i64..i64::MAX], any::<u8>())
            .prop_map(|(a, b)| Lit::Int(a, b)),
        any::<u32>().prop_map(Lit::Real),
        (s_str(), any::<u8>()).prop_map(|(a, b)| Lit::Text(a, b)),
        proptest::collection::vec(any::<u8>(), 0..5).prop_map(Lit::Bytes),
    ]
    .boxed()
}
fn s_field() -> BoxedStrategy<FSpec> {
    (
        any::<u8>(),
        prop_oneof![
            5 => s_ty().prop_map(Kind::Plain),
            2 => any::<u8>().prop_map(Kind::Fk),
            2 => any::<u8>().prop_map(Kind::Many),
            2 => any::<u8>().prop_map(Kind::Custom),
        ],
        any::<u8>(),
        any::<bool>(),
        any::<bool>(),
        proptest::option::weighted(0.4, s_lit()),
        any::<u8>(),
        any::<u8>(),
    )
        .prop_map(|(name, kind, sp, opt, unique, default, extra, turn)| FSpec { name, kind, sp, opt, unique, default, extra, turn })
        .boxed()
}
fn s_model() -> BoxedStrategy<MSpec> {
    (
        any::<u8>(),
        proptest::option::weighted(0.4, any::<u8>()),
        prop_oneof![
            2 => any::<bool>().prop_map(Key::Auto),
            3 => s_ty().prop_map(Key::Ty),
            1 => any::<u8>().prop_map(Key::Custom),
        ],
        proptest::option::of(any::<u8>()),
        any::<bool>(),
        any::<u8>(),
        any::<u8>(),
        proptest::collection::vec(s_field(), 0..6),
        any::<bool>(),
        any::<u8>(),
    )
        .prop_map(|(name, table, key, key_name, key_attr, key_at, key_sp, fields, derive, extra)| MSpec {
            name,
            table,
            key,
            key_name,
            key_attr,
            key_at,
            key_sp,
            fields,
            derive,
            extra,
        })
        .boxed()
}
fn s_prog(real: bool) -> BoxedStrategy<Prog> {
    let n = if real { 4 } else { 0 };
    let ty = prop_oneof![
        n => (s_ty(), any::<u8>()).prop_map(|(a, b)| TSpec::New(a, b)),
        n => any::<u8>().prop_map(TSpec::Plain),
        n => any::<u8>().prop_map(TSpec::Stored),
        3 => (s_ty(), any::<u8>()).prop_map(|(a, b)| TSpec::Alias(a, b)),
        1 => any::<u8>().prop_map(TSpec::Again),
        2 => (s_ty(), any::<u8>()).prop_map(|(a, b)| TSpec::Struct(a, b)),
        2 => s_ty().prop_map(TSpec::Enum),
        1 => any::<u8>().prop_map(TSpec::Name),
    ];
    (
        proptest::collection::vec(ty, if real { 1..6 } else { 0..4 }),
        proptest::collection::vec(s_model(), 1..5),
        proptest::collection::vec(any::<u16>(), 0..8),
        proptest::collection::vec(any::<u16>(), 0..4),
    )
        .prop_map(move |(types, models, order, again)| Prog { real, types, models, order, again })
        .boxed()
}

// ---- what they say

fn plain(s: &str) -> String {
    s.strip_prefix("r#").unwrap_or(s).to_string()
}
fn pick<'a>(l: &[&'a str], n: u8) -> &'a str {
    l[n as usize % l.len()]
}
/// A definition written out.
#[derive(Clone, Debug)]
struct Item {
    src: String,
    args: String,
    how: How,
    /// the struct's name and its table
    table: Option<(String, String)>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Type,
    Derived,
    Model,
    Derive,
}
struct Expected {
    items: Vec<Item>,
    desc: Desc,
    labels: Vec<&'static str>,
    /// types that need implementations, with their SQL type
    foreign: Vec<(String, &'static str)>,
}
const COMMON: &str = "#[derive(Clone, Debug, PartialEq)]";
/// The type's name: distinct ones by place.
fn type_name(k: usize) -> &'static str {
    TYPES[k % TYPES.len()]
}
fn distinct(from: &[&'static str], n: u8, taken: &mut Vec<String>, fold: bool) -> Option<&'static str> {
    let norm = |s: &str| if fold { plain(s).to_lowercase() } else { plain(s) };
    (0..from.len())
        .map(|k| from[(n as usize + k) % from.len()])
        .find(|s| !taken.contains(&norm(s)))
        .inspect(|s| taken.push(norm(s)))
}
fn sql_name(t: &SqlType) -> &'static str {
    match t {
        SqlType::Bool => "Bool",
        SqlType::Int => "Int",
        SqlType::BigInt => "BigInt",
        SqlType::Real => "Real",
        SqlType::Text => "Text",
        SqlType::Blob => "Blob",
        SqlType::Json => "Json",
        SqlType::Date => "Date",
        SqlType::Timestamp => "Timestamp",
        _ => "?",
    }
}
fn fits(l: &Lit, t: &TypeIdentifier) -> bool {
    let TypeIdentifier::Ty(t) = t else { return false };
    match l {
        Lit::Bool(_) => *t == SqlType::Bool,
        Lit::Int(i, _) => *t == SqlType::BigInt || *t == SqlType::Int && i32::try_from(*i).is_ok(),
        Lit::Real(_) => *t == SqlType::Real,
        Lit::Text(..) => *t == SqlType::Text,
        Lit::Bytes(_) => *t == SqlType::Blob,
    }
}

fn expect(p: &Prog) -> Expected {
    let mut items = Vec::new();
    let mut labels = Vec::new();
    let mut foreign = Vec::new();
    // types
    let mut types: Vec<TypeIdentifier> = Vec::new();
    for (k, t) in p.types.iter().enumerate() {
        let name = type_name(k);
        let (src, args, id) = match t {
            TSpec::Again(n) if k > 0 => {
                let j = *n as usize % k;
                labels.push("alias of a declared type");
                (format!("pub type {name} = {};", type_name(j)), String::new(), types[j].clone())
            }
            TSpec::Again(n) => (format!("pub type {name} = i64;"), ["", "Text"][*n as usize % 2].into(), SqlType::BigInt.into()),
            TSpec::Alias(t, sp) => {
                labels.push("alias");
                (format!("pub type {name} = {};", pick(t.spellings(), *sp)), String::new(), t.sql().into())
            }
            TSpec::Struct(t, sp) => {
                labels.push("declared struct");
                let body = ["(pub i32);", "{ pub a: i32 }", ";", "<T>(T);"][*sp as usize % if p.real { 3 } else { 4 }];
                (format!("{COMMON} pub struct {name}{body}"), sql_name(&t.sql()).into(), t.sql().into())
            }
            TSpec::Enum(t) => {
                labels.push("declared enum");
                (format!("/// doc\n{COMMON} pub enum {name} {{ A, B(i32) }}"), sql_name(&t.sql()).into(), t.sql().into())
            }
            TSpec::Name(n) => {
                labels.push("custom SQL type");
                let sql = ["POINT", "citext", "Inet"][*n as usize % 3];
                (format!("{COMMON} pub struct {name} {{ x: i64 }}"), format!("Custom({sql})"), TypeIdentifier::Name(sql.into()))
            }
            TSpec::New(t, sp) => {
                labels.push("wrapper");
                // a map is stored as JSON in any case
                (format!("#[derive(FieldType, Serialize, Deserialize, Clone, Debug, PartialEq)] pub struct {name}({});", pick(t.spellings(), *sp)), String::new(), t.sql().into())
            }
            TSpec::Plain(n) => {
                labels.push("enum by name");
                let vs = ["A", "A, B", "r#type, Ünï, c, C = 7", "A, /** doc */ B"];
                (format!("#[derive(FieldType, Clone, Debug, PartialEq)] pub enum {name} {{ {} }}", pick(&vs, *n)), String::new(), SqlType::Text.into())
            }
            TSpec::Stored(n) => {
                labels.push("stored as JSON");
                let body = ["struct N(i32, String);", "struct N { a: i32, b: Vec<u8> }", "enum N { A, B(i32) }", "enum N { A { x: i32 } }", "struct N(Vec<String>);"];
                let body = pick(&body, *n).replacen(" N", &format!(" {name}"), 1);
                (format!("#[derive(FieldType, Serialize, Deserialize, Clone, Debug, PartialEq)] pub {body}"), String::new(), SqlType::Json.into())
            }
        };
        let how = if matches!(t, TSpec::New(..) | TSpec::Plain(_) | TSpec::Stored(_)) { How::Derived } else { How::Type };
        if p.real && matches!(t, TSpec::Struct(..) | TSpec::Enum(_) | TSpec::Name(_)) {
            let ty = match &id {
                TypeIdentifier::Ty(t) => sql_name(t),
                _ => "Text",
            };
            foreign.push((name.to_string(), ty));
        }
        types.push(id);
        items.push(Item { src, args, how, table: None });
    }
    // names of models and tables
    let mut taken = Vec::new();
    let mut names = Vec::new();
    for m in &p.models {
        names.push(distinct(&MODELS, m.name, &mut taken, false));
    }
    let mut tables: Vec<Option<String>> = vec![None; p.models.len()];
    let mut taken = Vec::new();
    for (i, m) in p.models.iter().enumerate() {
        if m.table.is_none() {
            tables[i] = names[i].map(plain);
            taken.extend(tables[i].as_ref().map(|t| t.to_lowercase()));
        }
    }
    for (i, m) in p.models.iter().enumerate() {
        if let Some(t) = m.table {
            tables[i] = distinct(&TABLES, t, &mut taken, true).map(|s| s.to_string());
        }
    }
    let live: Vec<usize> = (0..p.models.len()).filter(|i| names[*i].is_some() && tables[*i].is_some()).collect();
    if live.iter().any(|i| live.iter().any(|j| i != j && names[*i].map(plain) == tables[*j])) {
        labels.push("a table with another model's name");
    }
    // keys
    let key = |m: &MSpec| -> (TypeIdentifier, String, bool) {
        match &m.key {
            Key::Auto(big) => (
                if *big { SqlType::BigInt.into() } else { SqlType::Int.into() },
                format!("{}<{}>", pick(&AUTO, m.key_sp), if *big { "i64" } else { "i32" }),
                true,
            ),
            Key::Custom(n) if !types.is_empty() && !(p.real && p.types.iter().any(|t| matches!(t, TSpec::Alias(Ty::Map, _)))) => {
                let k = *n as usize % types.len();
                (types[k].clone(), type_name(k).to_string(), false)
            }
            Key::Custom(_) => (SqlType::BigInt.into(), "i64".into(), false),
            Key::Ty(Ty::Map) if p.real => (SqlType::BigInt.into(), "i64".into(), false),
            Key::Ty(t) => (t.sql().into(), pick(t.spellings(), m.key_sp).into(), false),
        }
    };
    let key_names: Vec<String> =
        p.models.iter().map(|m| m.key_name.map_or("id".to_string(), |n| pick(&FIELDS, n).to_string())).collect();
    let mut desc: Desc = BTreeMap::new();
    let col = |id: &TypeIdentifier, null: bool, pk: bool, auto: bool, unique: bool, default: Option<SqlVal>, r: Option<(String, String)>| {
        format!(
            "{:?} null={null} pk={pk} auto={auto} unique={unique} default={:?} ref={:?}",
            Some(id),
            &default,
            r.map(|(a, b)| ARef::Literal(ARefLiteral::new(a, b))).as_ref()
        )
    };
    for &i in &live {
        let m = &p.models[i];
        let table = tables[i].clone().unwrap();
        let mut cols: Vec<(String, String)> = Vec::new();
        let (kid, ksrc, auto) = key(m);
        let kattr = if m.key_name.is_some() || m.key_attr { "#[pk] " } else { "" };
        let kname = &key_names[i];
        let mut taken = vec![plain(kname), "id".into()];
        let key_at = m.key_at as usize % (m.fields.len() + 1);
        let mut body = String::new();
        let put_key = |body: &mut String, cols: &mut Vec<(String, String)>| {
            body.push_str(&format!("    {kattr}pub {kname}: {ksrc},\n"));
            cols.push((plain(kname), col(&kid, false, true, auto, false, None, None)));
        };
        for (fi, f) in m.fields.iter().enumerate() {
            if fi == key_at {
                put_key(&mut body, &mut cols);
            }
            let Some(name) = distinct(&FIELDS, f.name, &mut taken, false) else { continue };
            let mut attrs: Vec<String> = Vec::new();
            let (id, src, reference) = match &f.kind {
                Kind::Plain(t) => (TypeIdentifier::Ty(t.sql()), pick(t.spellings(), f.sp).to_string(), None),
                Kind::Custom(n) if !types.is_empty() => {
                    let k = *n as usize % types.len();
                    (types[k].clone(), type_name(k).to_string(), None)
                }
                Kind::Custom(_) => (SqlType::Text.into(), "String".into(), None),
                Kind::Fk(n) | Kind::Many(n) => {
                    let j = live[*n as usize % live.len()];
                    let (id, ..) = key(&p.models[j]);
                    let kind = if matches!(f.kind, Kind::Fk(_)) { FK } else { MANY };
                    let src = format!("{}<{}{}>", pick(&kind, f.sp), pick(&PREFIX, f.sp / 4), names[j].unwrap());
                    (id, src, Some((tables[j].clone().unwrap(), plain(&key_names[j]))))
                }
            };
            if matches!(f.kind, Kind::Many(_)) {
                labels.push("many-to-many");
                body.push_str(&format!("    {} pub {name}: {src},\n", ["", "/// doc\n", "#[serde(skip)]"][f.extra as usize % if p.real { 2 } else { 3 }]));
                desc.insert(
                    format!("{table}_{}{MANY_SUFFIX}", plain(name)),
                    vec![
                        ("owner".into(), col(&kid, false, false, false, false, None, Some((table.clone(), plain(kname))))),
                        ("has".into(), col(&id, false, false, false, false, None, reference)),
                    ],
                );
                continue;
            }
            if reference.is_some() {
                labels.push("foreign key");
            }
            if f.unique {
                attrs.push("#[unique]".into());
            }
            let default = f.default.as_ref().filter(|l| fits(l, &id) && reference.is_none());
            if let Some(l) = default {
                labels.push("default");
                attrs.push(format!("#[default = {}]", l.text()));
            }
            match f.extra % 4 {
                1 => attrs.push("/** doc */".into()),
                2 if !p.real => attrs.push("#[serde(default)]".into()),
                3 => attrs.push("#[cfg_attr(all(), allow(unused))]".into()),
                _ => {}
            }
            if !attrs.is_empty() {
                let n = f.turn as usize % attrs.len();
                attrs.rotate_left(n);
            }
            let src = if f.opt { format!("{}<{src}>", pick(&OPTION, f.sp / 16)) } else { src };
            body.push_str(&format!("    {} {} {name}: {src},\n", attrs.join(" "), ["pub", "", "pub(crate)"][f.turn as usize % 3]));
            cols.push((plain(name), col(&id, f.opt, false, false, f.unique, default.map(|l| l.val()), reference)));
        }
        if key_at >= m.fields.len() {
            put_key(&mut body, &mut cols);
        }
        let mut attrs: Vec<String> = Vec::new();
        if m.table.is_some() {
            labels.push("named table");
            attrs.push(format!("#[table = {table:?}]"));
        }
        match m.extra % 4 {
            1 => attrs.push("/// A model.\n".into()),
            2 if !p.real => attrs.push("#[derive(Clone, Debug)]".into()),
            2 => attrs.push("#[allow(missing_docs)]".into()),
            3 if !p.real => attrs.push("#[serde(rename = \"x\")]".into()),
            _ => {}
        }
        if m.extra / 4 % 2 == 1 {
            attrs.reverse();
        }
        items.push(Item {
            src: format!("{} {} struct {} {{\n{body}}}", attrs.join(" "), ["pub", if p.real { "pub(crate)" } else { "" }][m.extra as usize / 8 % 2], names[i].unwrap()),
            args: String::new(),
            how: if m.derive { How::Derive } else { How::Model },
            table: Some((names[i].unwrap().to_string(), table.clone())),
        });
        desc.insert(table, cols);
    }
    labels.sort();
    labels.dedup();
    Expected { items, desc, labels, foreign }
}

// ---- compiling

/// What the macro made of the definition: its output, or how it refused.
fn compile<M: MigrationMut>(it: &Item, ms: &mut impl MigrationsMut<M = M>) -> Result<TokenStream, String> {
    let ts: TokenStream = match it.src.parse() {
        Ok(t) => t,
        Err(e) => infra!("{e}: {}", it.src),
    };
    let out = guarded(|| {
        Ok(match it.how {
            How::Model => codegen::model_with_migrations(ts, ms),
            How::Derive => codegen::derive_dataobject_with_migrations(ts, ms),
            How::Derived => infra!("only for the compiler"),
            How::Type => codegen::butane_type_with_migrations(it.args.parse().unwrap_or_default(), ts, ms),
        })
    });
    match out {
        Err(m) => Err(format!("panic: {}", m.msg)),
        Ok(t) => {
            let s = t.to_string();
            if s.contains("compile_error !") {
                return Err(s);
            }
            Ok(t)
        }
    }
}
fn order_of(n: usize, by: &[u16]) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    v.sort_by_key(|i| by.get(*i).copied().unwrap_or(0));
    v
}
fn run_schema(env: &mut Env, p: &Prog) -> R {
    let _ = env;
    let mut o = Obs::new();
    let e = expect(p);
    for i in &e.items {
        if i.how != How::Type && syn::parse_str::<syn::ItemStruct>(&i.src).is_err() {
            infra!("not a struct: {}", i.src);
        }
    }
    let root = fresh_path("c21");
    let mut fs = from_root(&root);
    let mut rest = order_of(e.items.len(), &p.order);
    for a in &p.again {
        rest.push(*a as usize % e.items.len());
    }
    for i in &rest {
        if let Err(m) = compile(&e.items[*i], &mut fs) {
            fail!("refused", "a supported definition is refused: {m}\n{}", e.items[*i].src);
        }
    }
    let all: Vec<&str> = e.items.iter().map(|i| i.src.as_str()).collect();
    match fs.current().db() {
        Err(m) => fail!("unresolved", "the recorded schema cannot be read: {m}\n{}", all.join("\n")),
        Ok(db) => same(&describe(&db), &e.desc, &all.join("\n"))?,
    }
    let _ = std::fs::remove_dir_all(&root);
    for l in &e.labels {
        o.label(*l);
    }
    o.nontrivial_if(p.models.iter().map(|m| m.fields.len()).sum::<usize>() >= 2 && p.models.len() >= 2);
    Ok(o)
}
fn same(got: &Desc, want: &Desc, src: &str) -> Result<(), Fail> {
    for (t, cols) in want {
        let Some(g) = got.get(t) else { fail!("table", "no table {t:?} is recorded, but {:?}\n{src}", got.keys()) };
        for (c, w) in cols {
            let Some(x) = g.iter().find(|x| x.0 == *c) else { fail!("column", "table {t:?} has no column {c:?}: {g:?}\n{src}") };
            ensure!(x.1 == *w, "column", "column {c:?} of {t:?} is {} instead of {w}\n{src}", x.1);
        }
        ensure!(g.len() == cols.len(), "column", "table {t:?} has the columns {g:?} instead of {cols:?}\n{src}");
        let order = |v: &[(String, String)]| v.iter().map(|c| c.0.clone()).collect::<Vec<_>>();
        ensure!(order(g) == order(cols), "order", "table {t:?} has the columns {:?} instead of {:?}", order(g), order(cols));
    }
    ensure!(got.len() == want.len(), "table", "the tables are {:?} instead of {:?}\n{src}", got.keys(), want.keys());
    Ok(())
}

// ---- compiled

fn library(p: &Prog) -> String {
    let e = expect(p);
    let mut s = String::from(
        "#![allow(warnings)]\npub use models::*;\npub mod models {\nuse butane::{butane_type, model, AutoPk, DataObject, FieldType, ForeignKey, Many, PrimaryKeyType};\n\
         use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};\nuse serde::{Deserialize, Serialize};\nuse serde_json::Value;\nuse std::collections::{self, BTreeMap, HashMap};\nuse uuid::Uuid;\n",
    );
    for i in order_of(e.items.len(), &p.order) {
        let it = &e.items[i];
        s += &match it.how {
            How::Type if it.args.is_empty() => "#[butane_type]\n".to_string(),
            How::Type => format!("#[butane_type({})]\n", it.args),
            How::Derived => String::new(),
            How::Model => "#[model]\n".into(),
            How::Derive => "#[derive(DataObject)]\n".into(),
        };
        // the modules are not public
        s += &["autopk", "fkey", "many"].iter().fold(it.src.clone(), |s, m| s.replace(&format!("butane::{m}::"), "butane::"));
        s.push('\n');
    }
    for (k, t) in p.types.iter().enumerate() {
        if matches!(t, TSpec::New(..) | TSpec::Plain(_) | TSpec::Stored(_)) {
            s += &format!("impl PrimaryKeyType for {} {{}}\n", type_name(k));
        }
    }
    for (name, ty) in &e.foreign {
        s += &format!(
            "impl butane::ToSql for {name} {{ fn to_sql(&self) -> butane::SqlVal {{ todo!() }} fn to_sql_ref(&self) -> butane::SqlValRef<'_> {{ todo!() }} }}\n\
             impl butane::FromSql for {name} {{ fn from_sql_ref(_: butane::SqlValRef<'_>) -> butane::Result<Self> {{ todo!() }} }}\n\
             impl FieldType for {name} {{ type RefType = Self; const SQLTYPE: butane::SqlType = butane::SqlType::{ty}; }}\nimpl PrimaryKeyType for {name} {{}}\n"
        );
    }
    s += "fn d<T: butane::DataObject + butane::internal::DataObjectInternal>() -> serde_json::Value {\n    let cols = |c: &[butane::db::Column]| c.iter().map(|c| (c.name(), format!(\"{:?}\", c.ty()))).collect::<Vec<_>>();\n    \
          serde_json::json!([T::TABLE, T::PKCOL, T::AUTO_PK, cols(<T as butane::DataResult>::COLUMNS), cols(<T as butane::internal::DataObjectInternal>::NON_AUTO_COLUMNS)])\n}\n";
    s += "pub fn run(_: &[String]) -> String {\n    let v: Vec<serde_json::Value> = vec![\n";
    for it in &e.items {
        if let Some((name, _)) = &it.table {
            s += &format!("        d::<{name}>(),\n");
        }
    }
    s += "    ];\n    serde_json::to_string(&v).unwrap()\n}\n}\n";
    s
}
type Told = (String, String, bool, Vec<(String, String)>, Vec<(String, String)>);
struct Batch {
    cases: Vec<String>,
    built: Built,
}
fn batch(tag: &str, v: &[Prog]) -> Batch {
    let libs: Vec<String> = v.iter().map(library).collect();
    Batch { cases: v.iter().map(|p| serde_json::to_string(p).unwrap()).collect(), built: build(tag, &libs) }
}
fn run_real(b: &Batch, p: &Prog) -> R {
    let mut o = Obs::new();
    let me = serde_json::to_string(p).unwrap();
    let alone;
    let (b, k) = match b.cases.iter().position(|c| *c == me) {
        Some(k) => (b, k),
        None => {
            alone = batch("c21-one", std::slice::from_ref(p));
            (&alone, 0)
        }
    };
    let e = expect(p);
    let src = library(p);
    if let Some(m) = &b.built.failed[k] {
        fail!("compile", "supported definitions do not compile: {m}\n{src}");
    }
    let ms = from_root(b.built.dir(k).join(".butane/migrations"));
    let mut ms = ms;
    match ms.current().db() {
        Err(m) => fail!("unresolved", "the recorded schema cannot be read: {m}\n{src}"),
        Ok(db) => same(&describe(&db), &e.desc, &src)?,
    }
    let told = match b.built.run(k, &[]) {
        Ok(s) => s,
        Err(m) => fail!("run", "{m}\n{src}"),
    };
    let told: Vec<Told> = serde_json::from_str(&told).unwrap_or_else(|e| infra!("{e}: {told}"));
    let models: Vec<&Item> = e.items.iter().filter(|i| i.table.is_some()).collect();
    ensure!(told.len() == models.len(), "told", "{told:?}");
    for (t, it) in told.iter().zip(models) {
        let (name, table) = it.table.clone().unwrap();
        let cols = &e.desc[&table];
        ensure!(t.0 == table, "generated", "{name} is in the table {:?} instead of {table:?}\n{src}", t.0);
        let key = cols.iter().find(|c| c.1.contains(" pk=true ")).unwrap();
        ensure!(t.1 == key.0, "generated", "the key of {name} is {:?} instead of {:?}\n{src}", t.1, key.0);
        ensure!(t.2 == key.1.contains(" auto=true "), "generated", "{name} has an automatic key: {}\n{src}", t.2);
        let ty = |s: &str| s.split("Some(Ty(").nth(1).and_then(|s| s.split(')').next()).map(|s| s.to_string());
        let want: Vec<(String, Option<String>)> = cols.iter().map(|c| (c.0.clone(), ty(&c.1))).collect();
        let eq = |got: &[(String, String)], want: &[(String, Option<String>)]| {
            got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.0 == w.0 && w.1.as_ref().is_none_or(|w| *w == g.1))
        };
        ensure!(eq(&t.3, &want), "generated", "{name} has the columns {:?} instead of {want:?}\n{src}", t.3);
        let plain: Vec<_> = want.iter().zip(cols).filter(|(_, c)| !c.1.contains(" auto=true ")).map(|x| x.0.clone()).collect();
        ensure!(eq(&t.4, &plain), "generated", "{name} has the columns {:?} to save instead of {plain:?}\n{src}", t.4);
    }
    for l in &e.labels {
        o.label(*l);
    }
    o.nontrivial_if(p.models.iter().map(|m| m.fields.len()).sum::<usize>() >= 2 && p.models.len() >= 2);
    Ok(o)
}

// ---- what is refused

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    AutoElsewhere(bool),
    AutoOther(u8),
    NoKey,
    Shape(u8),
    TwoKeys,
    Default(Ty, Lit),
    Malformed(u8),
    Table(u8),
    Twice(u8),
    Type(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    prog: Prog,
    bad: Bad,
    derive: bool,
    opt: bool,
    /// the definition was right before
    before: bool,
    at: u8,
}
fn s_bad() -> BoxedStrategy<BCase> {
    let bad = prop_oneof![
        1 => any::<bool>().prop_map(Bad::AutoElsewhere),
        1 => any::<u8>().prop_map(Bad::AutoOther),
        1 => Just(Bad::NoKey),
        1 => any::<u8>().prop_map(Bad::Shape),
        6 => (s_ty(), s_lit()).prop_map(|(a, b)| Bad::Default(a, b)),
        2 => any::<u8>().prop_map(Bad::Malformed),
        2 => any::<u8>().prop_map(Bad::Table),
        1 => any::<u8>().prop_map(Bad::Twice),
        3 => any::<u8>().prop_map(Bad::Type),
    ];
    (s_prog(false), bad, any::<bool>(), any::<bool>(), any::<bool>(), any::<u8>())
        .prop_map(|(prog, bad, derive, opt, before, at)| BCase { prog, bad, derive, opt, before, at })
        .boxed()
}
const UNKNOWN: [&str; 14] = [
    "u64", "usize", "Vec<String>", "Vec<Option<u8>>", "DateTime<Local>", "HashMap<u8, String>", "Box<i32>", "&'static str", "[u8; 4]",
    "(i32, i32)", "Undeclared", "other::Option<i32>", "char", "Rc<String>",
];
fn contradicts(l: &Lit, t: Ty) -> bool {
    match l {
        Lit::Bool(_) => t.sql() != SqlType::Bool,
        Lit::Int(i, _) => match t.sql() {
            SqlType::Int => i32::try_from(*i).is_err(),
            SqlType::BigInt | SqlType::Real | SqlType::Text => false,
            _ => true,
        },
        Lit::Real(_) => t.sql() != SqlType::Real,
        Lit::Text(..) => matches!(t.sql(), SqlType::Bool | SqlType::Int | SqlType::BigInt | SqlType::Real | SqlType::Blob),
        Lit::Bytes(_) => t.sql() != SqlType::Blob,
    }
}
/// Every file below, with its contents.
fn snapshot(root: &std::path::Path) -> BTreeMap<std::path::PathBuf, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut dirs = vec![root.to_path_buf()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if e.file_name() != "lock" && e.file_name() != ".gitignore" {
                out.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    out
}
fn run_bad(_: &mut Env, q: &BCase) -> R {
    let mut o = Obs::new();
    let e = expect(&q.prog);
    let top = fresh_path("c21");
    let root = top.join("a/b/migrations");
    std::fs::create_dir_all(&root).unwrap_or_else(|e| infra!("{e}"));
    let mut fs = from_root(&root);
    for i in order_of(e.items.len(), &q.prog.order) {
        if let Err(m) = compile(&e.items[i], &mut fs) {
            fail!("refused", "a supported definition is refused: {m}\n{}", e.items[i].src);
        }
    }
    let derive = q.derive;
    let how = if derive { How::Derive } else { How::Model };
    let item = |src: String| Item { src, args: String::new(), how, table: None };
    let ok = item("pub struct Bad { pub id: i64, pub a: i32 }".into());
    if q.before {
        if let Err(m) = compile(&ok, &mut fs) {
            fail!("refused", "a supported definition is refused: {m}\n{}", ok.src);
        }
    }
    let lit;
    let mut strict = true;
    let (attr, body) = match &q.bad {
        Bad::AutoElsewhere(big) => ("", format!("{{ pub id: i64, pub a: AutoPk<{}> }}", if *big { "i64" } else { "i32" })),
        Bad::AutoOther(n) => ("", format!("{{ pub id: {}<{}>, pub a: i32 }}", pick(&AUTO, *n), ["String", "Vec<u8>", "f64", "bool", "Unknown"][*n as usize % 5])),
        Bad::NoKey => ("", "{ pub a: i32, pub b: String }".into()),
        Bad::Shape(n) => ("", ["(i64, i32);", ";", "{}", "();"][*n as usize % 4].to_string()),
        Bad::TwoKeys => ("", "{ #[pk] pub a: i32, #[pk] pub id: i64 }".into()),
        Bad::Default(t, l) => {
            if *t == Ty::Map || !contradicts(l, *t) {
                return Ok(o);
            }
            let ty = pick(t.spellings(), q.at);
            lit = l.text();
            let ty = if q.opt { format!("{}<{ty}>", pick(&OPTION, q.at / 8)) } else { ty.to_string() };
            ("", format!("{{ pub id: i64, #[default = {lit}] pub a: {ty} }}"))
        }
        Bad::Malformed(n) => {
            let a = [
                "#[default]", "#[default(1)]", "#[default = 'c']", "#[default = b'x']", "#[default = 99999999999999999999]", "#[default = 1 + 1]",
                "#[default = f()]", "#[default = C]", "#[default = [1]]", "#[default = 1e999]",
            ];
            ("", format!("{{ pub id: i64, {} pub a: f64 }}", pick(&a, *n)))
        }
        Bad::Table(n) => (
            pick(&["#[table]", "#[table(other)]", "#[table = 5]", "#[table = concat!(\"a\", \"b\")]", "#[table = \"../up\"]", "#[table = \"x/y\"]"], *n),
            "{ pub id: i64, pub a: i32 }".into(),
        ),
        Bad::Twice(n) => match n % 2 {
            0 => ("#[table = \"one\"] #[table = \"two\"]", "{ pub id: i64, pub a: i32 }".into()),
            _ => ("", "{ pub id: i64, #[default = 1] #[default = 2] pub a: i32 }".into()),
        },
        Bad::Type(n) => {
            strict = false;
            let ty = pick(&UNKNOWN, *n);
            ("", format!("{{ pub id: i64, pub a: {} }}", if q.opt { format!("Option<{ty}>") } else { ty.into() }))
        }
    };
    let bad = item(format!("{attr} pub struct Bad {body}"));
    let files = snapshot(&top);
    let kind = format!("{:?}", q.bad).split('(').next().unwrap_or("").to_string();
    let label = if q.before { "the definition was right before" } else { "a new definition" };
    match compile(&bad, &mut fs) {
        Ok(_) => {
            ensure!(!matches!(q.bad, Bad::TwoKeys), "two-keys", "{} is not refused", bad.src);
            ensure!(!strict, "accepted", "{kind}: {} is not refused", bad.src);
            if let Ok(db) = fs.current().db() {
                fail!("accepted", "{kind}: {} is recorded as {:?}", bad.src, db.get_table("Bad"));
            }
            o.label("refused later");
        }
        Err(m) => {
            let now = snapshot(&top);
            let diff: Vec<_> = now.keys().chain(files.keys()).filter(|k| now.get(*k) != files.get(*k)).collect();
            ensure!(diff.is_empty(), "trace", "{kind}: {} is refused ({m}) and recorded in {diff:?}", bad.src);
        }
    }
    o.label(kind);
    o.label(label);
    let _ = std::fs::remove_dir_all(&top);
    o.nontrivial_if(true);
    Ok(o)
}

pub fn c21(ctx: &Ctx) {
    let n = ctx.cases(80, 80) as usize;
    for round in 0..if ctx.tier == Tier::Thorough { 12 } else { 1 } {
        let all = std::sync::Arc::new(draw(mix(ctx.seed, "real", round), &s_prog(true), n));
        let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let built = std::sync::OnceLock::new();
        ctx.explore(
            "compiled",
            "two models or more with two fields or more",
            n as u32,
            || Drawn(all.clone(), next.clone()).boxed(),
            |_| (),
            |_, p| run_real(built.get_or_init(|| batch("c21", if ctx.replay.is_some() { &[] } else { &all })), p),
        );
    }
    // a known finding: the first one is taken
    ctx.explore("two-keys", "any", 0, s_bad, Env::new, run_bad);
    ctx.explore("refused", "a definition that is to be refused", ctx.cases(4000, 100000), s_bad, Env::new, run_bad);
    ctx.explore("schema", "two models or more with two fields or more", ctx.cases(6000, 200000), || s_prog(false), Env::new, run_schema);
}
