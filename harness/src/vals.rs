//! Values of every supported field type: generation and comparison.
use chrono::{NaiveDate, NaiveDateTime};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

/// One value of each type, in serialisable form.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct VRow {
    pub b: bool,
    pub i8_: i8,
    pub u8_: u8,
    pub i16_: i16,
    pub u16_: u16,
    pub i32_: i32,
    pub u32_: u32,
    pub i64_: i64,
    /// Bits.
    pub f32_: u32,
    /// Bits.
    pub f64_: u64,
    pub s: String,
    /// Days from the epoch.
    pub date: i64,
    /// Microseconds from the epoch.
    pub ts: i64,
    pub tz: i64,
    pub blob: Vec<u8>,
    pub uuid: [u8; 16],
    pub json: serde_json::Value,
    pub hm: BTreeMap<String, String>,
    pub bm: BTreeMap<String, i64>,
}
macro_rules! int_strat {
    ($name:ident, $t:ty) => {
        pub fn $name() -> BoxedStrategy<$t> {
            prop_oneof![
                4 => any::<$t>(),
                1 => Just(<$t>::MIN), 1 => Just(<$t>::MAX), 1 => Just(0 as $t), 1 => Just(1 as $t),
                1 => Just(<$t>::MAX / 2), 1 => Just(<$t>::MIN / 2), 1 => Just((0 as $t).wrapping_sub(1)),
            ]
            .boxed()
        }
    };
}
int_strat!(s_i8, i8);
int_strat!(s_u8, u8);
int_strat!(s_i16, i16);
int_strat!(s_u16, u16);
int_strat!(s_i32, i32);
int_strat!(s_u32, u32);
int_strat!(s_i64, i64);

pub fn s_f64() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<f64>().prop_map(f64::to_bits),
        2 => any::<i32>().prop_map(|i| (i as f64).to_bits()),
        2 => any::<i32>().prop_map(|i| (i as f64 / 100.0).to_bits()),
        1 => proptest::sample::select(vec![
            0.0, -0.0, 1.0, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, 1e15, 1e16, 9.007199254740993e15,
            1.8446744073709552e19, -9.223372036854775808e18, 1e22, 1e23, 0.1, 123456789.123456789,
        ]).prop_map(f64::to_bits),
        1 => proptest::sample::select(vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY]).prop_map(f64::to_bits),
    ]
    .boxed()
}
pub fn s_f32() -> BoxedStrategy<u32> {
    prop_oneof![
        4 => any::<f32>().prop_map(f32::to_bits),
        1 => any::<i16>().prop_map(|i| (i as f32 / 100.0).to_bits()),
        1 => proptest::sample::select(vec![0.0f32, -0.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777217.0]).prop_map(f32::to_bits),
        1 => proptest::sample::select(vec![f32::NAN, f32::INFINITY]).prop_map(f32::to_bits),
    ]
    .boxed()
}
pub fn s_char() -> BoxedStrategy<char> {
    prop_oneof![
        8 => proptest::char::range(' ', '~'),
        3 => proptest::sample::select("'\"\\;%_$?-*/\n\r\t`,(){}[]:=<>|&".chars().collect::<Vec<_>>()),
        2 => any::<char>(),
        1 => proptest::sample::select(vec!['é', 'ß', '日', '\u{301}', '\u{1F600}', '\u{FEFF}', '\u{2028}', '\u{7f}', '\u{1}', '\u{10FFFF}']),
    ]
    .boxed()
}
pub fn s_str() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just(String::new()),
        10 => proptest::collection::vec(s_char(), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
        1 => proptest::collection::vec(s_char(), 100..400).prop_map(|v| v.into_iter().collect::<String>()),
        2 => proptest::sample::select(vec![
            "NULL", "null", "true", "1", "1.0", "1e5", " ", " lead", "trail ", "'", "''", "\\", "\\'", "it's; DROP TABLE x; --",
            "$1", "?1", "?", "/* c */", "a;b", "\u{0}", "a\u{0}b", "\r\n", "2020-01-01", "x'00'", "\\x41",
        ]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
pub fn s_blob() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => proptest::collection::vec(any::<u8>(), 0..20),
        1 => proptest::collection::vec(any::<u8>(), 200..1200),
        1 => proptest::sample::select(vec![vec![], vec![0u8], vec![0, 0], vec![0xff; 3], b"it's".to_vec(), b"\\x41".to_vec()]),
    ]
    .boxed()
}
fn day(y: i32, m: u32, d: u32) -> i64 {
    (NaiveDate::from_ymd_opt(y, m, d).unwrap() - NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days()
}
pub fn s_date() -> BoxedStrategy<i64> {
    prop_oneof![
        4 => day(1, 1, 1)..=day(9999, 12, 31),
        3 => day(1900, 1, 1)..=day(2100, 12, 31),
        1 => proptest::sample::select(vec![
            day(1, 1, 1), day(9999, 12, 31), day(1970, 1, 1), day(2000, 2, 29), day(1969, 12, 31), day(2000, 1, 1), day(1582, 10, 10),
        ]),
        1 => day(-262000, 1, 1)..=day(262000, 1, 1),
        1 => proptest::sample::select(vec![day(0, 1, 1), day(-1, 12, 31), day(10000, 1, 1), day(-4713, 11, 24), day(-4712, 1, 1), day(100, 3, 1)]),
    ]
    .boxed()
}
pub fn s_ts() -> BoxedStrategy<i64> {
    let us = prop_oneof![
        2 => 0i64..86_400_000_000,
        2 => (0i64..86_400).prop_map(|s| s * 1_000_000),
        1 => (0i64..86_400_000).prop_map(|s| s * 1_000),
        1 => (0i64..86_400, proptest::sample::select(vec![1i64, 10, 100, 999_999, 999_000, 500_000, 100_000, 120_000]))
            .prop_map(|(s, u)| s * 1_000_000 + u),
    ];
    (s_date(), us).prop_map(|(d, u)| d * 86_400_000_000 + u).boxed()
}
pub fn s_json() -> BoxedStrategy<serde_json::Value> {
    let leaf = prop_oneof![
        1 => Just(serde_json::Value::Null),
        1 => any::<bool>().prop_map(serde_json::Value::from),
        2 => s_i64().prop_map(serde_json::Value::from),
        1 => any::<u64>().prop_map(serde_json::Value::from),
        2 => any::<i32>().prop_map(|i| serde_json::json!(i as f64 / 8.0)),
        1 => any::<f64>().prop_filter_map("finite", |f| serde_json::Number::from_f64(f).filter(|_| f.abs() < 1e300 && f.abs() > 1e-300).map(serde_json::Value::Number)),
        3 => s_str().prop_map(serde_json::Value::from),
    ];
    leaf.prop_recursive(3, 16, 4, |inner| {
        prop_oneof![
            proptest::collection::vec(inner.clone(), 0..4).prop_map(serde_json::Value::from),
            proptest::collection::btree_map(s_str(), inner, 0..4)
                .prop_map(|m| serde_json::Value::Object(m.into_iter().collect())),
        ]
    })
    .boxed()
}
pub fn s_row() -> BoxedStrategy<VRow> {
    (
        (any::<bool>(), s_i8(), s_u8(), s_i16(), s_u16(), s_i32(), s_u32(), s_i64(), s_f32(), s_f64()),
        (s_str(), s_date(), s_ts(), s_ts(), s_blob(), any::<[u8; 16]>(), s_json()),
        (
            proptest::collection::btree_map(s_str(), s_str(), 0..4),
            proptest::collection::btree_map(s_str(), s_i64(), 0..4),
        ),
    )
        .prop_map(|(a, b, c)| VRow {
            b: a.0,
            i8_: a.1,
            u8_: a.2,
            i16_: a.3,
            u16_: a.4,
            i32_: a.5,
            u32_: a.6,
            i64_: a.7,
            f32_: a.8,
            f64_: a.9,
            s: b.0,
            date: b.1,
            ts: b.2,
            tz: b.3,
            blob: b.4,
            uuid: b.5,
            json: b.6,
            hm: c.0,
            bm: c.1,
        })
        .boxed()
}
pub fn to_date(d: i64) -> NaiveDate {
    NaiveDate::from_ymd_opt(1970, 1, 1).unwrap() + chrono::Duration::days(d)
}
pub fn to_ts(us: i64) -> NaiveDateTime {
    NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_opt(0, 0, 0).unwrap()
        + chrono::Duration::microseconds(us)
}
/// Numbers by value (PostgreSQL's jsonb keeps numbers, not their spelling), the rest exactly.
pub fn json_eq(a: &serde_json::Value, b: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match (a, b) {
        (Number(x), Number(y)) => {
            if let (Some(p), Some(q)) = (x.as_i64(), y.as_i64()) {
                return p == q;
            }
            if let (Some(p), Some(q)) = (x.as_u64(), y.as_u64()) {
                return p == q;
            }
            let (p, q) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            // serde_json's default float parser is exact to a few units in the last place
            p == q || (p - q).abs() <= 4.0 * f64::EPSILON * p.abs()
        }
        (Array(x), Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_eq(p, q)),
        (Object(x), Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map(|q| json_eq(p, q)).unwrap_or(false))
        }
        _ => a == b,
    }
}
pub fn json_has_nul(v: &serde_json::Value) -> bool {
    use serde_json::Value::*;
    match v {
        String(s) => s.contains('\0'),
        Array(a) => a.iter().any(json_has_nul),
        Object(m) => m.iter().any(|(k, v)| k.contains('\0') || json_has_nul(v)),
        _ => false,
    }
}
pub fn f64_eq(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn f32_eq(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
