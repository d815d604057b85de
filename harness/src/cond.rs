//! Generated conditions: one tree, rendered both as a butane `BoolExpr` and as a reference
//! evaluator with SQL's three-valued logic.
use butane_core::query::{BoolExpr, Expr};
use butane_core::SqlVal;
use chrono::{NaiveDate, NaiveDateTime};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    I32,
    U8,
    I64,
    F64,
    Str,
    Bool,
    Date,
    Ts,
    Blob,
    Uuid,
    Json,
}
#[derive(Clone, Copy, Debug)]
pub struct ColD {
    pub name: &'static str,
    pub ty: Ty,
    pub null: bool,
}
pub const fn col(name: &'static str, ty: Ty, null: bool) -> ColD {
    ColD { name, ty, null }
}

pub const STRS: [&str; 14] =
    ["", "a", "A", "ab", "b", "Ab", "é", "it's", "a b", "日本", "a%b", "\"", "aab", "_"];
pub const PATS: [&str; 14] =
    ["%", "a%", "%b", "_", "a_", "", "A%", "%a%", "é", "__", "ab", "%'%", "_%b", "%%"];

pub fn ts(s: &str) -> NaiveDateTime {
    NaiveDateTime::parse_from_str(s, "%Y-%m-%d %H:%M:%S%.f").unwrap()
}
pub fn date(s: &str) -> NaiveDate {
    NaiveDate::parse_from_str(s, "%Y-%m-%d").unwrap()
}
/// Value number `i` of a type's pool.
pub fn pool(ty: Ty, i: u8) -> SqlVal {
    let i = i as usize;
    match ty {
        Ty::I32 => SqlVal::Int([0, 1, 2, -1, 7, i32::MAX, i32::MIN, 100][i % 8]),
        Ty::U8 => SqlVal::Int([0, 1, 2, 255, 127, 128][i % 6]),
        Ty::I64 => SqlVal::BigInt(
            [0, 1, 2, -1, 1 << 31, -(1 << 31) - 1, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1]
                [i % 10],
        ),
        Ty::F64 => {
            SqlVal::Real([0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, 2.0, 1e16, f64::MAX][i % 9])
        }
        Ty::Str => SqlVal::Text(STRS[i % STRS.len()].to_string()),
        Ty::Bool => SqlVal::Bool(i % 2 == 1),
        Ty::Date => SqlVal::Date(date(
            ["2020-01-01", "1999-12-31", "2020-02-29", "0001-01-01", "9999-12-31"][i % 5],
        )),
        Ty::Ts => SqlVal::Timestamp(ts([
            "2020-01-01 00:00:00",
            "2020-01-01 00:00:00.5",
            "2020-01-01 00:00:00.25",
            "2020-01-01 00:00:00.000001",
            "1969-12-31 23:59:59.999999",
            "0001-01-01 00:00:00",
            "9999-12-31 23:59:59",
        ][i % 7])),
        Ty::Blob => SqlVal::Blob(
            [&b""[..], b"a", b"\0", b"\xff\xfe", b"ab", b"\0\0", b"it's"][i % 7].to_vec(),
        ),
        Ty::Uuid => {
            let mut b = [0u8; 16];
            b[0] = [0, 1, 0x80, 0xff][i % 4];
            b[15] = (i as u8 / 4) % 2;
            SqlVal::Blob(b.to_vec())
        }
        Ty::Json => SqlVal::Json(
            serde_json::from_str(
                ["null", "{}", "[]", "{\"a\":1}", "\"a\"", "[1,\"b\",null]", "true", "{\"a\":{\"b\":\"it's\"}}"]
                    [i % 8],
            )
            .unwrap(),
        ),
    }
}
/// As `pool`, with NULL at index 0 of a nullable column.
pub fn colval(c: &ColD, i: u8) -> SqlVal {
    if c.null {
        if i % 5 == 0 {
            SqlVal::Null
        } else {
            pool(c.ty, i - i / 5 - 1)
        }
    } else {
        pool(c.ty, i)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Cmp {
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Cond {
    True,
    Cmp(Cmp, u8, u8),
    CmpCol(Cmp, u8, u8),
    Like(u8, u8),
    In(u8, Vec<u8>),
    AllOf(Vec<Cond>),
    And(Box<Cond>, Box<Cond>),
    Or(Box<Cond>, Box<Cond>),
    Not(Box<Cond>),
}

fn cmp_op() -> impl Strategy<Value = Cmp> {
    prop_oneof![
        3 => Just(Cmp::Eq), 2 => Just(Cmp::Ne), 1 => Just(Cmp::Lt), 1 => Just(Cmp::Gt),
        1 => Just(Cmp::Le), 1 => Just(Cmp::Ge)
    ]
}
/// Conditions over `ncols` columns; column 0 is the key.
pub fn cond_strategy(depth: u32) -> BoxedStrategy<Cond> {
    let leaf = prop_oneof![
        1 => Just(Cond::True),
        10 => (cmp_op(), any::<u8>(), any::<u8>()).prop_map(|(o, c, v)| Cond::Cmp(o, c, v)),
        2 => (cmp_op(), any::<u8>(), any::<u8>()).prop_map(|(o, c, v)| Cond::CmpCol(o, c, v)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(c, v)| Cond::Like(c, v)),
        3 => (any::<u8>(), proptest::collection::vec(any::<u8>(), 0..5))
            .prop_map(|(c, v)| Cond::In(c, v)),
    ];
    leaf.prop_recursive(depth, 24, 4, |inner| {
        prop_oneof![
            1 => proptest::collection::vec(inner.clone(), 0..4).prop_map(Cond::AllOf),
            3 => (inner.clone(), inner.clone())
                .prop_map(|(a, b)| Cond::And(Box::new(a), Box::new(b))),
            3 => (inner.clone(), inner.clone())
                .prop_map(|(a, b)| Cond::Or(Box::new(a), Box::new(b))),
            2 => inner.prop_map(|a| Cond::Not(Box::new(a))),
        ]
    })
    .boxed()
}

/// A concrete condition: indices resolved against a table.
#[derive(Clone, Debug)]
pub enum RCond {
    True,
    Cmp(Cmp, usize, SqlVal),
    CmpCol(Cmp, usize, usize),
    Like(usize, String),
    In(usize, Vec<SqlVal>),
    AllOf(Vec<RCond>),
    And(Box<RCond>, Box<RCond>),
    Or(Box<RCond>, Box<RCond>),
    Not(Box<RCond>),
}

pub fn resolve(c: &Cond, cols: &[ColD]) -> RCond {
    let n = cols.len();
    match c {
        Cond::True => RCond::True,
        Cond::Cmp(op, c, v) => {
            let ci = *c as usize % n;
            let mut op = *op;
            if cols[ci].ty == Ty::Json && !matches!(op, Cmp::Eq | Cmp::Ne) {
                op = Cmp::Eq;
            }
            RCond::Cmp(op, ci, colval(&cols[ci], *v))
        }
        Cond::CmpCol(op, c, v) => {
            let ci = *c as usize % n;
            let same: Vec<usize> = (0..n).filter(|j| cols[*j].ty == cols[ci].ty).collect();
            let mut op = *op;
            if cols[ci].ty == Ty::Json && !matches!(op, Cmp::Eq | Cmp::Ne) {
                op = Cmp::Eq;
            }
            RCond::CmpCol(op, ci, same[*v as usize % same.len()])
        }
        Cond::Like(c, v) => {
            let texts: Vec<usize> = (0..n).filter(|j| cols[*j].ty == Ty::Str).collect();
            RCond::Like(
                texts[*c as usize % texts.len()],
                PATS[*v as usize % PATS.len()].to_string(),
            )
        }
        Cond::In(c, vs) => {
            let ci = *c as usize % n;
            RCond::In(ci, vs.iter().map(|v| colval(&cols[ci], *v)).collect())
        }
        Cond::AllOf(v) => RCond::AllOf(v.iter().map(|c| resolve(c, cols)).collect()),
        Cond::And(a, b) => RCond::And(Box::new(resolve(a, cols)), Box::new(resolve(b, cols))),
        Cond::Or(a, b) => RCond::Or(Box::new(resolve(a, cols)), Box::new(resolve(b, cols))),
        Cond::Not(a) => RCond::Not(Box::new(resolve(a, cols))),
    }
}

/// Builds the leaves of a condition.
pub type LeafBuilder<'a> = &'a dyn Fn(&RCond) -> Option<BoolExpr>;

pub fn to_bool(c: &RCond, cols: &[ColD], leaf: LeafBuilder) -> BoolExpr {
    if let Some(e) = leaf(c) {
        return e;
    }
    let cmp = |op: &Cmp, n: &'static str, e: Expr| match op {
        Cmp::Eq => BoolExpr::Eq(n, e),
        Cmp::Ne => BoolExpr::Ne(n, e),
        Cmp::Lt => BoolExpr::Lt(n, e),
        Cmp::Gt => BoolExpr::Gt(n, e),
        Cmp::Le => BoolExpr::Le(n, e),
        Cmp::Ge => BoolExpr::Ge(n, e),
    };
    match c {
        RCond::True => BoolExpr::True,
        RCond::Cmp(op, c, v) => cmp(op, cols[*c].name, Expr::Val(v.clone())),
        RCond::CmpCol(op, c, d) => cmp(op, cols[*c].name, Expr::Column(cols[*d].name)),
        RCond::Like(c, p) => BoolExpr::Like(cols[*c].name, Expr::Val(SqlVal::Text(p.clone()))),
        RCond::In(c, v) => BoolExpr::In(cols[*c].name, v.clone()),
        RCond::AllOf(v) => BoolExpr::AllOf(v.iter().map(|c| to_bool(c, cols, leaf)).collect()),
        RCond::And(a, b) => {
            BoolExpr::And(Box::new(to_bool(a, cols, leaf)), Box::new(to_bool(b, cols, leaf)))
        }
        RCond::Or(a, b) => {
            BoolExpr::Or(Box::new(to_bool(a, cols, leaf)), Box::new(to_bool(b, cols, leaf)))
        }
        RCond::Not(a) => BoolExpr::Not(Box::new(to_bool(a, cols, leaf))),
    }
}

pub fn cmp_vals(a: &SqlVal, b: &SqlVal) -> Option<Ordering> {
    use SqlVal::*;
    Some(match (a, b) {
        (Null, _) | (_, Null) => return None,
        (Bool(x), Bool(y)) => x.cmp(y),
        (Int(x), Int(y)) => x.cmp(y),
        (BigInt(x), BigInt(y)) => x.cmp(y),
        (Int(x), BigInt(y)) => (*x as i64).cmp(y),
        (BigInt(x), Int(y)) => x.cmp(&(*y as i64)),
        (Real(x), Real(y)) => x.partial_cmp(y).unwrap(),
        (Text(x), Text(y)) => x.as_bytes().cmp(y.as_bytes()),
        (Blob(x), Blob(y)) => x.cmp(y),
        (Date(x), Date(y)) => x.cmp(y),
        (Timestamp(x), Timestamp(y)) => x.cmp(y),
        (Json(x), Json(y)) => {
            if x == y {
                Ordering::Equal
            } else {
                Ordering::Less
            }
        }
        _ => panic!("INFRA: incomparable {a:?} {b:?}"),
    })
}
fn not3(a: Option<bool>) -> Option<bool> {
    a.map(|x| !x)
}
fn and3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn or3(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    not3(and3(not3(a), not3(b)))
}
fn holds(op: Cmp, o: Option<Ordering>) -> Option<bool> {
    let o = o?;
    Some(match op {
        Cmp::Eq => o == Ordering::Equal,
        Cmp::Ne => o != Ordering::Equal,
        Cmp::Lt => o == Ordering::Less,
        Cmp::Gt => o == Ordering::Greater,
        Cmp::Le => o != Ordering::Greater,
        Cmp::Ge => o != Ordering::Less,
    })
}
pub fn like(s: &str, p: &str, fold: bool) -> bool {
    fn go(s: &[char], p: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('%') => (0..=s.len()).any(|i| go(&s[i..], &p[1..])),
            Some('_') => !s.is_empty() && go(&s[1..], &p[1..]),
            Some(c) => s.first() == Some(c) && go(&s[1..], &p[1..]),
        }
    }
    let f = |x: &str| -> Vec<char> {
        if fold {
            x.to_ascii_lowercase().chars().collect()
        } else {
            x.chars().collect()
        }
    };
    go(&f(s), &f(p))
}
/// Truth of a condition on a row. `fold`: LIKE ignores ASCII case.
pub fn eval(c: &RCond, row: &[SqlVal], fold: bool) -> Option<bool> {
    match c {
        RCond::True => Some(true),
        RCond::Cmp(Cmp::Eq, c, SqlVal::Null) => Some(row[*c] == SqlVal::Null),
        RCond::Cmp(Cmp::Ne, c, SqlVal::Null) => Some(row[*c] != SqlVal::Null),
        RCond::Cmp(op, c, v) => holds(*op, cmp_vals(&row[*c], v)),
        RCond::CmpCol(op, c, d) => holds(*op, cmp_vals(&row[*c], &row[*d])),
        RCond::Like(c, p) => match &row[*c] {
            SqlVal::Null => None,
            SqlVal::Text(s) => Some(like(s, p, fold)),
            _ => unreachable!(),
        },
        RCond::In(c, vs) => {
            vs.iter().fold(Some(false), |acc, v| or3(acc, holds(Cmp::Eq, cmp_vals(&row[*c], v))))
        }
        RCond::AllOf(v) => v.iter().fold(Some(true), |acc, c| and3(acc, eval(c, row, fold))),
        RCond::And(a, b) => and3(eval(a, row, fold), eval(b, row, fold)),
        RCond::Or(a, b) => or3(eval(a, row, fold), eval(b, row, fold)),
        RCond::Not(a) => not3(eval(a, row, fold)),
    }
}
/// Nesting depth of connectives.
pub fn size(c: &RCond) -> usize {
    match c {
        RCond::And(a, b) | RCond::Or(a, b) => 1 + size(a) + size(b),
        RCond::Not(a) => 1 + size(a),
        RCond::AllOf(v) => 1 + v.iter().map(size).sum::<usize>(),
        _ => 0,
    }
}
pub fn labels(c: &RCond, out: &mut Vec<String>) {
    let l = match c {
        RCond::True => "true",
        RCond::Cmp(_, _, SqlVal::Null) => "cmp-null",
        RCond::Cmp(..) => "cmp",
        RCond::CmpCol(..) => "cmp-col",
        RCond::Like(..) => "like",
        RCond::In(_, v) if v.is_empty() => "in-empty",
        RCond::In(_, v) if v.contains(&SqlVal::Null) => "in-null",
        RCond::In(..) => "in",
        RCond::AllOf(v) if v.is_empty() => "allof-empty",
        RCond::AllOf(_) => "allof",
        RCond::And(..) => "and",
        RCond::Or(..) => "or",
        RCond::Not(_) => "not",
    };
    out.push(l.to_string());
    match c {
        RCond::And(a, b) | RCond::Or(a, b) => {
            labels(a, out);
            labels(b, out)
        }
        RCond::Not(a) => labels(a, out),
        RCond::AllOf(v) => v.iter().for_each(|x| labels(x, out)),
        _ => {}
    }
}

/// Turso's engine mishandles `x IN (...)` when x or a member is NULL, and can loop for ever
/// on one nested in and/or (see the known finding): keep only plain top-level tests.
fn turso_safe(c: &RCond, cols: &[ColD], top: bool) -> RCond {
    let b = |x: &RCond| Box::new(turso_safe(x, cols, false));
    match c {
        RCond::In(c, v) => {
            let to = if cols[*c].null {
                (0..cols.len()).find(|j| cols[*j].ty == cols[*c].ty && !cols[*j].null).unwrap()
            } else {
                *c
            };
            let v: Vec<SqlVal> = v.iter().filter(|v| **v != SqlVal::Null).cloned().collect();
            if top || v.is_empty() {
                return RCond::In(to, v);
            }
            v.into_iter()
                .map(|x| RCond::Cmp(Cmp::Eq, *c, x))
                .reduce(|a, b| RCond::Or(Box::new(a), Box::new(b)))
                .unwrap()
        }
        RCond::And(x, y) => RCond::And(b(x), b(y)),
        RCond::Or(x, y) => RCond::Or(b(x), b(y)),
        RCond::Not(x) => RCond::Not(b(x)),
        RCond::AllOf(v) => RCond::AllOf(v.iter().map(|x| turso_safe(x, cols, false)).collect()),
        c => c.clone(),
    }
}
/// Resolves for a flavour.
pub fn resolve_for(fl: crate::db::Fl, c: &Cond, cols: &[ColD]) -> RCond {
    let rc = resolve(c, cols);
    if fl.is_tu() {
        turso_safe(&rc, cols, true)
    } else {
        rc
    }
}
