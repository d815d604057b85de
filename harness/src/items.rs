//! The `Item` table: rows from pools, conditions by hand and through the field expressions.
use crate::cond::*;
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use butane_core::query::BoolExpr;
use butane_core::SqlVal;
use chrono::{NaiveDate, NaiveDateTime};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

pub const COLS: [ColD; 21] = [
    col("id", Ty::I64, false),
    col("a", Ty::I32, false),
    col("b", Ty::I32, true),
    col("s", Ty::Str, false),
    col("t", Ty::Str, true),
    col("f", Ty::F64, false),
    col("g", Ty::F64, true),
    col("big", Ty::I64, false),
    col("obig", Ty::I64, true),
    col("flag", Ty::Bool, false),
    col("oflag", Ty::Bool, true),
    col("day", Ty::Date, false),
    col("oday", Ty::Date, true),
    col("ts", Ty::Ts, false),
    col("ots", Ty::Ts, true),
    col("blob", Ty::Blob, false),
    col("oblob", Ty::Blob, true),
    col("u", Ty::Uuid, false),
    col("ou", Ty::Uuid, true),
    col("small", Ty::U8, false),
    col("js", Ty::Json, false),
];

pub trait Un: Sized {
    fn un(v: &SqlVal) -> Self;
}
macro_rules! un {
    ($t:ty, $var:ident, $v:ident, $e:expr) => {
        impl Un for $t {
            fn un(v: &SqlVal) -> Self {
                match v {
                    SqlVal::$var($v) => $e,
                    _ => panic!("INFRA: {v:?}"),
                }
            }
        }
    };
}
un!(i32, Int, x, *x);
un!(u8, Int, x, *x as u8);
un!(i64, BigInt, x, *x);
un!(f64, Real, x, *x);
un!(bool, Bool, x, *x);
un!(String, Text, x, x.clone());
un!(Vec<u8>, Blob, x, x.clone());
un!(Uuid, Blob, x, Uuid::from_slice(x).unwrap());
un!(NaiveDate, Date, x, *x);
un!(NaiveDateTime, Timestamp, x, *x);
un!(serde_json::Value, Json, x, x.clone());
impl<T: Un> Un for Option<T> {
    fn un(v: &SqlVal) -> Self {
        match v {
            SqlVal::Null => None,
            v => Some(T::un(v)),
        }
    }
}

/// A row as pool indices, shrinking towards the first pool value.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RowSpec(pub Vec<u8>);
pub fn rows_strategy(max: usize) -> BoxedStrategy<Vec<RowSpec>> {
    proptest::collection::vec(
        proptest::collection::vec(any::<u8>(), COLS.len() - 1).prop_map(RowSpec),
        0..=max,
    )
    .boxed()
}
pub fn row_vals(id: i64, r: &RowSpec) -> Vec<SqlVal> {
    let mut v = vec![SqlVal::BigInt(id)];
    for (i, c) in COLS.iter().enumerate().skip(1) {
        v.push(colval(c, r.0[i - 1]));
    }
    v
}
pub fn item(v: &[SqlVal]) -> Item {
    Item {
        id: Un::un(&v[0]),
        a: Un::un(&v[1]),
        b: Un::un(&v[2]),
        s: Un::un(&v[3]),
        t: Un::un(&v[4]),
        f: Un::un(&v[5]),
        g: Un::un(&v[6]),
        big: Un::un(&v[7]),
        obig: Un::un(&v[8]),
        flag: Un::un(&v[9]),
        oflag: Un::un(&v[10]),
        day: Un::un(&v[11]),
        oday: Un::un(&v[12]),
        ts: Un::un(&v[13]),
        ots: Un::un(&v[14]),
        blob: Un::un(&v[15]),
        oblob: Un::un(&v[16]),
        u: Un::un(&v[17]),
        ou: Un::un(&v[18]),
        small: Un::un(&v[19]),
        js: Un::un(&v[20]),
    }
}

/// Leaves through `Item::fields()`, as the query macros do.
pub fn field_leaf(c: &RCond) -> Option<BoolExpr> {
    macro_rules! eqne {
        ($f:ident, $t:ty, $op:expr, $v:expr) => {{
            let f = Item::fields().$f();
            let v: $t = Un::un($v);
            match $op {
                Cmp::Eq => f.eq(&v),
                _ => f.ne(&v),
            }
        }};
    }
    macro_rules! all {
        ($f:ident, $t:ty, $op:expr, $v:expr) => {{
            let f = Item::fields().$f();
            let v: $t = Un::un($v);
            match $op {
                Cmp::Eq => f.eq(&v),
                Cmp::Ne => f.ne(&v),
                Cmp::Lt => f.lt(&v),
                Cmp::Gt => f.gt(&v),
                Cmp::Le => f.le(&v),
                Cmp::Ge => f.ge(&v),
            }
        }};
    }
    macro_rules! isin {
        ($f:ident, $t:ty, $v:expr) => {
            Item::fields().$f().is_in($v.iter().map(<$t as Un>::un).collect::<Vec<$t>>())
        };
    }
    macro_rules! byty {
        ($c:expr, $m:ident, $j:ident, $($a:expr),*) => {
            match $c {
                0 => $m!(id, i64, $($a),*),
                1 => $m!(a, i32, $($a),*),
                2 => $m!(b, Option<i32>, $($a),*),
                3 => $m!(s, String, $($a),*),
                4 => $m!(t, Option<String>, $($a),*),
                5 => $m!(f, f64, $($a),*),
                6 => $m!(g, Option<f64>, $($a),*),
                7 => $m!(big, i64, $($a),*),
                8 => $m!(obig, Option<i64>, $($a),*),
                9 => $m!(flag, bool, $($a),*),
                10 => $m!(oflag, Option<bool>, $($a),*),
                11 => $m!(day, NaiveDate, $($a),*),
                12 => $m!(oday, Option<NaiveDate>, $($a),*),
                13 => $m!(ts, NaiveDateTime, $($a),*),
                14 => $m!(ots, Option<NaiveDateTime>, $($a),*),
                15 => $m!(blob, Vec<u8>, $($a),*),
                16 => $m!(oblob, Option<Vec<u8>>, $($a),*),
                17 => $m!(u, Uuid, $($a),*),
                18 => $m!(ou, Option<Uuid>, $($a),*),
                19 => $m!(small, u8, $($a),*),
                20 => $j!(js, serde_json::Value, $($a),*),
                _ => return None,
            }
        };
    }
    Some(match c {
        RCond::Cmp(op, c, v) => byty!(*c, all, eqne, op, v),
        RCond::In(c, vs) => byty!(*c, isin, isin, vs),
        RCond::Like(3, p) => Item::fields().s().like(p.clone()),
        RCond::Like(_, p) => Item::fields().t().like(p.clone()),
        _ => return None,
    })
}

pub fn build(c: &RCond, by_fields: bool) -> BoolExpr {
    if by_fields {
        to_bool(c, &COLS, &field_leaf)
    } else {
        to_bool(c, &COLS, &|_| None)
    }
}

pub fn setup(env: &mut Env, fl: Fl, rows: &[RowSpec]) -> Result<(Db, Vec<Vec<SqlVal>>), Fail> {
    let db = env.fresh(fl, &crate::schema::schema(&["Item"]));
    let mut all = Vec::new();
    for (i, r) in rows.iter().enumerate() {
        let v = row_vals(i as i64 + 1, r);
        let mut it = item(&v);
        if let Err(e) = db.c().save(&mut it) {
            fail!("insert-rejected", "{}: saving {it:?}: {e}", fl.name());
        }
        all.push(v);
    }
    let mut s = Sentinel { id: 1, v: "keep".into() };
    if let Err(e) = db.c().save(&mut s) {
        fail!("insert-rejected", "{}: saving sentinel: {e}", fl.name());
    }
    Ok((db, all))
}
pub fn sentinel_ok(db: &Db) -> Result<(), Fail> {
    match db.c().all::<Sentinel>() {
        Ok(v) if v == vec![Sentinel { id: 1, v: "keep".into() }] => Ok(()),
        r => fail!("sentinel", "{}: sentinel table is {r:?}", db.fl.name()),
    }
}
