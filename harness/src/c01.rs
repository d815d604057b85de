//! C01 stored values read back exactly.
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use crate::vals::*;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::query::{BoolExpr, Expr};
use butane_core::{AutoPk, DataObject, DataResult, SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use uuid::Uuid;

pub fn vals(id: i64, r: &VRow) -> Vals {
    Vals {
        id,
        v_bool: r.b,
        v_i8: r.i8_,
        v_u8: r.u8_,
        v_i16: r.i16_,
        v_u16: r.u16_,
        v_i32: r.i32_,
        v_u32: r.u32_,
        v_i64: r.i64_,
        v_f32: f32::from_bits(r.f32_),
        v_f64: f64::from_bits(r.f64_),
        v_str: r.s.clone(),
        v_date: to_date(r.date),
        v_ts: to_ts(r.ts),
        v_tz: to_ts(r.tz).and_utc(),
        v_blob: r.blob.clone(),
        v_uuid: Uuid::from_bytes(r.uuid),
        v_json: r.json.clone(),
        v_hm: r.hm.clone().into_iter().collect(),
        v_bm: r.bm.clone(),
    }
}
fn ovals(r: &VRow, nulls: u32) -> OVals {
    let v = vals(0, r);
    let p = |i: u32| nulls >> i & 1 == 0;
    macro_rules! o {
        ($i:expr, $e:expr) => {
            if p($i) {
                Some($e)
            } else {
                None
            }
        };
    }
    OVals {
        id: AutoPk::uninitialized(),
        v_bool: o!(0, v.v_bool),
        v_i8: o!(1, v.v_i8),
        v_u8: o!(2, v.v_u8),
        v_i16: o!(3, v.v_i16),
        v_u16: o!(4, v.v_u16),
        v_i32: o!(5, v.v_i32),
        v_u32: o!(6, v.v_u32),
        v_i64: o!(7, v.v_i64),
        v_f32: o!(8, v.v_f32),
        v_f64: o!(9, v.v_f64),
        v_str: o!(10, v.v_str),
        v_date: o!(11, v.v_date),
        v_ts: o!(12, v.v_ts),
        v_tz: o!(13, v.v_tz),
        v_blob: o!(14, v.v_blob),
        v_uuid: o!(15, v.v_uuid),
        v_json: o!(16, v.v_json),
        v_hm: o!(17, v.v_hm),
        v_bm: o!(18, v.v_bm),
    }
}
pub fn diff_vals(a: &Vals, b: &Vals) -> Vec<String> {
    let mut d = Vec::new();
    macro_rules! c {
        ($f:ident) => {
            c!($f, a.$f == b.$f)
        };
        ($f:ident, $e:expr) => {
            if !$e {
                d.push(format!("{}: stored {:?}, read {:?}", stringify!($f), a.$f, b.$f));
            }
        };
    }
    c!(id);
    c!(v_bool);
    c!(v_i8);
    c!(v_u8);
    c!(v_i16);
    c!(v_u16);
    c!(v_i32);
    c!(v_u32);
    c!(v_i64);
    c!(v_f32, f32_eq(a.v_f32, b.v_f32));
    c!(v_f64, f64_eq(a.v_f64, b.v_f64));
    c!(v_str);
    c!(v_date);
    c!(v_ts);
    c!(v_tz);
    c!(v_blob);
    c!(v_uuid);
    c!(v_json, json_eq(&a.v_json, &b.v_json));
    c!(v_hm);
    c!(v_bm);
    d
}
fn diff_ovals(a: &OVals, b: &OVals) -> Vec<String> {
    let mut d = Vec::new();
    macro_rules! c {
        ($f:ident) => {
            c!($f, a.$f == b.$f)
        };
        ($f:ident, $e:expr) => {
            if !$e {
                d.push(format!("{}: stored {:?}, read {:?}", stringify!($f), a.$f, b.$f));
            }
        };
    }
    fn oeq<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> bool) -> bool {
        match (a, b) {
            (None, None) => true,
            (Some(x), Some(y)) => f(x, y),
            _ => false,
        }
    }
    c!(v_bool);
    c!(v_i8);
    c!(v_u8);
    c!(v_i16);
    c!(v_u16);
    c!(v_i32);
    c!(v_u32);
    c!(v_i64);
    c!(v_f32, oeq(&a.v_f32, &b.v_f32, |x, y| f32_eq(*x, *y)));
    c!(v_f64, oeq(&a.v_f64, &b.v_f64, |x, y| f64_eq(*x, *y)));
    c!(v_str);
    c!(v_date);
    c!(v_ts);
    c!(v_tz);
    c!(v_blob);
    c!(v_uuid);
    c!(v_json, oeq(&a.v_json, &b.v_json, json_eq));
    c!(v_hm);
    c!(v_bm);
    d
}
const PG_MIN_DAY: i64 = -2_440_588; // 4714-11-24 BC
fn has_nul(r: &VRow) -> bool {
    r.s.contains('\0')
        || json_has_nul(&r.json)
        || r.hm.iter().any(|(k, v)| k.contains('\0') || v.contains('\0'))
        || r.bm.keys().any(|k| k.contains('\0'))
}
fn has_nan(r: &VRow) -> bool {
    f32::from_bits(r.f32_).is_nan() || f64::from_bits(r.f64_).is_nan()
}
/// May the database refuse this row?
fn refusable(fl: Fl, r: &VRow) -> bool {
    let us = PG_MIN_DAY * 86_400_000_000;
    let far = |d: i64| !(-719_528..=2_932_896).contains(&d); // outside years 0000-9999
    if fl.is_pg() {
        has_nul(r) || r.date < PG_MIN_DAY || r.ts < us || r.tz < us
    } else {
        has_nan(r)
            || far(r.date)
            || far(r.ts.div_euclid(86_400_000_000))
            || far(r.tz.div_euclid(86_400_000_000))
            || (fl.is_tu() && has_nul(r))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    rows: Vec<(VRow, u32)>,
    in_tx: bool,
    reconnect: bool,
}

fn store<T: DataObject + Clone + std::fmt::Debug>(
    db: &mut Db,
    in_tx: bool,
    o: &mut T,
) -> Result<(), String> {
    let r = if in_tx {
        match db.tx(|c| {
            let r = c.save(o);
            let e = if r.is_ok() { TxEnd::Commit } else { TxEnd::Rollback };
            (r, e)
        }) {
            Ok((Ok(()), Ok(()))) => Ok(()),
            Ok((Err(e), _)) | Ok((_, Err(e))) | Err(e) => Err(e),
        }
    } else {
        db.c().save(o)
    };
    r.map_err(|e| format!("{e} {e:?}"))
}

pub fn row_cols(fl: Fl) -> Vec<(&'static str, SqlType)> {
    let _ = fl;
    vec![
        ("v_bool", SqlType::Bool),
        ("v_u8", SqlType::Int),
        ("v_i32", SqlType::Int),
        ("v_u32", SqlType::BigInt),
        ("v_i64", SqlType::BigInt),
        ("v_str", SqlType::Text),
        ("v_date", SqlType::Date),
        ("v_ts", SqlType::Timestamp),
        ("v_blob", SqlType::Blob),
        ("v_uuid", SqlType::Blob),
    ]
}
pub fn row_sql(r: &VRow) -> Vec<SqlVal> {
    vec![
        SqlVal::Bool(r.b),
        SqlVal::Int(r.u8_ as i32),
        SqlVal::Int(r.i32_),
        SqlVal::BigInt(r.u32_ as i64),
        SqlVal::BigInt(r.i64_),
        SqlVal::Text(r.s.clone()),
        SqlVal::Date(to_date(r.date)),
        SqlVal::Timestamp(to_ts(r.ts)),
        SqlVal::Blob(r.blob.clone()),
        SqlVal::Blob(r.uuid.to_vec()),
    ]
}

pub fn c01(ctx: &Ctx) {
    ctx.explore(
        "columns",
        "1-3 generated rows of all 19 field types stored in required and in optional columns, re-saved, read by key, by query, raw and after reconnecting; non-trivial: at least one row was accepted",
        ctx.cases(5000, 100_000),
        || {
            (any_fl(), proptest::collection::vec((s_row(), prop_oneof![2 => Just(0u32), 2 => any::<u32>(), 1 => Just(u32::MAX)]), 1..4), any::<bool>(), proptest::bool::weighted(0.1))
                .prop_map(|(fl, rows, in_tx, reconnect)| Case { fl, rows, in_tx, reconnect })
                .boxed()
        },
        Env::new,
        |env, q| {
            let sch = crate::schema::schema(&["Vals", "OVals"]);
            let mut db = env.fresh(q.fl, &sch);
            let fl = q.fl;
            let mut o = Obs::new();
            o.label(fl.name());
            let mut kept: Vec<Vals> = Vec::new();
            let mut okept: Vec<OVals> = Vec::new();
            for (i, (r, nulls)) in q.rows.iter().enumerate() {
                let mut v = vals(i as i64 - 1, r);
                match store(&mut db, q.in_tx, &mut v) {
                    Ok(()) => {
                        kept.push(v);
                        o.nontrivial = true;
                        o.label("accepted");
                    }
                    Err(e) => {
                        ensure!(refusable(fl, r), "refused", "{}: saving {v:?} failed: {e}", fl.name());
                        o.label("refused");
                    }
                }
                let mut ov = ovals(r, *nulls);
                let want = ov.clone();
                match store(&mut db, q.in_tx, &mut ov) {
                    Ok(()) => {
                        ensure!(ov.id.is_some(), "no-key", "{}: no key after save", fl.name());
                        let d = diff_ovals(&want, &ov);
                        ensure!(d.is_empty(), "save-changed-object", "{}: {d:?}", fl.name());
                        okept.push(ov);
                        o.nontrivial = true;
                    }
                    Err(e) => {
                        ensure!(refusable(fl, r), "refused", "{}: saving {want:?} failed: {e}", fl.name());
                        o.label("refused");
                    }
                }
            }
            // overwrite the first optional row with the values of the last
            if okept.len() > 1 {
                let (r, n) = q.rows.last().unwrap();
                let mut ov = ovals(r, n.rotate_left(7));
                ov.id = okept[0].id;
                if store(&mut db, q.in_tx, &mut ov).is_ok() {
                    okept[0] = ov;
                    o.label("overwritten");
                } else {
                    ensure!(refusable(fl, r), "refused", "{}: re-saving {ov:?} failed", fl.name());
                }
            }
            if kept.len() > 1 {
                let (r, _) = q.rows.last().unwrap();
                let mut v = vals(kept[0].id, r);
                if store(&mut db, q.in_tx, &mut v).is_ok() {
                    kept[0] = v;
                } else {
                    ensure!(refusable(fl, r), "refused", "{}: re-saving {v:?} failed", fl.name());
                }
            }
            let db = if q.reconnect && fl.is_pg() {
                let cs = db.conn_str.clone();
                drop(db);
                match env.connect(fl, &cs) {
                    Ok(d) => d,
                    Err(e) => crate::infra!("reconnect: {e}"),
                }
            } else {
                db
            };
            for v in &kept {
                let g: Vals = match db.c().get(v.id) {
                    Ok(g) => g,
                    Err(e) => fail!("get-failed", "{}: reading {v:?}: {e}", fl.name()),
                };
                let d = diff_vals(v, &g);
                ensure!(d.is_empty(), "changed", "{}: required columns: {d:?}", fl.name());
            }
            for v in &okept {
                let g: OVals = match db.c().get(v.id) {
                    Ok(g) => g,
                    Err(e) => fail!("get-failed", "{}: reading {v:?}: {e}", fl.name()),
                };
                ensure!(g.id == v.id, "changed", "{}: key {:?} vs {:?}", fl.name(), g.id, v.id);
                let d = diff_ovals(v, &g);
                ensure!(d.is_empty(), "changed-optional", "{}: optional columns: {d:?}", fl.name());
            }
            // every row at once, and raw columns
            let mut all: Vec<Vals> = match db.c().all() {
                Ok(a) => a,
                Err(e) => fail!("load-failed", "{}: {e}", fl.name()),
            };
            all.sort_by_key(|v| v.id);
            kept.sort_by_key(|v| v.id);
            ensure!(all.len() == kept.len(), "row-count", "{}: {} rows, expected {}", fl.name(), all.len(), kept.len());
            for (a, b) in all.iter().zip(&kept) {
                let d = diff_vals(b, a);
                ensure!(d.is_empty(), "changed", "{}: loaded together: {d:?}", fl.name());
            }
            let mut oall: Vec<OVals> = match db.c().all() {
                Ok(a) => a,
                Err(e) => fail!("load-failed", "{}: {e}", fl.name()),
            };
            oall.sort_by_key(|v| *v.id);
            okept.sort_by_key(|v| *v.id);
            ensure!(oall.len() == okept.len(), "row-count", "{}: {} rows, expected {}", fl.name(), oall.len(), okept.len());
            for (a, b) in oall.iter().zip(&okept) {
                let d = diff_ovals(b, a);
                ensure!(d.is_empty(), "changed-optional", "{}: loaded together: {d:?}", fl.name());
            }
            Ok(o)
        },
    );
    ctx.explore(
        "raw",
        "raw inserts and column queries of generated values; non-trivial: a row was accepted",
        ctx.cases(1500, 20_000),
        || {
            (any_fl(), proptest::collection::vec((s_row(), Just(0u32)), 1..3), any::<bool>(), Just(false))
                .prop_map(|(fl, rows, in_tx, reconnect)| Case { fl, rows, in_tx, reconnect })
                .boxed()
        },
        Env::new,
        |env, q| {
            let sch = crate::schema::schema(&["Vals", "OVals"]);
            let mut db = env.fresh(q.fl, &sch);
            let fl = q.fl;
            let mut o = Obs::new();
            let cs = row_cols(fl);
            let cols: Vec<Column> = cs.iter().map(|(n, t)| Column::new(n, t.clone())).collect();
            let pk = Column::new("id", SqlType::BigInt);
            let mut want: Vec<(i64, Vec<SqlVal>)> = Vec::new();
            for (r, _) in &q.rows {
                let v = row_sql(r);
                let res = if q.in_tx {
                    match db.tx(|c| {
                        let r = c.insert_returning_pk("OVals", &cols, &pk, &v);
                        let e = if r.is_ok() { TxEnd::Commit } else { TxEnd::Rollback };
                        (r, e)
                    }) {
                        Ok((r, Ok(()))) => r,
                        Ok((Err(e), _)) | Ok((_, Err(e))) | Err(e) => Err(e),
                    }
                } else {
                    db.c().insert_returning_pk("OVals", &cols, &pk, &v)
                };
                match res {
                    Ok(SqlVal::BigInt(id)) => {
                        o.nontrivial = true;
                        want.push((id, v));
                    }
                    Ok(x) => fail!("bad-key", "{}: insert returned key {x:?}", fl.name()),
                    Err(e) => ensure!(refusable(fl, r), "refused", "{}: inserting {v:?} failed: {e}", fl.name()),
                }
            }
            let mut all = vec![pk.clone()];
            all.extend(cols.iter().cloned());
            let mut got = match db.c().query("OVals", &all, None, None, None, None) {
                Ok(g) => g,
                Err(e) => fail!("load-failed", "{}: {e}", fl.name()),
            };
            got.sort_by_key(|r| r[0].bigint().unwrap());
            want.sort_by_key(|r| r.0);
            let w: Vec<Vec<SqlVal>> = want
                .iter()
                .map(|(id, v)| {
                    let mut r = vec![SqlVal::BigInt(*id)];
                    r.extend(v.iter().cloned());
                    r
                })
                .collect();
            ensure!(got == w, "changed-raw", "{}: stored {w:?}, read {got:?}", fl.name());
            Ok(o)
        },
    );
    ctx.explore(
        "wide",
        "a row of a table with 1-300 columns: inserted, read, updated, replaced and read again; non-trivial: more than 127 columns",
        ctx.cases(150, 1500),
        || {
            (any_fl(), 1usize..300, any::<u16>(), 0u8..3)
                .prop_map(|(fl, n, salt, form)| WCase { fl, n, salt, form })
                .boxed()
        },
        Env::new,
        |env, q| {
            let db = env.open(q.fl, false);
            let fl = q.fl;
            let names = wide_names();
            let defs: Vec<String> = names[..q.n]
                .iter()
                .enumerate()
                .map(|(i, n)| format!("{n} {}", if i % 3 == 0 { "BIGINT" } else { "TEXT" }))
                .collect();
            let sql = format!("CREATE TABLE wide (id BIGINT PRIMARY KEY, {})", defs.join(", "));
            if let Err(e) = db.c().execute(&sql) {
                crate::infra!("{}: {e}", fl.name());
            }
            let pk = Column::new("id", SqlType::BigInt);
            let cols: Vec<Column> = std::iter::once(pk.clone())
                .chain(names[..q.n].iter().enumerate().map(|(i, n)| {
                    Column::new(n, if i % 3 == 0 { SqlType::BigInt } else { SqlType::Text })
                }))
                .collect();
            let row = |id: i64, k: i64| -> Vec<SqlVal> {
                std::iter::once(SqlVal::BigInt(id))
                    .chain((0..q.n as i64).map(|i| {
                        let x = i * 7919 + q.salt as i64 * k;
                        if i % 3 == 0 { SqlVal::BigInt(x) } else { SqlVal::Text(format!("v{x}")) }
                    }))
                    .collect()
            };
            let mut want = vec![row(1, 1), row(2, 2)];
            let c = db.c();
            let step = |what: &str, r: butane::Result<()>| match r {
                Ok(()) => Ok(()),
                Err(e) => Err(Fail::new("wide-failed", format!("{}: {what} of {} columns: {e}", fl.name(), q.n + 1))),
            };
            step("insert", c.insert_only("wide", &cols, &want[0]))?;
            if q.form == 0 {
                step("insert", c.insert_returning_pk("wide", &cols, &pk, &want[1]).map(|_| ()))?;
            } else {
                step("upsert", c.insert_or_replace("wide", &cols, &pk, &want[1]))?;
            }
            want[1] = row(2, 3);
            if q.form == 1 {
                step("upsert", c.insert_or_replace("wide", &cols, &pk, &want[1]))?;
            } else {
                step("update", c.update("wide", pk.clone(), &SqlVal::BigInt(2), &cols[1..], &want[1][1..]))?;
            }
            let mut got = match c.query("wide", &cols, None, None, None, None) {
                Ok(g) => g,
                Err(e) => fail!("wide-failed", "{}: query of {} columns: {e}", fl.name(), q.n + 1),
            };
            got.sort_by_key(|r| r[0].bigint().unwrap());
            ensure!(got == want, "wide-changed", "{}: stored {want:?}, read {got:?}", fl.name());
            let mut o = Obs::new();
            o.nontrivial_if(q.n > 127);
            o.label(fl.name());
            Ok(o)
        },
    );
    ctx.explore(
        "narrow",
        "integers written to a 64-bit column and read through a model whose fields are narrower: each reads back exactly or not at all; non-trivial: some value does not fit the field",
        ctx.cases(600, 6000),
        || {
            (any_fl(), 0u8..4, proptest::collection::vec((crate::vals::s_i64(), crate::vals::s_i64(), 0u8..5), 1..4))
                .prop_map(|(fl, kind, rows)| NCase { fl, kind, rows })
                .boxed()
        },
        Env::new,
        |env, q| match q.kind {
            0 => narrow::<KI8>(env, q, "KI8", |k| (k.key as i64, k.n as i64), (i8::MIN as i64, i8::MAX as i64)),
            1 => narrow::<KU16>(env, q, "KU16", |k| (k.key as i64, k.n as i64), (0, u16::MAX as i64)),
            2 => narrow::<KU32>(env, q, "KU32", |k| (k.key as i64, k.n as i64), (0, u32::MAX as i64)),
            _ => narrow::<KI32>(env, q, "KI32", |k| (k.key as i64, k.n as i64), (i32::MIN as i64, i32::MAX as i64)),
        },
    );
    ctx.explore(
        "keys",
        "2-6 objects keyed by a generated value of each key type; non-trivial: at least two distinct keys were accepted",
        ctx.cases(3000, 60_000),
        || {
            (any_fl(), 0u8..12, proptest::collection::vec(s_row(), 2..6), any::<bool>())
                .prop_map(|(fl, kind, rows, del)| KCase { fl, kind, rows, del })
                .boxed()
        },
        Env::new,
        |env, q| {
            let d = to_date;
            match q.kind {
                0 => keys::<KBool>(env, q, |r| (KBool { key: r.b, n: 0 }, format!("{}", r.b), false)),
                1 => keys::<KI8>(env, q, |r| (KI8 { key: r.i8_, n: 0 }, format!("{}", r.i8_), false)),
                2 => keys::<KU16>(env, q, |r| (KU16 { key: r.u16_, n: 0 }, format!("{}", r.u16_), false)),
                3 => keys::<KI32>(env, q, |r| (KI32 { key: r.i32_, n: 0 }, format!("{}", r.i32_), false)),
                4 => keys::<KU32>(env, q, |r| (KU32 { key: r.u32_, n: 0 }, format!("{}", r.u32_), false)),
                5 => keys::<KI64>(env, q, |r| (KI64 { key: r.i64_, n: 0 }, format!("{}", r.i64_), false)),
                6 => keys::<KF64>(env, q, |r| {
                    let mut f = f64::from_bits(r.f64_);
                    if f.is_nan() {
                        f = 0.5;
                    }
                    (KF64 { key: f, n: 0 }, format!("{:?}", f + 0.0), false)
                }),
                7 => keys::<KStr>(env, q, |r| (KStr { key: r.s.clone(), n: 0 }, r.s.clone(), r.s.contains('\0'))),
                8 => keys::<KDate>(env, q, |r| {
                    let x = r.date.clamp(-719_162, 2_932_896);
                    (KDate { key: d(x), n: 0 }, format!("{x}"), false)
                }),
                9 => keys::<KTs>(env, q, |r| {
                    let x = r.ts.clamp(-719_162 * 86_400_000_000, 2_932_896 * 86_400_000_000);
                    (KTs { key: to_ts(x), n: 0 }, format!("{x}"), false)
                }),
                10 => keys::<KBlob>(env, q, |r| (KBlob { key: r.blob.clone(), n: 0 }, format!("{:?}", r.blob), false)),
                _ => keys::<KUuid>(env, q, |r| (KUuid { key: Uuid::from_bytes(r.uuid), n: 0 }, format!("{:?}", r.uuid), false)),
            }
        },
    );
    ctx.assume("JSON numbers compare by value (PostgreSQL's jsonb normalises their spelling); NaN equals NaN; leap seconds and sub-microsecond parts are not generated");
    ctx.assume("values a backend may refuse: NUL characters and dates before 4714 BC on PostgreSQL; NaN, years outside 0000-9999 on SQLite and Turso; NUL characters on Turso");
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WCase {
    fl: Fl,
    n: usize,
    salt: u16,
    form: u8,
}
fn wide_names() -> &'static [&'static str] {
    static N: std::sync::OnceLock<Vec<&'static str>> = std::sync::OnceLock::new();
    N.get_or_init(|| (0..300).map(|i| &*format!("c{i}").leak()).collect())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NCase {
    fl: Fl,
    kind: u8,
    /// Key, value, and which of them to take modulo a small number.
    rows: Vec<(i64, i64, u8)>,
}
fn narrow<T: DataObject + DataResult<DBO = T> + Clone>(
    env: &mut Env,
    q: &NCase,
    table: &'static str,
    get: impl Fn(&T) -> (i64, i64),
    range: (i64, i64),
) -> R {
    let db = env.open(q.fl, false);
    let c = db.c();
    if let Err(e) = c.execute(&format!("CREATE TABLE {table} (key BIGINT PRIMARY KEY, n BIGINT)")) {
        crate::infra!("{}: {e}", q.fl.name());
    }
    let cols = [Column::new("key", SqlType::BigInt), Column::new("n", SqlType::BigInt)];
    let mut rows = std::collections::BTreeMap::new();
    for (k, n, small) in &q.rows {
        let k = if small & 1 == 1 { k.rem_euclid(100) } else { *k };
        let n = if small & 2 == 2 { n.rem_euclid(100) } else { *n };
        if rows.insert(k, n).is_some() {
            return Ok(Obs::new());
        }
        if let Err(e) = c.insert_only(table, &cols, &[SqlVal::BigInt(k), SqlVal::BigInt(n)]) {
            fail!("narrow-insert", "{}: {e}", q.fl.name());
        }
    }
    let mut o = Obs::new();
    o.label(q.fl.name());
    let fits = |k: i64, n: i64| (range.0..=range.1).contains(&k) && i32::try_from(n).is_ok();
    o.nontrivial_if(rows.iter().any(|(k, n)| !fits(*k, *n)));
    if let Ok(all) = c.load(T::query()) {
        let mut got: Vec<(i64, i64)> = all.iter().map(&get).collect();
        got.sort();
        let want: Vec<(i64, i64)> = rows.iter().map(|(k, n)| (*k, *n)).collect();
        ensure!(got == want, "narrow-changed", "{}: stored {want:?}, read {got:?} through {table}", q.fl.name());
    } else {
        o.label("refused");
        let fits = rows.iter().all(|(k, n)| fits(*k, *n));
        ensure!(!fits || q.fl.is_pg(), "narrow-refused", "{}: {rows:?} cannot be read through {table}", q.fl.name());
    }
    for (k, n) in &rows {
        let q1 = T::query().filter(BoolExpr::Eq("key", Expr::Val(SqlVal::BigInt(*k))));
        if let Ok(v) = c.load(q1) {
            let got: Vec<(i64, i64)> = v.iter().map(&get).collect();
            ensure!(got == [(*k, *n)], "narrow-changed", "{}: stored {k}, {n}, read {got:?} through {table}", q.fl.name());
        }
    }
    Ok(o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KCase {
    fl: Fl,
    kind: u8,
    rows: Vec<VRow>,
    del: bool,
}
trait Keyed: DataObject + Clone + std::fmt::Debug {
    fn set_n(&mut self, n: i32);
    fn n(&self) -> i32;
    const NAME: &'static str;
}
macro_rules! keyed {
    ($($t:ident),*) => { $(impl Keyed for $t {
        fn set_n(&mut self, n: i32) { self.n = n; }
        fn n(&self) -> i32 { self.n }
        const NAME: &'static str = stringify!($t);
    })* };
}
keyed!(KBool, KI8, KU16, KI32, KU32, KI64, KF64, KStr, KDate, KTs, KBlob, KUuid);

fn keys<T: Keyed>(env: &mut Env, q: &KCase, mk: impl Fn(&VRow) -> (T, String, bool)) -> R {
    let sch = crate::schema::schema(&[
        "KBool", "KI8", "KU16", "KI32", "KU32", "KI64", "KF64", "KStr", "KDate", "KTs", "KBlob", "KUuid",
    ]);
    let fl = q.fl;
    let mut o = Obs::new();
    o.label(format!("{}-{}", T::NAME, fl.backend()));
    let db = env.fresh(fl, &sch);
    let mut model: std::collections::BTreeMap<String, T> = Default::default();
    for (i, r) in q.rows.iter().enumerate() {
        let (mut x, k, refuse) = mk(r);
        x.set_n(i as i32);
        match db.c().save(&mut x) {
            Ok(()) => {
                model.insert(k, x);
            }
            Err(e) => ensure!(refuse && !fl.is_sq(), "refused", "{}: saving {x:?}: {e}", fl.name()),
        }
    }
    if q.del && !model.is_empty() {
        let k = model.keys().next().unwrap().clone();
        let x = model.remove(&k).unwrap();
        if let Err(e) = db.c().delete(&x) {
            fail!("delete-failed", "{}: {x:?}: {e}", fl.name());
        }
        match db.c().try_get::<T>(x.pk().clone()) {
            Ok(None) => {}
            r => fail!("still-there", "{}: deleted {x:?}, get gives {r:?}", fl.name()),
        }
    }
    for x in model.values() {
        match db.c().get::<T>(x.pk().clone()) {
            Ok(g) => {
                ensure!(g.pk() == x.pk() && g.n() == x.n(), "wrong-object", "{}: get of {x:?} gave {g:?}", fl.name())
            }
            Err(e) => fail!("not-found", "{}: get of {x:?}: {e}", fl.name()),
        }
    }
    match db.c().all::<T>() {
        Ok(a) => ensure!(a.len() == model.len(), "row-count", "{}: {a:?} vs {:?}", fl.name(), model.keys()),
        Err(e) => fail!("load-failed", "{}: {e}", fl.name()),
    }
    o.nontrivial_if(model.len() > 1);
    Ok(o)
}
