//! C03 queries return exactly the matching objects; C04 ordering and paging; C05 query deletes.
use crate::cond::*;
use crate::db::*;
use crate::engine::*;
use crate::items::*;
use crate::models::*;
use crate::{ensure, fail};
use butane::filter;
use butane_core::query::{BoolExpr, Query};
use butane_core::{DataObject, DataResult, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Q3 {
    fl: Fl,
    rows: Vec<RowSpec>,
    conds: Vec<Cond>,
    by_fields: bool,
}

fn shape(c: &RCond) -> &'static str {
    // the kind of the smallest failing condition
    match c {
        RCond::True => "true",
        RCond::Cmp(_, _, SqlVal::Null) => "cmp-null",
        RCond::Cmp(..) => "cmp",
        RCond::CmpCol(..) => "cmp-col",
        RCond::Like(..) => "like",
        RCond::In(..) => "in",
        RCond::AllOf(..) => "allof",
        RCond::And(..) => "and",
        RCond::Or(..) => "or",
        RCond::Not(..) => "not",
    }
}

fn check_query(db: &Db, rows: &[Vec<SqlVal>], rc: &RCond, e: BoolExpr) -> Result<usize, Fail> {
    let fold = !db.fl.is_pg();
    let want: Vec<i64> = rows
        .iter()
        .filter(|r| eval(rc, r, fold) == Some(true))
        .map(|r| i64::un(&r[0]))
        .collect();
    let got = match db.c().load(Item::query().filter(e.clone())) {
        Ok(g) => g,
        Err(err) => fail!(
            format!("error-{}", shape(rc)),
            "{}: query for {rc:?} ({e:?}) failed: {err}",
            db.fl.name()
        ),
    };
    let mut ids: Vec<i64> = got.iter().map(|x| x.id).collect();
    ids.sort();
    ensure!(
        ids == want,
        format!("wrong-rows-{}", shape(rc)),
        "{}: condition {rc:?} ({e:?}) returned ids {ids:?}, expected {want:?}",
        db.fl.name()
    );
    for g in &got {
        let w = item(&rows[(g.id - 1) as usize]);
        ensure!(*g == w, "wrong-object", "{}: got {g:?}, stored {w:?}", db.fl.name());
    }
    Ok(want.len())
}

pub fn c03(ctx: &Ctx) {
    ctx.explore(
        "filter",
        "1-4 generated condition trees over 0-7 generated rows of a 21-column table; non-trivial: some condition has a connective and selects a proper non-empty subset",
        ctx.cases(7000, 120_000),
        || {
            (any_fl(), rows_strategy(7), proptest::collection::vec(cond_strategy(4), 1..5), any::<bool>())
                .prop_map(|(fl, rows, conds, by_fields)| Q3 { fl, rows, conds, by_fields })
                .boxed()
        },
        Env::new,
        |env, q| {
            let (db, rows) = setup(env, q.fl, &q.rows)?;
            let mut o = Obs::new();
            for c in &q.conds {
                let rc = resolve_for(q.fl, c, &COLS);
                let n = check_query(&db, &rows, &rc, build(&rc, q.by_fields))?;
                labels(&rc, &mut o.labels);
                if n > 0 && n < rows.len() {
                    o.label("proper-subset");
                    o.nontrivial_if(size(&rc) > 0);
                }
            }
            o.label(q.fl.name());
            Ok(o)
        },
    );
    ctx.explore(
        "macro",
        "filter! templates with generated operands; non-trivial: selects a proper non-empty subset",
        ctx.cases(3000, 30_000),
        || {
            (any_fl(), rows_strategy(7), any::<u8>(), any::<[u8; 4]>())
                .prop_map(|(fl, rows, t, v)| M3 { fl, rows, t, v })
                .boxed()
        },
        Env::new,
        |env, q| {
            let (db, rows) = setup(env, q.fl, &q.rows)?;
            let mut o = Obs::new();
            let (rc, e) = template(q.t, &q.v);
            let n = check_query(&db, &rows, &rc, e)?;
            o.nontrivial_if(n > 0 && n < rows.len());
            o.label(format!("template-{}", q.t as usize % NT));
            Ok(o)
        },
    );
    ctx.explore(
        "wide",
        "a membership test, a conjunction of <> or a conjunction of membership tests with 60-500 values in all, mostly ones no row holds; non-trivial: more than 127 values and a proper non-empty subset",
        ctx.cases(400, 6000),
        || {
            (
                any_fl(),
                rows_strategy(6),
                (0u8..3, 0u8..3),
                60u16..500,
                proptest::collection::vec((any::<u8>(), any::<u16>()), 0..6),
                any::<bool>(),
            )
                .prop_map(|(fl, rows, (col, form), n, at, del)| W3 { fl, rows, col, form, n, at, del })
                .boxed()
        },
        Env::new,
        |env, q| {
            let (db, rows) = setup(env, q.fl, &q.rows)?;
            let c = ci(["s", "f", "blob"][q.col as usize]);
            let mut vals: Vec<SqlVal> = (0..q.n)
                .map(|i| match q.col {
                    0 => SqlVal::Text(format!("no row holds {i}")),
                    1 => SqlVal::Real(1e6 + i as f64),
                    _ => SqlVal::Blob(format!("no row holds {i}").into_bytes()),
                })
                .collect();
            for (v, at) in &q.at {
                let i = *at as usize % vals.len();
                vals[i] = colval(&COLS[c], *v);
            }
            let rc = match q.form {
                0 => RCond::In(c, vals),
                1 => RCond::AllOf(vals.into_iter().map(|v| RCond::Cmp(Cmp::Ne, c, v)).collect()),
                _ => {
                    let half = vals.split_off(vals.len() / 2);
                    RCond::AllOf(vec![RCond::Not(Box::new(RCond::In(c, half))), RCond::Not(Box::new(RCond::In(c, vals)))])
                }
            };
            let n = check_query(&db, &rows, &rc, build(&rc, true))?;
            let mut o = Obs::new();
            o.nontrivial_if(q.n > 127 && n > 0 && n < rows.len());
            if q.del {
                let got = match db.c().delete_q(Item::query().filter(build(&rc, true))) {
                    Ok(g) => g,
                    Err(err) => fail!("wide-delete", "{}: delete with {} values failed: {err}", q.fl.name(), q.n),
                };
                ensure!(got == n, "wide-deleted", "{}: deleted {got} rows, {n} match", q.fl.name());
            }
            o.label(q.fl.name());
            Ok(o)
        },
    );
    // Membership lists holding NULL have their own sub-check: turso's engine gets the
    // three-valued logic wrong when such a test is an operand (known finding).
    for tu in [false, true] {
        ctx.explore(
            if tu { "null-list-turso" } else { "null-list" },
            "a membership test on a nullable column whose list holds NULL as an operand of and/or/not; non-trivial: selects a proper non-empty subset",
            ctx.cases(if tu { 100 } else { 600 }, 4000),
            move || {
                (
                    any_fl().prop_filter("backend", move |f| f.is_tu() == tu),
                    rows_strategy(6),
                    (any::<u8>(), proptest::collection::vec(any::<u8>(), 0..3)),
                    any::<u8>(),
                    any::<bool>(),
                )
                    .prop_map(|(fl, rows, list, conn, neg)| N3 { fl, rows, list, conn, neg })
                    .boxed()
            },
            Env::new,
            |env, q| {
                let (db, rows) = setup(env, q.fl, &q.rows)?;
                let nullable: Vec<usize> = (0..COLS.len()).filter(|i| COLS[*i].null).collect();
                let ci = nullable[q.list.0 as usize % nullable.len()];
                let mut list: Vec<SqlVal> = q.list.1.iter().map(|v| colval(&COLS[ci], *v)).collect();
                list.push(SqlVal::Null);
                let mut rc = RCond::In(ci, list);
                if q.neg {
                    rc = RCond::Not(Box::new(rc));
                }
                let other = RCond::Cmp(Cmp::Ge, 1, SqlVal::Int(1));
                rc = match if tu { 0 } else { q.conn % 3 } {
                    0 => rc,
                    1 => RCond::And(Box::new(other), Box::new(rc)),
                    _ => RCond::Or(Box::new(rc), Box::new(other)),
                };
                let n = check_query(&db, &rows, &rc, build(&rc, true))
                    .map_err(|f| if tu { Fail::new("turso-null-in-list", f.msg) } else { f })?;
                let mut o = Obs::new();
                o.nontrivial_if(n > 0 && n < rows.len());
                Ok(o)
            },
        );
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct W3 {
    fl: Fl,
    rows: Vec<RowSpec>,
    col: u8,
    form: u8,
    n: u16,
    at: Vec<(u8, u16)>,
    del: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct N3 {
    fl: Fl,
    rows: Vec<RowSpec>,
    list: (u8, Vec<u8>),
    conn: u8,
    neg: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct M3 {
    fl: Fl,
    rows: Vec<RowSpec>,
    t: u8,
    v: [u8; 4],
}
const NT: usize = 16;
fn ci(n: &str) -> usize {
    COLS.iter().position(|c| c.name == n).unwrap()
}
/// A filter! expression and what it means.
fn template(t: u8, v: &[u8; 4]) -> (RCond, BoolExpr) {
    let vals = |n: &str, i: usize| colval(&COLS[ci(n)], v[i]);
    let cmp = |op, n: &str, i: usize| RCond::Cmp(op, ci(n), vals(n, i));
    let and = |a, b| RCond::And(Box::new(a), Box::new(b));
    let or = |a, b| RCond::Or(Box::new(a), Box::new(b));
    let a: i32 = Un::un(&vals("a", 0));
    let s: String = Un::un(&vals("s", 1));
    let f: f64 = Un::un(&vals("f", 2));
    let b: Option<i32> = Un::un(&vals("b", 3));
    let big: i64 = Un::un(&vals("big", 0));
    let flag: bool = Un::un(&vals("flag", 1));
    let day: chrono::NaiveDate = Un::un(&vals("day", 2));
    let ots: Option<chrono::NaiveDateTime> = Un::un(&vals("ots", 3));
    let ou: Option<uuid::Uuid> = Un::un(&vals("ou", 3));
    let small: u8 = Un::un(&vals("small", 0));
    let js: serde_json::Value = Un::un(&vals("js", 0));
    match t as usize % NT {
        0 => (cmp(Cmp::Eq, "a", 0), filter!(Item, a == { a })),
        1 => (
            and(cmp(Cmp::Ge, "a", 0), cmp(Cmp::Ne, "s", 1)),
            filter!(Item, a >= { a } && s != { s }),
        ),
        2 => (
            or(and(cmp(Cmp::Lt, "a", 0), cmp(Cmp::Le, "f", 2)), cmp(Cmp::Eq, "s", 1)),
            filter!(Item, a < { a } && f <= { f } || s == { s }),
        ),
        3 => (
            or(cmp(Cmp::Eq, "s", 1), and(cmp(Cmp::Gt, "a", 0), cmp(Cmp::Gt, "f", 2))),
            filter!(Item, s == { s } || a > { a } && f > { f }),
        ),
        4 => (RCond::Cmp(Cmp::Eq, ci("t"), SqlVal::Null), filter!(Item, t == None)),
        5 => (
            and(RCond::Cmp(Cmp::Ne, ci("b"), SqlVal::Null), cmp(Cmp::Gt, "a", 0)),
            filter!(Item, b != None && a > { a }),
        ),
        6 => (cmp(Cmp::Eq, "b", 3), filter!(Item, b == { b })),
        7 => (
            RCond::Like(ci("s"), PATS[v[0] as usize % PATS.len()].into()),
            filter!(Item, s.like({ PATS[v[0] as usize % PATS.len()].to_string() })),
        ),
        8 => (
            RCond::In(ci("a"), vec![vals("a", 0), vals("a", 1), vals("a", 2)]),
            filter!(Item, a.is_in(vec![i32::un(&vals("a", 0)), i32::un(&vals("a", 1)), i32::un(&vals("a", 2))])),
        ),
        9 => (
            or(cmp(Cmp::Eq, "big", 0), cmp(Cmp::Eq, "flag", 1)),
            filter!(Item, big == { big } || flag == { flag }),
        ),
        10 => (
            and(and(cmp(Cmp::Ge, "day", 2), cmp(Cmp::Eq, "flag", 1)), cmp(Cmp::Ne, "big", 0)),
            filter!(Item, day >= { day } && flag == { flag } && big != { big }),
        ),
        11 => (cmp(Cmp::Ne, "ots", 3), filter!(Item, ots != { ots })),
        12 => (
            or(cmp(Cmp::Eq, "ou", 3), cmp(Cmp::Lt, "small", 0)),
            filter!(Item, ou == { ou } || small < { small }),
        ),
        13 => (
            and(RCond::Cmp(Cmp::Eq, ci("a"), SqlVal::Int(1)), RCond::Cmp(Cmp::Eq, ci("flag"), SqlVal::Bool(true))),
            filter!(Item, a == 1 && flag == true),
        ),
        14 => (
            or(RCond::Like(ci("s"), "a%".into()), RCond::Cmp(Cmp::Lt, ci("f"), SqlVal::Real(1.5))),
            filter!(Item, s.like("a%") || f < 1.5),
        ),
        _ => (cmp(Cmp::Eq, "js", 0), filter!(Item, js == { js })),
    }
}

// ---------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Q4 {
    fl: Fl,
    rows: Vec<RowSpec>,
    cond: Option<Cond>,
    terms: Vec<(u8, bool)>,
    limit: Option<u8>,
    offset: Option<u8>,
    shorthand: bool,
}
/// Columns whose ordering every backend defines alike.
fn sortable() -> Vec<usize> {
    (0..COLS.len()).filter(|i| COLS[*i].ty != Ty::Json).collect()
}
fn ord_key(fl: Fl, a: &SqlVal, b: &SqlVal, asc: bool) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    // NULLs: last in PostgreSQL's ascending order, first in SQLite's.
    let nulls_low = !fl.is_pg();
    let o = match (a == &SqlVal::Null, b == &SqlVal::Null) {
        (true, true) => Equal,
        (true, false) => if nulls_low { Less } else { Greater },
        (false, true) => if nulls_low { Greater } else { Less },
        _ => cmp_vals(a, b).unwrap(),
    };
    if asc { o } else { o.reverse() }
}

pub fn c04(ctx: &Ctx) {
    ctx.explore(
        "order-page",
        "generated sort terms, limit, offset and condition over 0-9 rows (few distinct values, so ties occur); the key is the last term; non-trivial: at least 3 rows match and a limit or offset cuts the sequence",
        ctx.cases(9000, 150_000),
        || {
            (
                any_fl(),
                proptest::collection::vec(
                    proptest::collection::vec(0u8..6, COLS.len() - 1).prop_map(RowSpec), 0..=9),
                proptest::option::weighted(0.4, cond_strategy(2)),
                proptest::collection::vec((any::<u8>(), any::<bool>()), 0..4),
                proptest::option::of(0u8..12),
                proptest::option::of(0u8..12),
                any::<bool>(),
            )
                .prop_map(|(fl, rows, cond, terms, limit, offset, shorthand)| Q4 { fl, rows, cond, terms, limit, offset, shorthand })
                .boxed()
        },
        Env::new,
        |env, q| {
            let (db, rows) = setup(env, q.fl, &q.rows)?;
            let fold = !q.fl.is_pg();
            let rc = q.cond.as_ref().map(|c| resolve_for(q.fl, c, &COLS));
            let sc = sortable();
            let mut terms: Vec<(usize, bool)> =
                q.terms.iter().map(|(c, a)| (sc[*c as usize % sc.len()], *a)).collect();
            let total = !q.terms.is_empty();
            if total {
                terms.push((0, q.terms.len() % 2 == 0));
            }
            let base = || {
                let mut qq: Query<Item> = Item::query();
                if let Some(rc) = &rc {
                    qq = qq.filter(build(rc, true));
                }
                for (c, asc) in &terms {
                    let name = COLS[*c].name;
                    use butane_core::query::OrderDirection::*;
                    qq = match (q.shorthand, asc) {
                        (true, true) => qq.order_asc(name),
                        (true, false) => qq.order_desc(name),
                        (false, true) => qq.order(name, Ascending),
                        (false, false) => qq.order(name, Descending),
                    };
                }
                qq
            };
            let mut matching: Vec<&Vec<SqlVal>> = rows
                .iter()
                .filter(|r| rc.as_ref().map(|c| eval(c, r, fold) == Some(true)).unwrap_or(true))
                .collect();
            matching.sort_by(|a, b| {
                for (c, asc) in &terms {
                    let o = ord_key(q.fl, &a[*c], &b[*c], *asc);
                    if o != std::cmp::Ordering::Equal {
                        return o;
                    }
                }
                std::cmp::Ordering::Equal
            });
            let all: Vec<i64> = matching.iter().map(|r| i64::un(&r[0])).collect();
            let off = q.offset.unwrap_or(0) as usize;
            let lim = q.limit.map(|l| l as usize).unwrap_or(usize::MAX);
            let want: Vec<i64> = all.iter().skip(off).take(lim).cloned().collect();
            let mut qq = base();
            // either order of the builder calls
            if q.shorthand {
                if let Some(l) = q.limit { qq = qq.limit(l as i32) }
                if let Some(l) = q.offset { qq = qq.offset(l as i32) }
            } else {
                if let Some(l) = q.offset { qq = qq.offset(l as i32) }
                if let Some(l) = q.limit { qq = qq.limit(l as i32) }
            }
            let ids = |r: butane_core::Result<Vec<Item>>| -> Result<Vec<i64>, Fail> {
                match r {
                    Ok(v) => Ok(v.iter().map(|x| x.id).collect()),
                    Err(e) => fail!("error", "{}: query {q:?}: {e}", q.fl.name()),
                }
            };
            let got = ids(db.c().load(qq.clone()))?;
            if total {
                ensure!(got == want, "wrong-sequence",
                    "{}: terms {terms:?} limit {:?} offset {:?}: got {got:?}, expected {want:?}", q.fl.name(), q.limit, q.offset);
            } else {
                // without sort terms any matching rows may be returned, but the right number and no repeats
                let mut s = got.clone();
                s.sort();
                s.dedup();
                ensure!(s.len() == got.len() && got.iter().all(|i| all.contains(i)) && got.len() == want.len(),
                    "wrong-page-size", "{}: limit {:?} offset {:?}: got {got:?} of {all:?}", q.fl.name(), q.limit, q.offset);
            }
            // load_first
            let first = match db.c().load_first(qq.clone()) {
                Ok(f) => f.map(|x| x.id),
                Err(e) => fail!("error", "{}: load_first {q:?}: {e}", q.fl.name()),
            };
            if q.limit != Some(0) {
                if total {
                    ensure!(first == want.first().cloned(), "wrong-first",
                        "{}: load_first gave {first:?}, sequence is {want:?}", q.fl.name());
                } else {
                    ensure!(first.is_some() == !want.is_empty() && first.map(|f| all.contains(&f)).unwrap_or(true),
                        "wrong-first", "{}: load_first gave {first:?}, candidates {all:?}", q.fl.name());
                }
            } else {
                ensure!(first.is_none(), "first-limit-zero", "{}: load_first of a query limited to 0 rows gave {first:?}", q.fl.name());
            }
            // pages
            if total {
                let step = (lim.clamp(1, 4)) as i32;
                let mut pages = Vec::new();
                let mut at = 0;
                loop {
                    let p = ids(db.c().load(base().limit(step).offset(at)))?;
                    let n = p.len();
                    pages.extend(p);
                    at += step;
                    if n < step as usize || at > 40 { break; }
                }
                ensure!(pages == all, "pages", "{}: pages of {step} give {pages:?}, whole is {all:?}", q.fl.name());
            }
            let mut o = Obs::new();
            o.nontrivial_if(all.len() >= 3 && want.len() < all.len() && total);
            o.label(q.fl.name());
            if q.offset.is_some() && q.limit.is_none() { o.label("offset-without-limit"); }
            if terms.len() > 2 { o.label("several-terms"); }
            if want.is_empty() { o.label("empty-result"); }
            Ok(o)
        },
    );
}

// ---------------------------------------------------------------------------------------
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Q5 {
    fl: Fl,
    rows: Vec<RowSpec>,
    dels: Vec<(Option<Cond>, Option<u8>, Option<u8>)>,
    in_tx: bool,
}
pub fn c05(ctx: &Ctx) {
    crate::c06::relational_delete(ctx);
    ctx.explore(
        "delete",
        "1-3 successive query deletes with generated conditions over 0-8 rows; non-trivial: some delete removes a proper non-empty subset with a compound condition",
        ctx.cases(7000, 120_000),
        || {
            (
                any_fl(),
                rows_strategy(8),
                proptest::collection::vec(
                    (
                        proptest::option::weighted(0.9, cond_strategy(4)),
                        proptest::option::weighted(0.2, 0u8..4), proptest::option::weighted(0.2, 0u8..4),
                    ),
                    1..4,
                ),
                any::<bool>(),
            )
                .prop_map(|(fl, rows, dels, in_tx)| Q5 { fl, rows, dels, in_tx })
                .boxed()
        },
        Env::new,
        |env, q| {
            let (mut db, rows) = setup(env, q.fl, &q.rows)?;
            let fold = !q.fl.is_pg();
            let mut left = rows.clone();
            let mut o = Obs::new();
            for (c, limit, offset) in &q.dels {
                let rc = c.as_ref().map(|c| resolve_for(q.fl, c, &COLS));
                let hit = |r: &Vec<SqlVal>| rc.as_ref().map(|c| eval(c, r, fold) == Some(true)).unwrap_or(true);
                let n = left.iter().filter(|r| hit(r)).count();
                let mk = || {
                    let mut qq = Item::query();
                    if let Some(rc) = &rc {
                        qq = qq.filter(build(rc, true));
                    }
                    qq
                };
                // Paging and order do not affect what is deleted
                let mkd = || {
                    let mut qq = mk();
                    if let Some(n) = limit {
                        qq = qq.limit(*n as i32);
                    }
                    if let Some(n) = offset {
                        qq = qq.offset(*n as i32).order_desc("id");
                    }
                    qq
                };
                let sel = match db.c().load(mk()) {
                    Ok(v) => v.len(),
                    Err(e) => fail!("error", "{}: load for {rc:?}: {e}", q.fl.name()),
                };
                let r = if q.in_tx {
                    match db.tx(|c| (c.delete_q(mkd()), TxEnd::Commit)) {
                        Ok((r, Ok(()))) => r,
                        Ok((Err(e), _)) => Err(e),
                        Ok((_, Err(e))) | Err(e) => fail!("error", "{}: transaction: {e}", q.fl.name()),
                    }
                } else {
                    db.c().delete_q(mkd())
                };
                let cnt = match r {
                    Ok(c) => c,
                    Err(e) => fail!("error", "{}: delete for {rc:?}: {e}", q.fl.name()),
                };
                let before = left.len();
                left.retain(|r| !hit(r));
                let mut got: Vec<Item> = match db.c().all() {
                    Ok(v) => v,
                    Err(e) => fail!("error", "{}: load: {e}", q.fl.name()),
                };
                got.sort_by_key(|x| x.id);
                let want: Vec<Item> = left.iter().map(|r| item(r)).collect();
                ensure!(got == want, "wrong-rows-left", "{}: after delete {rc:?} ids {:?} are left, expected {:?}",
                    q.fl.name(), got.iter().map(|x| x.id).collect::<Vec<_>>(), want.iter().map(|x| x.id).collect::<Vec<_>>());
                ensure!(cnt == n && sel == n, "wrong-count", "{}: delete {rc:?} reported {cnt}, query had {sel}, expected {n}", q.fl.name());
                if n > 0 && n < before {
                    o.label("proper-subset");
                    o.nontrivial_if(rc.as_ref().map(|c| size(c) > 0).unwrap_or(false));
                }
                if c.is_none() { o.label("no-condition"); }
            }
            sentinel_ok(&db)?;
            o.label(q.fl.name());
            Ok(o)
        },
    );
}
