//! C13 all backends give the same answers: lock-step runs on SQLite, PostgreSQL and Turso.
use crate::cond::*;
use crate::db::*;
use crate::engine::*;
use crate::items::*;
use crate::models::*;
use crate::vals::*;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::query::{BoolExpr, Expr, Order, OrderDirection, Query};
use butane_core::{DataObject, DataResult, SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// Which API style each of the three backends is used through.
type Styles = [bool; 3];
fn fls(s: &Styles) -> [Fl; 3] {
    [
        if s[0] { Fl::SqA } else { Fl::SqS },
        if s[1] { Fl::PgS } else { Fl::PgA },
        if s[2] { Fl::TuS } else { Fl::TuA },
    ]
}
fn s_styles() -> BoxedStrategy<Styles> {
    (any::<bool>(), proptest::bool::weighted(0.3), any::<bool>()).prop_map(|(a, b, c)| [a, b, c]).boxed()
}

// ---- calls

const TABS: [&str; 5] = ["AutoA", "IntK", "UniqK", "StrK", "OnlyPk"];
fn cols_of(t: usize) -> Vec<(&'static str, SqlType)> {
    match t {
        0 | 1 => vec![("id", SqlType::BigInt), ("name", SqlType::Text), ("n", SqlType::Int)],
        2 => vec![("id", SqlType::BigInt), ("name", SqlType::Text), ("n", SqlType::Int), ("plain", SqlType::Int)],
        3 => vec![("name", SqlType::Text), ("n", SqlType::Int)],
        _ => vec![("id", SqlType::BigInt)],
    }
}
const WORDS: [&str; 7] = ["a", "b", "", "B", "a b", "Ü", "''"];
fn value(name: &str, v: u8) -> SqlVal {
    match name {
        "id" => SqlVal::BigInt([1, 2, 3, -1, i64::MAX, 0][v as usize % 6]),
        "name" => SqlVal::Text(WORDS[v as usize % WORDS.len()].into()),
        _ if v % 5 == 4 => SqlVal::Null,
        _ => SqlVal::Int([0, 1, 2, -7][v as usize % 5]),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Call {
    /// `skip` leaves a column out, `null` makes one NULL.
    Insert { t: u8, v: [u8; 4], skip: Option<u8>, null: Option<u8> },
    Upsert { t: u8, v: [u8; 4] },
    InsertPk { v: [u8; 2] },
    Update { t: u8, pk: u8, v: [u8; 4], skip: Option<u8> },
    Delete { t: u8, pk: u8 },
    DeleteWhere { t: u8, c: Cnd },
    Query { t: u8, c: Option<Cnd>, sort: Vec<(u8, bool)>, limit: Option<u8>, offset: Option<u8>, cols: u8 },
    HasTable { n: u8 },
    Wrong { how: u8 },
}
/// A condition on a table's columns.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Cnd {
    Cmp(u8, u8, u8),
    Like(u8, u8),
    In(u8, Vec<u8>),
    And(Box<Cnd>, Box<Cnd>),
    Or(Box<Cnd>, Box<Cnd>),
    Not(Box<Cnd>),
    AllOf(Vec<Cnd>),
    True,
}
fn s_cnd() -> BoxedStrategy<Cnd> {
    let leaf = prop_oneof![
        6 => (any::<u8>(), 0u8..6, any::<u8>()).prop_map(|(c, o, v)| Cnd::Cmp(c, o, v)),
        1 => (any::<u8>(), 0u8..6).prop_map(|(c, p)| Cnd::Like(c, p)),
        1 => Just(Cnd::True),
    ];
    let inner = leaf.prop_recursive(3, 8, 2, |i| {
        prop_oneof![
            (i.clone(), i.clone()).prop_map(|(a, b)| Cnd::And(Box::new(a), Box::new(b))),
            (i.clone(), i.clone()).prop_map(|(a, b)| Cnd::Or(Box::new(a), Box::new(b))),
            i.clone().prop_map(|a| Cnd::Not(Box::new(a))),
            proptest::collection::vec(i, 0..3).prop_map(Cnd::AllOf),
        ]
    });
    prop_oneof![8 => inner, 1 => (any::<u8>(), proptest::collection::vec(any::<u8>(), 0..3)).prop_map(|(c, v)| Cnd::In(c, v))].boxed()
}
fn leak_free(t: usize, c: &Cnd) -> BoolExpr {
    let cols = cols_of(t);
    let col = |c: &u8| cols[*c as usize % cols.len()].0;
    match c {
        Cnd::Cmp(c, o, v) => {
            let n = col(c);
            let e = Expr::Val(value(n, *v));
            match o {
                0 => BoolExpr::Eq(n, e),
                1 => BoolExpr::Ne(n, e),
                2 => BoolExpr::Lt(n, e),
                3 => BoolExpr::Gt(n, e),
                4 => BoolExpr::Le(n, e),
                _ => BoolExpr::Ge(n, e),
            }
        }
        Cnd::Like(c, p) => {
            let n = if cols.iter().any(|x| x.0 == "name") { "name" } else { return BoolExpr::Eq(col(c), Expr::Val(SqlVal::BigInt(2))) };
            // no letters: every backend's LIKE treats those differently
            BoolExpr::Like(n, Expr::Val(SqlVal::Text(["%", "_", "% %", "''", "__", ""][*p as usize % 6].into())))
        }
        Cnd::In(c, v) => {
            // turso's engine mishandles NULLs here
            let n = match col(c) {
                "n" | "plain" => cols[0].0,
                n => n,
            };
            BoolExpr::In(n, v.iter().map(|v| value(n, *v)).collect())
        }
        Cnd::And(a, b) => BoolExpr::And(Box::new(leak_free(t, a)), Box::new(leak_free(t, b))),
        Cnd::Or(a, b) => BoolExpr::Or(Box::new(leak_free(t, a)), Box::new(leak_free(t, b))),
        Cnd::Not(a) => BoolExpr::Not(Box::new(leak_free(t, a))),
        Cnd::AllOf(v) => BoolExpr::AllOf(v.iter().map(|a| leak_free(t, a)).collect()),
        Cnd::True => BoolExpr::True,
    }
}
fn s_call() -> BoxedStrategy<Call> {
    let t = || 1u8..TABS.len() as u8;
    let v4 = any::<[u8; 4]>;
    let opt = |w| proptest::option::weighted(w, any::<u8>());
    prop_oneof![
        6 => (t(), v4(), opt(0.1), opt(0.1)).prop_map(|(t, v, skip, null)| Call::Insert { t, v, skip, null }),
        4 => (t(), v4()).prop_map(|(t, v)| Call::Upsert { t, v }),
        2 => any::<[u8; 2]>().prop_map(|v| Call::InsertPk { v }),
        4 => (t(), any::<u8>(), v4(), opt(0.4)).prop_map(|(t, pk, v, skip)| Call::Update { t, pk, v, skip }),
        2 => (t(), any::<u8>()).prop_map(|(t, pk)| Call::Delete { t, pk }),
        2 => (t(), s_cnd()).prop_map(|(t, c)| Call::DeleteWhere { t, c }),
        5 => (t(), proptest::option::weighted(0.7, s_cnd()), proptest::collection::vec(any::<(u8, bool)>(), 0..3),
              proptest::option::weighted(0.4, 0u8..5), proptest::option::weighted(0.4, 0u8..5), any::<u8>())
            .prop_map(|(t, c, sort, limit, offset, cols)| Call::Query { t, c, sort, limit, offset, cols }),
        1 => (0u8..13).prop_map(|n| Call::HasTable { n }),
        1 => (0u8..5).prop_map(|how| Call::Wrong { how }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    /// `None`: no transaction; else whether it commits.
    tx: Option<bool>,
    calls: Vec<Call>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    st: Styles,
    segs: Vec<Seg>,
}
#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Ok,
    /// With the error, not compared.
    Err,
    N(usize),
    Rows(Vec<Vec<SqlVal>>),
    Bool(bool),
}
fn col(c: &(&'static str, SqlType)) -> Column {
    Column::new(c.0, c.1.clone())
}
fn call(c: &C, q: &Call, err: &mut String) -> Ans {
    let mut done = |r: butane_core::Result<Ans>| match r {
        Ok(a) => a,
        Err(e) => {
            *err = e.to_string();
            Ans::Err
        }
    };
    match q {
        Call::Insert { t, v, skip, null } => {
            let t = *t as usize;
            let mut cs = Vec::new();
            let mut vs = Vec::new();
            let all = cols_of(t);
            for (i, x) in all.iter().enumerate() {
                // (turso's engine refuses an insert that leaves out a nullable unique column)
                if skip.map(|s| s as usize % all.len() == i && i > 0).unwrap_or(false) && !(t == 2 && x.0 == "n") {
                    continue;
                }
                cs.push(col(x));
                // the key stays: a NULL key is another matter
                let nul = null.map(|s| s as usize % all.len() == i && i > 0).unwrap_or(false);
                vs.push(if nul { SqlVal::Null } else { value(x.0, v[i]) });
            }
            done(c.insert_only(TABS[t], &cs, &vs).map(|_| Ans::Ok))
        }
        Call::Upsert { t, v } => {
            let t = *t as usize;
            let all = cols_of(t);
            let cs: Vec<Column> = all.iter().map(col).collect();
            let vs: Vec<SqlVal> = all.iter().enumerate().map(|(i, x)| value(x.0, v[i])).collect();
            done(c.insert_or_replace(TABS[t], &cs, &cs[0].clone(), &vs).map(|_| Ans::Ok))
        }
        Call::InsertPk { v } => {
            let all = cols_of(0);
            let cs: Vec<Column> = all[1..].iter().map(col).collect();
            let vs = [value("name", v[0]), value("n", v[1])];
            done(c.insert_returning_pk(TABS[0], &cs, &col(&all[0]), &vs).map(|k| Ans::Bool(k == SqlVal::Null)))
        }
        Call::Update { t, pk, v, skip } => {
            let t = *t as usize;
            let all = cols_of(t);
            let mut cs = Vec::new();
            let mut vs = Vec::new();
            for (i, x) in all.iter().enumerate().skip(1) {
                if skip.map(|s| s as usize % all.len() == i).unwrap_or(false) && all.len() > 2 {
                    continue;
                }
                cs.push(col(x));
                vs.push(value(x.0, v[i]));
            }
            if cs.is_empty() {
                return Ans::Ok;
            }
            done(c.update(TABS[t], col(&all[0]), &value(all[0].0, *pk), &cs, &vs).map(|_| Ans::Ok))
        }
        Call::Delete { t, pk } => {
            let t = *t as usize;
            let k = cols_of(t)[0].0;
            done(c.delete_pk(TABS[t], k, value(k, *pk)).map(|_| Ans::Ok))
        }
        Call::DeleteWhere { t, c: e } => {
            let t = *t as usize;
            done(c.delete_where(TABS[t], leak_free(t, e)).map(Ans::N))
        }
        Call::Query { t, c: e, sort, limit, offset, cols } => {
            let t = *t as usize;
            let all = cols_of(t);
            let pick: Vec<Column> = all.iter().enumerate().filter(|(i, _)| cols >> i & 1 == 1).map(|(_, x)| col(x)).collect();
            let pick = if pick.is_empty() { vec![col(&all[0])] } else { pick };
            let mut so: Vec<Order> = sort
                .iter()
                .map(|(i, d)| (all[*i as usize % all.len()].0, *d))
                .filter(|(n, _)| *n != "n") // NULLs sort differently
                .map(|(n, d)| Order { column: n, direction: if d { OrderDirection::Ascending } else { OrderDirection::Descending } })
                .collect();
            so.push(Order { column: all[0].0, direction: OrderDirection::Ascending });
            done(
                c.query(TABS[t], &pick, e.as_ref().map(|e| leak_free(t, e)), limit.map(|x| x as i32), offset.map(|x| x as i32), Some(&so))
                    .map(Ans::Rows),
            )
        }
        Call::HasTable { n } => {
            let names = ["IntK", "UniqK", "nope", "", "Sentinel", "StrK", "butane_migrations", "x y", "Columns", "TRIGGERS", "pg_class", "sqlite_master_", "intk"];
            done(c.has_table(names[*n as usize % names.len()]).map(Ans::Bool))
        }
        Call::Wrong { how } => {
            let id = Column::new("id", SqlType::BigInt);
            done(match how % 5 {
                0 => c.insert_only("no_such_table", &[id], &[SqlVal::BigInt(1)]).map(|_| Ans::Ok),
                1 => c.insert_only("IntK", &[Column::new("nope", SqlType::BigInt)], &[SqlVal::BigInt(1)]).map(|_| Ans::Ok),
                2 => c.delete_where("no_such_table", BoolExpr::True).map(Ans::N),
                3 => c.query("IntK", &[Column::new("nope", SqlType::BigInt)], Some(BoolExpr::Eq("nope", Expr::Val(SqlVal::BigInt(1)))), None, None, None).map(Ans::Rows),
                _ => c.update("no_such_table", id.clone(), &SqlVal::BigInt(1), &[id], &[SqlVal::BigInt(1)]).map(|_| Ans::Ok),
            })
        }
    }
}
fn everything(c: &C) -> butane_core::Result<Vec<Vec<Vec<SqlVal>>>> {
    (0..TABS.len())
        .map(|t| {
            let all = cols_of(t);
            // automatic keys are each database's own
            let cs: Vec<Column> = all.iter().skip((t == 0) as usize).map(col).collect();
            c.query(TABS[t], &cs, None, None, None, Some(&[Order { column: all[0].0, direction: OrderDirection::Ascending }]))
        })
        .collect()
}
fn calls(env: &mut Env, q: &Case) -> R {
    let schema = crate::schema::schema(&TABS);
    let fl = fls(&q.st);
    let mut dbs: Vec<Db> = fl.iter().map(|f| env.fresh(*f, &schema)).collect();
    let (mut oks, mut errs, mut rows) = (0, 0, 0);
    for (si, seg) in q.segs.iter().enumerate() {
        // In a transaction the first error ends it on all of them: PostgreSQL refuses to go on.
        let mut answers: Vec<Vec<(Ans, String)>> = Vec::new();
        for db in &mut dbs {
            let mut out = Vec::new();
            let name = db.fl.name();
            let go = |c: &C, out: &mut Vec<(Ans, String)>, stop: bool| -> bool {
                for x in &seg.calls {
                    let mut err = String::new();
                    let a = call(c, x, &mut err);
                    let bad = a == Ans::Err;
                    out.push((a, err));
                    if bad && stop {
                        return false;
                    }
                }
                true
            };
            match seg.tx {
                None => {
                    go(&db.c(), &mut out, false);
                }
                Some(commit) => {
                    let r = db.tx(|c| {
                        let ok = go(c, &mut out, true);
                        ((), if commit && ok { TxEnd::Commit } else { TxEnd::Rollback })
                    });
                    match r {
                        Ok((_, Ok(()))) => {}
                        Ok((_, Err(e))) | Err(e) => fail!("transaction", "{name}: segment {si}: {e}"),
                    }
                }
            }
            answers.push(out);
        }
        for i in 0..answers[0].len().max(answers[1].len()).max(answers[2].len()) {
            let a: Vec<Option<&(Ans, String)>> = answers.iter().map(|a| a.get(i)).collect();
            let same = |x: &Option<&(Ans, String)>| x.map(|x| &x.0) == a[0].map(|x| &x.0);
            // turso counts rows found through an index twice (known finding of C05)
            let counts = matches!(seg.calls[i], Call::DeleteWhere { .. })
                && a[1].map(|x| &x.0) == a[0].map(|x| &x.0)
                && matches!((a[0], a[2]), (Some((Ans::N(x), _)), Some((Ans::N(y), _))) if y >= x && y <= &(2 * x));
            if !a.iter().all(same) && !counts {
                fail!(
                    format!("differ-{}", format!("{:?}", seg.calls[i]).split([' ', '(']).next().unwrap()),
                    "segment {si} call {i} {:?}: {} gives {:?}, {} gives {:?}, {} gives {:?}",
                    seg.calls[i], fl[0].name(), a[0], fl[1].name(), a[1], fl[2].name(), a[2]
                );
            }
            match a[0] {
                Some((Ans::Err, _)) => errs += 1,
                Some((Ans::Rows(r), _)) => rows += r.len(),
                _ => oks += 1,
            }
        }
        let mut dumps = Vec::new();
        for db in &dbs {
            match everything(&db.c()) {
                Ok(d) => dumps.push(d),
                Err(e) => fail!("dump", "{}: {e}", db.fl.name()),
            }
        }
        for k in 1..3 {
            for t in 0..TABS.len() {
                ensure!(dumps[k][t] == dumps[0][t], "contents-differ", "after segment {si} {} holds {:?} on {} and {:?} on {}",
                    TABS[t], dumps[0][t], fl[0].name(), dumps[k][t], fl[k].name());
            }
        }
    }
    let mut o = Obs::new();
    o.nontrivial = oks >= 4 && rows > 0;
    if errs > 0 {
        o.label("with-errors");
    }
    if q.segs.iter().any(|s| s.tx.is_some()) {
        o.label("with-transactions");
    }
    Ok(o)
}

// ---- queries and values

#[derive(Clone, Debug, Serialize, Deserialize)]
struct QCase {
    st: Styles,
    rows: Vec<RowSpec>,
    cond: Option<Cond>,
    terms: Vec<(u8, bool)>,
    limit: Option<u8>,
    offset: Option<u8>,
    del: bool,
}
fn queries(env: &mut Env, q: &QCase) -> R {
    let fl = fls(&q.st);
    let rc = q.cond.as_ref().map(|c| resolve_for(Fl::TuA, c, &COLS));
    let mut got: Vec<(Vec<Item>, Option<Item>, usize, Vec<Item>)> = Vec::new();
    for f in fl {
        let (db, rows) = setup(env, f, &q.rows)?;
        if let Some(rc) = &rc {
            // letter case counts only on PostgreSQL
            if rows.iter().any(|r| eval(rc, r, true) != eval(rc, r, false)) {
                let mut o = Obs::new();
                o.label("case-dependent");
                return Ok(o);
            }
        }
        let sortable: Vec<usize> = (0..COLS.len()).filter(|i| !COLS[*i].null && COLS[*i].ty != Ty::Json).collect();
        let mk = || {
            let mut qq: Query<Item> = Item::query();
            if let Some(rc) = &rc {
                qq = qq.filter(build(rc, true));
            }
            for (c, asc) in &q.terms {
                let n = COLS[sortable[*c as usize % sortable.len()]].name;
                qq = if *asc { qq.order_asc(n) } else { qq.order_desc(n) };
            }
            qq = qq.order_asc("id");
            if let Some(l) = q.limit {
                qq = qq.limit(l as i32);
            }
            if let Some(l) = q.offset {
                qq = qq.offset(l as i32);
            }
            qq
        };
        let e = |e: butane_core::Error| Fail::new("error", format!("{}: {rc:?} {e}", f.name()));
        let v = db.c().load(mk()).map_err(e)?;
        let one = db.c().load_first(mk()).map_err(e)?;
        let n = if q.del { db.c().delete_q(mk()).map_err(e)? } else { 0 };
        let left = db.c().load(Item::query().order_asc("id")).map_err(e)?;
        got.push((v, one, n, left));
    }
    for k in 1..3 {
        let id = |v: &Vec<Item>| v.iter().map(|x| x.id).collect::<Vec<_>>();
        ensure!(got[k].0 == got[0].0, "rows-differ", "{} selects {:?}, {} selects {:?} ({rc:?})", fl[0].name(), id(&got[0].0), fl[k].name(), id(&got[k].0));
        ensure!(got[k].1 == got[0].1, "first-differs", "{} and {} give different first rows ({rc:?})", fl[0].name(), fl[k].name());
        ensure!(got[k].2 == got[0].2, "count-differs", "{} deletes {}, {} deletes {} ({rc:?})", fl[0].name(), got[0].2, fl[k].name(), got[k].2);
        ensure!(got[k].3 == got[0].3, "left-differs", "{} leaves {:?}, {} leaves {:?} ({rc:?})", fl[0].name(), id(&got[0].3), fl[k].name(), id(&got[k].3));
    }
    let mut o = Obs::new();
    let n = got[0].0.len();
    o.nontrivial = n > 0 && n < q.rows.len();
    Ok(o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VCase {
    st: Styles,
    rows: Vec<VRow>,
}
fn values(env: &mut Env, q: &VCase) -> R {
    let fl = fls(&q.st);
    let mut read: Vec<Vec<Option<Vals>>> = Vec::new();
    for f in fl {
        let db = env.fresh(f, &crate::schema::schema(&["Vals"]));
        let mut out = Vec::new();
        for (i, r) in q.rows.iter().enumerate() {
            let mut v = crate::c01::vals(i as i64, r);
            out.push(match db.c().save(&mut v) {
                Ok(()) => match db.c().get::<Vals>(i as i64) {
                    Ok(v) => Some(v),
                    Err(e) => fail!("read", "{}: {e}", f.name()),
                },
                Err(_) => None,
            });
        }
        read.push(out);
    }
    let mut all = 0;
    for i in 0..q.rows.len() {
        for k in 1..3 {
            if let (Some(a), Some(b)) = (&read[0][i], &read[k][i]) {
                let d = crate::c01::diff_vals(a, b);
                ensure!(d.is_empty(), "values-differ", "{} (stored) and {} (read): {}", fl[0].name(), fl[k].name(), d.join("; "));
                all += 1;
            }
        }
    }
    let mut o = Obs::new();
    o.nontrivial = all == 2 * q.rows.len() && all > 0;
    Ok(o)
}

// ---- relations

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RCase {
    st: Styles,
    g: crate::c06::Graph,
    conds: Vec<crate::c06::RP>,
    full: bool,
}
fn relations(env: &mut Env, q: &RCase) -> R {
    use crate::c06::*;
    let fl = fls(&q.st);
    let g = if q.full { with_parents(&q.g) } else { q.g.clone() };
    let mut all: Vec<Vec<Vec<usize>>> = Vec::new();
    let mut links = Vec::new();
    for f in fl {
        let db = env.fresh(f, &models());
        let b = build_graph(&db.c(), &g)?;
        let pos = |v: &[Post]| -> Vec<usize> { v.iter().map(|p| b.posts.iter().position(|x| x.id == p.id).unwrap_or(99)).collect() };
        let e = |e: butane_core::Error| Fail::new("error", format!("{}: {e}", f.name()));
        let mut out = Vec::new();
        for c in &q.conds {
            let c = turso_rp(c, q.full, true);
            let v: Vec<Post> = db.c().load(Post::query().filter(b.xp(&c, true)).order_asc("id")).map_err(e)?;
            out.push(pos(&v));
        }
        let posts: Vec<Post> = db.c().load(Post::query().order_asc("id")).map_err(e)?;
        let mut l = Vec::new();
        for p in &posts {
            let mut t: Vec<String> = db.c().many_load(&p.tags).map_err(e)?.into_iter().map(|t| t.tag).collect();
            t.sort();
            let blog: Blog = db.c().fk_load(&p.blog).map_err(e)?;
            l.push((p.title.clone(), p.likes, t, blog.name));
        }
        links.push(l);
        all.push(out);
    }
    for k in 1..3 {
        ensure!(all[k] == all[0], "rows-differ", "{:?}: {} selects {:?}, {} selects {:?}", q.conds, fl[0].name(), all[0], fl[k].name(), all[k]);
        ensure!(links[k] == links[0], "links-differ", "{} has {:?}, {} has {:?}", fl[0].name(), links[0], fl[k].name(), links[k]);
    }
    let mut o = Obs::new();
    o.nontrivial = all[0].iter().any(|v| !v.is_empty());
    Ok(o)
}

pub fn c13(ctx: &Ctx) {
    ctx.explore(
        "calls",
        "1-4 segments of connection-level calls (inserts, upserts, updates, deletes, queries, wrong calls), in and outside transactions, in lock-step on SQLite, PostgreSQL and Turso; non-trivial: at least 4 successful changes and a query returning rows",
        ctx.cases(2000, 60_000),
        || {
            let seg = (proptest::option::weighted(0.4, proptest::bool::weighted(0.7)), proptest::collection::vec(s_call(), 0..10))
                .prop_map(|(tx, calls)| Seg { tx, calls });
            (s_styles(), proptest::collection::vec(seg, 1..5)).prop_map(|(st, segs)| Case { st, segs }).boxed()
        },
        Env::new,
        |e, q| calls(e, q),
    );
    ctx.explore(
        "queries",
        "a generated query (condition, order, page) and a delete with it on the same 0-7 rows on the three backends; non-trivial: a proper non-empty subset is selected",
        ctx.cases(2000, 40_000),
        || {
            (s_styles(), rows_strategy(7), proptest::option::weighted(0.8, cond_strategy(3)), proptest::collection::vec(any::<(u8, bool)>(), 0..3),
             proptest::option::weighted(0.3, 0u8..6), proptest::option::weighted(0.3, 0u8..6), any::<bool>())
                .prop_map(|(st, rows, cond, terms, limit, offset, del)| QCase { st, rows, cond, terms, limit, offset, del })
                .boxed()
        },
        Env::new,
        |e, q| queries(e, q),
    );
    ctx.explore(
        "values",
        "1-3 rows of values of every field type stored and read back on the three backends; non-trivial: every backend accepts all of them",
        ctx.cases(1500, 40_000),
        || (s_styles(), proptest::collection::vec(s_row(), 1..4)).prop_map(|(st, rows)| VCase { st, rows }).boxed(),
        Env::new,
        |e, q| values(e, q),
    );
    ctx.explore(
        "relations",
        "relational conditions and links over the same object graph on the three backends; non-trivial: something is selected",
        ctx.cases(500, 20_000),
        || {
            (s_styles(), crate::c06::s_graph(true), proptest::collection::vec(crate::c06::s_rp(), 1..4), any::<bool>())
                .prop_map(|(st, g, conds, full)| RCase { st, g, conds, full })
                .boxed()
        },
        Env::new,
        |e, q| relations(e, q),
    );
    ctx.explore(
        "cursor",
        "a walk over the rows of a query by next and current, given up at any point, followed by a change, on the three backends, in and outside a transaction; non-trivial: current is asked for before, amid and after the rows",
        ctx.cases(1000, 10_000),
        || {
            (s_styles(), 0u8..6, proptest::collection::vec(any::<bool>(), 0..16), any::<bool>())
                .prop_map(|(st, n, ops, tx)| UCase { st, n, ops, tx })
                .boxed()
        },
        Env::new,
        |e, q| cursor(e, q),
    );
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct UCase {
    st: Styles,
    n: u8,
    /// Next or current.
    ops: Vec<bool>,
    tx: bool,
}
fn cursor(env: &mut Env, q: &UCase) -> R {
    let row = |i: i64| vec![SqlVal::BigInt(i), SqlVal::Text(format!("r{i}")), if i % 2 == 0 { SqlVal::Null } else { SqlVal::Int(i as i32) }];
    let cols: Vec<Column> = cols_of(1).into_iter().map(|(n, t)| Column::new(n, t)).collect();
    let mut want = Vec::new();
    let mut at = 0usize;
    let mut cur: Option<Vec<SqlVal>> = None;
    let (mut before, mut amid, mut after) = (false, false, false);
    for next in &q.ops {
        if *next {
            at += 1;
            cur = (at <= q.n as usize).then(|| row(at as i64));
        } else {
            before |= at == 0;
            amid |= cur.is_some();
            after |= at > q.n as usize;
        }
        want.push(cur.clone());
    }
    for f in fls(&q.st) {
        let mut db = env.fresh(f, &crate::schema::schema(&["IntK"]));
        let e = |e: butane_core::Error| Fail::new("error", format!("{}: {e}", f.name()));
        for i in 1..=q.n as i64 {
            db.c().insert_only("IntK", &cols, &row(i)).map_err(e)?;
        }
        let body = |c: &C| -> Result<(), Fail> {
            let got = c.walk("IntK", &cols, &[Order { direction: OrderDirection::Ascending, column: "id" }], &q.ops).map_err(e)?;
            ensure!(got == want, "cursor", "{}: steps {:?} (true for next) over {} rows gave {got:?}, expected {want:?}", f.name(), q.ops, q.n);
            c.insert_only("IntK", &cols, &row(100)).map_err(e)?;
            let all = c.all::<IntK>().map_err(e)?;
            ensure!(all.len() == q.n as usize + 1, "cursor-then-insert", "{}: {} rows", f.name(), all.len());
            Ok(())
        };
        if q.tx {
            match db.tx(|c| (body(c), TxEnd::Commit)) {
                Ok((r, end)) => {
                    r?;
                    end.map_err(e)?;
                }
                Err(x) => return Err(e(x)),
            }
        } else {
            body(&db.c())?;
        }
        let n = db.c().all::<IntK>().map_err(e)?.len();
        ensure!(n == q.n as usize + 1, "cursor-lost", "{}: {n} rows", f.name());
    }
    let mut o = Obs::new();
    o.nontrivial = before && amid && after;
    Ok(o)
}
