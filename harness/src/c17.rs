//! C17 the record of applied migrations, C18 failing migrations leave no trace, C19 the schema
//! difference is exact and minimal.
use crate::c14::{check_schema, down_sql, up_sql};
use crate::db::*;
use crate::engine::*;
use crate::mig::*;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::migrations::adb::*;
use butane_core::migrations::{MemMigration, MemMigrations, MigrationMut, MigrationsMut};
use butane_core::{SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

/// Names for migrations, in no particular order.
fn names(seed: u8) -> Vec<String> {
    let all = [
        "20240101_init", "zz", "a", "it's", "1", "é migration", "20230101_later", "current2", "B", "b",
        "\"q\"", "x;y--",
    ];
    (0..all.len()).map(|i| all[(i * 5 + seed as usize) % all.len()].to_string()).collect()
}
/// The steps of the chain up to the first that may be refused in either direction.
fn sure_steps(fl: Fl, chain: &Chain, names: &[String]) -> Result<Vec<Step>, Fail> {
    let (_, mut steps) = build_named(chain, names)?;
    let none = Rows::default();
    if let Some(i) = steps.iter().position(|s| {
        !may_refuse(fl, &s.from, &s.to, &none).is_empty() || !may_refuse(fl, &s.to, &s.from, &none).is_empty()
    }) {
        steps.truncate(i);
    }
    Ok(steps)
}
fn state(steps: &[Step], k: usize) -> Flat {
    if k == 0 { Flat::default() } else { steps[k - 1].to.clone() }
}
/// The record and the schema say that the first `k` migrations are applied.
fn check(env: &Env, db: &mut Db, steps: &[Step], made: usize, k: usize, what: &str) -> Result<(), Fail> {
    let want: Vec<&str> = steps[..k].iter().map(|s| s.name.as_str()).collect();
    let got = recorded(db, what)?;
    ensure!(
        got == want.iter().map(|s| s.to_string()).collect(),
        "record",
        "{what}: the record is {got:?}, applied are {want:?}"
    );
    let ms = prefix(steps, made);
    let (m1, m2) = (ms.clone(), ms);
    let last = match db.with_sync(move |c| c.last_applied(&m1)) {
        Ok(l) => l,
        Err(e) => fail!("last-applied", "{what}: {e}"),
    };
    ensure!(
        last.as_deref() == want.last().copied(),
        "last-applied",
        "{what}: the last applied migration is {last:?}, expected {:?}",
        want.last()
    );
    let un = match db.with_sync(move |c| c.unapplied(&m2)) {
        Ok(l) => l,
        Err(e) => fail!("unapplied", "{what}: {e}"),
    };
    let rest: Vec<&str> = steps[k.min(made)..made].iter().map(|s| s.name.as_str()).collect();
    ensure!(un == rest, "unapplied", "{what}: unapplied are {un:?}, expected {rest:?}");
    check_schema(env, db, &state(steps, k), steps, what)
}
fn recorded(db: &Db, what: &str) -> Result<BTreeSet<String>, Fail> {
    let c = db.c();
    match c.has_table("butane_migrations") {
        Ok(false) => return Ok(BTreeSet::new()),
        Ok(true) => {}
        Err(e) => fail!("has-table", "{what}: {e}"),
    }
    match c.query("butane_migrations", &[Column::new("name", SqlType::Text)], None, None, None, None) {
        Ok(r) => {
            let all: Vec<String> = r
                .iter()
                .map(|r| match &r[0] {
                    SqlVal::Text(t) => t.clone(),
                    v => format!("{v:?}"),
                })
                .collect();
            let set: BTreeSet<String> = all.iter().cloned().collect();
            ensure!(set.len() == all.len(), "record-twice", "{what}: the record is {all:?}");
            Ok(set)
        }
        Err(e) => fail!("record-unreadable", "{what}: {e}"),
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Op {
    /// Another migration is created.
    Make,
    Migrate,
    /// Applies the next migration only.
    Apply,
    Down,
    Unmigrate,
    Reconnect,
    /// Migrates with a set that ends before what is applied.
    Old(u8),
    Flip,
    Rows,
}
fn s_op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => Just(Op::Make), 3 => Just(Op::Migrate), 3 => Just(Op::Apply), 3 => Just(Op::Down),
        1 => Just(Op::Unmigrate), 2 => Just(Op::Reconnect), 2 => any::<u8>().prop_map(Op::Old),
        1 => Just(Op::Flip),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct HCase {
    fl: Fl,
    names: u8,
    chain: Chain,
    made: u8,
    ops: Vec<Op>,
}
fn run17(env: &mut Env, q: &HCase) -> R {
    let mut o = Obs::new();
    o.label(q.fl.backend());
    let names = names(q.names);
    let steps = sure_steps(q.fl, &q.chain, &names)?;
    let reconnects = q.ops.iter().any(|o| matches!(o, Op::Reconnect));
    let mut db = env.open(q.fl, reconnects);
    let mut made = (q.made as usize).min(steps.len());
    let mut k = 0;
    let mut done = 0;
    check(env, &mut db, &steps, made, k, "an empty database")?;
    for (i, op) in q.ops.iter().enumerate() {
        let what = format!("{} after operation {i} ({op:?})", q.fl.name());
        let set = prefix(&steps, made);
        let res = match op {
            Op::Make if made < steps.len() => {
                made += 1;
                Ok(())
            }
            Op::Migrate => {
                done += (k < made) as usize;
                k = k.max(made);
                db.migrate(&set)
            }
            Op::Apply if k < made => {
                let m = steps[k].m.clone();
                k += 1;
                done += 1;
                db.with_sync(move |c| c.apply(&m))
            }
            Op::Down if k > 0 => {
                let m = steps[k - 1].m.clone();
                k -= 1;
                done += 1;
                o.label("down");
                db.with_sync(move |c| c.downgrade(&m))
            }
            Op::Unmigrate => {
                done += (k > 0) as usize;
                k = 0;
                db.unmigrate(&set)
            }
            Op::Reconnect => match db.reconnect(env) {
                Ok(mut d) => {
                    d.cleanup = db.cleanup.take();
                    db = d;
                    o.label("reconnected");
                    Ok(())
                }
                Err(e) => Err(e),
            },
            Op::Old(n) if k > 0 => {
                o.label("older set");
                let n = *n as usize % (k + 1);
                let old = prefix(&steps, n);
                if n > 0 {
                    if let Err(e) = db.migrate(&old) {
                        fail!("older-set", "{what}: {e}");
                    }
                    let un = db.with_sync(move |c| c.unapplied(&old)).unwrap_or(vec!["?".into()]);
                    ensure!(un.is_empty(), "older-set", "{what}: unapplied are {un:?}");
                }
                Ok(())
            }
            Op::Flip => db.flip(false),
            _ => continue,
        };
        if let Err(e) = res {
            fail!("refused", "{what}: {e}");
        }
        check(env, &mut db, &steps, made, k, &what)?;
    }
    o.nontrivial_if(done >= 3);
    if made >= 3 { o.label("three migrations") }
    Ok(o)
}
pub fn c17(ctx: &Ctx) {
    ctx.explore(
        "history",
        "at least three operations of the history changed which migrations are applied",
        ctx.cases(1800, 40000),
        || {
            (any_fl(), any::<u8>(), s_chain(5), 0u8..4, proptest::collection::vec(s_op(), 3..16))
                .prop_map(|(fl, names, chain, made, ops)| HCase { fl, names, chain, made, ops })
                .boxed()
        },
        Env::new,
        run17,
    );
}

// ---- C18

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Fault {
    Syntax,
    Missing,
    Constraint,
    /// Statements that succeed before one that fails.
    Partial,
    /// A deferred constraint is violated.
    Commit,
    /// The migration cannot be recorded, or its record not removed.
    Record,
    /// The database closes the connection.
    Gone,
    /// There is no SQL for the backend.
    NoSql,
}
const FAULTS: [Fault; 8] = [
    Fault::Syntax,
    Fault::Missing,
    Fault::Constraint,
    Fault::Partial,
    Fault::Commit,
    Fault::Record,
    Fault::Gone,
    Fault::NoSql,
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    fl: Fl,
    chain: Chain,
    down: bool,
    /// Migrations applied before.
    start: u8,
    /// The one that fails.
    broken: u8,
    fault: Fault,
    pos: u8,
    fill: u8,
    seed: u8,
}
fn inject(sql: &str, pos: u8, bad: &str) -> String {
    let mut st: Vec<&str> = sql.split_inclusive(";\n").collect();
    let at = pos as usize % (st.len() + 1);
    st.insert(at, bad);
    st.join("\n")
}
fn run18(env: &mut Env, q: &FCase) -> R {
    let mut o = Obs::new();
    o.label(q.fl.backend());
    let names = names(q.seed);
    let steps = sure_steps(q.fl, &q.chain, &names)?;
    if steps.is_empty() {
        return Ok(o);
    }
    let mut db = env.open(q.fl, false);
    let n = steps.len();
    // migrations before start .. broken ..
    let (start, broken) = if q.down {
        let broken = q.broken as usize % n;
        (broken + 1 + q.start as usize % (n - broken), broken)
    } else {
        let start = q.start as usize % n;
        (start, start + q.broken as usize % (n - start))
    };
    if let Err(e) = db.migrate(&prefix(&steps, start)) {
        fail!("setup", "{}: {e}", q.fl.name());
    }
    let mut rows = Rows::default();
    rows.fill(&state(&steps, start), &db.c(), q.fill, q.seed, "setup")?;
    let name = steps[broken].name.clone();
    let mut fault = q.fault;
    match fault {
        Fault::Record if q.fl.is_tu() || (start == 0) => fault = Fault::Partial,
        Fault::Gone if !q.fl.is_pg() => fault = Fault::Syntax,
        _ => {}
    }
    let up = up_sql(&steps[broken].m, q.fl);
    let down = down_sql(&steps[broken].m, q.fl);
    let bad = match fault {
        Fault::Syntax => "THIS IS NOT SQL;",
        Fault::Missing => "INSERT INTO no_such_table VALUES (1);",
        Fault::Constraint => "INSERT INTO butane_migrations VALUES (NULL);",
        Fault::Partial => {
            "CREATE TABLE zz_dup (a INTEGER PRIMARY KEY); INSERT INTO zz_dup VALUES (1); INSERT INTO zz_dup VALUES (1);"
        }
        Fault::Commit if q.fl.is_sq() => {
            "PRAGMA defer_foreign_keys = ON; CREATE TABLE zz_p (id INTEGER PRIMARY KEY); CREATE TABLE zz_c (p INTEGER REFERENCES zz_p(id)); INSERT INTO zz_c VALUES (1);"
        }
        Fault::Commit => {
            "CREATE TABLE zz_p (id INTEGER PRIMARY KEY); CREATE TABLE zz_c (p INTEGER REFERENCES zz_p(id) DEFERRABLE INITIALLY DEFERRED); INSERT INTO zz_c VALUES (1);"
        }
        Fault::Gone => "SELECT pg_terminate_backend(pg_backend_pid());",
        Fault::Record | Fault::NoSql => "",
    };
    let mut m = steps[broken].m.clone();
    let be = q.fl.backend();
    match fault {
        Fault::NoSql => m.remove_sql(be),
        _ if q.down => m.add_sql(be, &up, &inject(&down, q.pos, bad)),
        _ => m.add_sql(be, &inject(&up, q.pos, bad), &down),
    }
    .unwrap();
    if fault == Fault::Record {
        let (ev, row) = if q.down { ("DELETE", "OLD") } else { ("INSERT", "NEW") };
        let lit = name.replace('\'', "''");
        if q.fl.is_pg() {
            let sql = format!("CREATE FUNCTION zz_no() RETURNS trigger AS $$ BEGIN RAISE EXCEPTION 'no'; END $$ LANGUAGE plpgsql;
                CREATE TRIGGER zz_no BEFORE {ev} ON butane_migrations FOR EACH ROW WHEN ({row}.name = '{lit}') EXECUTE FUNCTION zz_no();");
            if let Err(e) = env.rt.block_on(env.admin().batch_execute(&sql)) {
                crate::infra!("trigger: {e}");
            }
        } else if let Err(e) = db.c().execute(&format!(
            "CREATE TRIGGER zz_no BEFORE {ev} ON butane_migrations WHEN {row}.name = '{lit}' BEGIN SELECT RAISE(ABORT, 'no'); END;"
        )) {
            crate::infra!("trigger: {e}");
        }
    }
    let set = |m: &MemMigration, n: usize| {
        let mut ms = MemMigrations::new();
        for (i, s) in steps[..n].iter().enumerate() {
            ms.add_migration(if i == broken { m.clone() } else { s.m.clone() }).unwrap();
        }
        ms
    };
    let what = format!("{} with {fault:?} in {} of {name}", q.fl.name(), if q.down { "down" } else { "up" });
    let res = if q.down { db.unmigrate(&set(&m, start)) } else { db.migrate(&set(&m, n)) };
    ensure!(res.is_err(), "no-error", "{what}: succeeded");
    if fault == Fault::Gone {
        match db.reconnect(env) {
            Ok(d) => db = d,
            Err(e) => crate::infra!("reconnect: {e}"),
        }
    }
    // what is applied now; other steps may have been refused on account of the rows
    let k = recorded(&db, &what)?.len();
    let path: Vec<usize> = if q.down { (k..=start).rev().collect() } else { (start..=k).collect() };
    ensure!(
        if q.down { k > broken && k <= start } else { k >= start && k <= broken },
        "not-stopped",
        "{what}: from {start}, {k} migrations are recorded as applied"
    );
    for w in path.windows(2) {
        rows = rows.migrated(&state(&steps, w[0]), &state(&steps, w[1]));
    }
    check(env, &mut db, &steps, n, k, &what)?;
    rows.check(&state(&steps, k), &db.c(), &what)?;
    let stop = if q.down { broken + 1 } else { broken };
    if k != stop {
        let next = if q.down { k - 1 } else { k + 1 };
        let reasons = may_refuse(q.fl, &state(&steps, k), &state(&steps, next), &rows);
        ensure!(
            !reasons.is_empty() || rows.unknown(),
            "stopped-early",
            "{what}: stopped at {k} instead of {stop}: {}",
            res.unwrap_err()
        );
        o.label(format!("refused: {}", reasons.first().unwrap_or(&"converted values")));
        o.nontrivial_if(true);
        return Ok(o);
    }
    o.label(format!("{fault:?}"));
    o.label(if q.down { "down" } else { "up" });
    o.nontrivial_if(!rows.0.is_empty() || q.pos > 0);
    // the cause is removed
    if fault == Fault::Record {
        if q.fl.is_pg() {
            let _ = env.rt.block_on(
                env.admin().batch_execute("DROP TRIGGER zz_no ON butane_migrations; DROP FUNCTION zz_no();"),
            );
        } else {
            let _ = db.c().execute("DROP TRIGGER zz_no;");
        }
    }
    let end = if q.down { 0 } else { n };
    let good = set(&steps[broken].m, if q.down { start } else { n });
    let res = if q.down { db.unmigrate(&good) } else { db.migrate(&good) };
    let k2 = recorded(&db, &what)?.len();
    let path: Vec<usize> = if q.down { (k2..=k).rev().collect() } else { (k..=k2).collect() };
    for w in path.windows(2) {
        rows = rows.migrated(&state(&steps, w[0]), &state(&steps, w[1]));
    }
    if let Err(e) = res {
        let next = if q.down { k2.wrapping_sub(1) } else { k2 + 1 };
        if next > n || (may_refuse(q.fl, &state(&steps, k2), &state(&steps, next), &rows).is_empty() && !rows.unknown()) {
            fail!("not-completed", "{what}: afterwards: {e}");
        }
        o.label("refused afterwards");
    } else {
        ensure!(k2 == end, "not-completed", "{what}: afterwards {k2} migrations are recorded, expected {end}");
    }
    check(env, &mut db, &steps, n, k2, &format!("{what}, then without"))?;
    rows.check(&state(&steps, k2), &db.c(), &format!("{what}, then without"))?;
    Ok(o)
}
pub fn c18(ctx: &Ctx) {
    ctx.explore(
        "fault",
        "a migration failed after statements of its own had been carried out, or with rows present",
        ctx.cases(2500, 60000),
        || {
            (
                any_fl(),
                s_chain(4),
                any::<bool>(),
                any::<u8>(),
                any::<u8>(),
                proptest::sample::select(&FAULTS[..]),
                any::<u8>(),
                0u8..4,
                any::<u8>(),
            )
                .prop_map(|(fl, chain, down, start, broken, fault, pos, fill, seed)| FCase {
                    fl,
                    chain,
                    down,
                    start,
                    broken,
                    fault,
                    pos,
                    fill,
                    seed,
                })
                .boxed()
        },
        Env::new,
        run18,
    );
}

// ---- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    a: Vec<Edit>,
    b: Vec<Edit>,
    /// b continues from a.
    cont: bool,
    /// Further attributes of some columns: table, column, what.
    extra: Vec<(bool, u8, u8, u8)>,
}
/// The schema with further attributes which states do not have.
fn with_extra(st: &State, extra: &[(bool, u8, u8, u8)], which: bool, reverse: bool) -> ADB {
    let mut tabs = st.tables_unresolved(reverse);
    tabs.sort_by(|a, b| a.name.cmp(&b.name));
    for (w, t, c, what) in extra {
        if *w != which || tabs.is_empty() {
            continue;
        }
        let n = tabs.len();
        let tab = &mut tabs[*t as usize % n];
        let mut names: Vec<String> = tab.columns.iter().map(|c| c.name().to_string()).collect();
        names.sort();
        let Some(col) = tab.column(&names[*c as usize % names.len()]).cloned() else { continue };
        if col.is_pk() || col.reference().is_some() || tab.name.ends_with("_Many") {
            continue;
        }
        let ty = |t| DeferredSqlType::KnownId(t);
        let (ty, default) = match what % 8 {
            0 => (ty(TypeIdentifier::Name("Custom".into())), None),
            1 => (ty(TypeIdentifier::Name("Other".into())), None),
            2 => (ty(TypeIdentifier::Ty(SqlType::Blob)), Some(SqlVal::Blob(vec![1, 2]))),
            3 => (ty(TypeIdentifier::Ty(SqlType::Blob)), Some(SqlVal::Blob(vec![]))),
            4 => (ty(TypeIdentifier::Ty(SqlType::Json)), Some(SqlVal::Json(serde_json::json!([1])))),
            5 => (ty(TypeIdentifier::Ty(SqlType::Text)), Some(SqlVal::Null)),
            6 => (DeferredSqlType::Deferred(TypeKey::CustomType("Mine".into())), None),
            _ => (ty(TypeIdentifier::Ty(SqlType::Date)), Some(SqlVal::Date(Default::default()))),
        };
        tab.replace_column(AColumn::new(
            col.name(),
            ty,
            col.nullable(),
            false,
            false,
            col.unique(),
            default,
            None,
        ));
    }
    if reverse {
        tabs.reverse();
    }
    let mut adb = ADB::new();
    for t in tabs {
        adb.replace_table(t);
    }
    adb.add_type(TypeKey::CustomType("Mine".into()), DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Int)));
    if let Err(e) = adb.resolve_types() {
        crate::infra!("resolve_types: {e}");
    }
    adb
}
/// Attributes of each column by table and name.
pub type Desc = BTreeMap<String, BTreeMap<String, String>>;
pub fn describe(adb: &ADB) -> Desc {
    adb.tables()
        .map(|t| {
            (
                t.name.clone(),
                t.columns
                    .iter()
                    .map(|c| {
                        (
                            c.name().to_string(),
                            format!(
                                "{:?} null={} pk={} auto={} unique={} default={:?} ref={:?}",
                                c.typeid().ok(),
                                c.nullable(),
                                c.is_pk(),
                                c.is_auto(),
                                c.unique(),
                                c.default(),
                                c.reference()
                            ),
                        )
                    })
                    .collect(),
            )
        })
        .collect()
}
fn op_key(op: &Operation) -> String {
    match op {
        Operation::AddTable(t) => {
            let mut one = ADB::new();
            one.replace_table(t.clone());
            format!("add {:?}", describe(&one))
        }
        Operation::AddTableIfNotExists(t) => format!("add-if {}", t.name),
        Operation::RemoveTableConstraints(t) => format!("detach {}", t.name),
        Operation::AddTableConstraints(t) => format!("attach {}", t.name),
        op => format!("{op:?}"),
    }
}
/// The same schema as older releases wrote it: types as `Known` rather than `KnownId`.
fn legacy(adb: &ADB) -> ADB {
    fn walk(v: &mut serde_json::Value) {
        match v {
            serde_json::Value::Object(m) => {
                let old = m.get("KnownId").and_then(|k| k.get("Ty")).filter(|t| t.is_string()).cloned();
                match old {
                    Some(t) if m.len() == 1 => {
                        m.clear();
                        m.insert("Known".into(), t);
                    }
                    _ => m.values_mut().for_each(walk),
                }
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(walk),
            _ => (),
        }
    }
    let mut v = serde_json::to_value(adb).unwrap_or_else(|e| crate::infra!("{e}"));
    walk(&mut v);
    serde_json::from_value(v).unwrap_or_else(|e| crate::infra!("{e}"))
}
fn run19(_: &mut (), q: &DCase) -> R {
    let mut o = Obs::new();
    let mut sa = State::default();
    q.a.iter().for_each(|e| sa.edit(e));
    let mut sb = if q.cont { sa.clone() } else { State::default() };
    q.b.iter().for_each(|e| sb.edit(e));
    let (a, b) = (with_extra(&sa, &q.extra, false, false), with_extra(&sb, &q.extra, true, false));
    let b2 = with_extra(&sb, &q.extra, true, true);
    let (da, dbb) = (describe(&a), describe(&b));
    ensure!(describe(&b2) == dbb, "order", "declared the other way around: {:?} and {dbb:?}", describe(&b2));
    let ops = diff(&a, &b);
    // exact
    let mut c = a.clone();
    for op in &ops {
        c.transform_with(op.clone());
    }
    ensure!(describe(&c) == dbb, "exact", "{ops:?} on {da:?} gives {:?}, not {dbb:?}", describe(&c));
    // empty exactly when equal
    ensure!(ops.is_empty() == (da == dbb), "empty", "{ops:?} from {da:?} to {dbb:?}");
    // minimal: exactly one operation for each thing that differs
    let mut want = 0;
    for t in da.keys().chain(dbb.keys()).collect::<BTreeSet<_>>() {
        match (da.get(t), dbb.get(t)) {
            (Some(x), Some(y)) => {
                let cols: BTreeSet<&String> = x.keys().chain(y.keys()).collect();
                want += cols.into_iter().filter(|c| x.get(*c) != y.get(*c)).count();
            }
            _ => want += 1,
        }
    }
    let mut seen = BTreeSet::new();
    let mut got = 0;
    for op in &ops {
        ensure!(seen.insert(op_key(op)), "minimal", "{op:?} occurs twice");
        let ok = match op {
            Operation::AddTable(t) => !da.contains_key(&t.name) && dbb.contains_key(&t.name),
            Operation::RemoveTable(t) => da.contains_key(t) && !dbb.contains_key(t),
            Operation::RemoveTableConstraints(t) => da.contains_key(&t.name) && !dbb.contains_key(&t.name),
            Operation::AddTableConstraints(t) => !da.contains_key(&t.name) && dbb.contains_key(&t.name),
            Operation::AddTableIfNotExists(_) => false,
            Operation::AddColumn(t, c) => {
                dbb.contains_key(t) && da.get(t).is_some_and(|x| !x.contains_key(c.name()))
            }
            Operation::RemoveColumn(t, c) => {
                da.contains_key(t) && dbb.get(t).is_some_and(|x| !x.contains_key(c))
            }
            Operation::ChangeColumn(t, x, y) => {
                a.get_table(t).is_some_and(|t| t.column(x.name()) == Some(x))
                    && b.get_table(t).is_some_and(|t| t.column(y.name()) == Some(y))
                    && da[t].get(x.name()) != dbb[t].get(y.name())
            }
        };
        ensure!(ok, "minimal", "{op:?} is beside the point: from {da:?} to {dbb:?}");
        got += !matches!(op, Operation::RemoveTableConstraints(_) | Operation::AddTableConstraints(_)) as usize;
    }
    ensure!(got == want, "minimal", "{got} operations for {want} differences: {ops:?}");
    // independent of the order of declaration
    let keys = |ops: &[Operation]| ops.iter().map(op_key).collect::<Vec<_>>();
    let ops2 = diff(&a, &b2);
    ensure!(keys(&ops) == keys(&ops2), "order", "{ops:?} and {ops2:?}");
    ensure!(diff(&b, &b2).is_empty(), "order", "{:?}", diff(&b, &b2));
    // a schema written by an older release stands for the same tables
    let (la, lb) = (legacy(&a), legacy(&b));
    ensure!(describe(&la) == da && describe(&lb) == dbb, "legacy", "written the old way: {:?} and {da:?}", describe(&la));
    for (x, y) in [(&b, &lb), (&lb, &b)] {
        ensure!(diff(x, y).is_empty(), "legacy", "between a schema and the same one written the old way: {:?}", diff(x, y));
    }
    for (x, y) in [(&la, &b), (&a, &lb), (&la, &lb)] {
        let ops3 = diff(x, y);
        ensure!(ops3.len() == ops.len(), "legacy", "{ops3:?} written the old way, otherwise {ops:?}");
        let mut c = x.clone();
        ops3.iter().for_each(|op| c.transform_with(op.clone()));
        ensure!(describe(&c) == dbb, "legacy", "{ops3:?} gives {:?}, not {dbb:?}", describe(&c));
    }
    o.nontrivial_if(got >= 2);
    if got == 0 { o.label("equal") }
    for op in &ops {
        o.label(format!("{op:?}").split('(').next().unwrap_or("").to_string());
    }
    // migrations are created exactly when something changed
    let mut ms = MemMigrations::new();
    let bes = crate::schema::backends();
    let has_custom = |d: &Desc| d.values().any(|t| t.values().any(|c| c.contains("Name(")));
    if !has_custom(&da) && !has_custom(&dbb) {
        for (name, adb, changed) in [("one", &a, !da.is_empty()), ("two", &b, da != dbb), ("three", &b2, false)] {
            use butane_core::migrations::Migrations;
            let latest = ms.latest();
            match ms.create_migration_to(&bes, name, latest.as_ref(), adb.clone()) {
                Ok(made) => ensure!(made == changed, "created", "migration {name} created: {made}, changed: {changed}"),
                Err(e) => fail!("create-error", "{e}: from {da:?} to {dbb:?}"),
            }
            ensure!(ms.get_migration(name).is_some() == changed, "created", "migration {name} exists wrongly");
            if changed {
                let m = ms.latest().unwrap();
                use butane_core::migrations::Migration;
                ensure!(m.name() == name, "created", "the latest migration is {}, not {name}", m.name());
                let d = m.db().map(|d| describe(&d)).unwrap_or_default();
                ensure!(d == describe(adb), "created", "migration {name} holds {d:?} instead of {:?}", describe(adb));
            }
        }
        o.label("migrations");
    }
    Ok(o)
}
pub fn c19(ctx: &Ctx) {
    ctx.explore(
        "diff",
        "the schemas differ in at least two ways",
        ctx.cases(12000, 400000),
        || {
            let edits = || {
                (
                    proptest::collection::vec(s_add_table(), 0..5),
                    proptest::collection::vec(s_edit(), 0..6),
                )
                    .prop_map(|(mut a, b)| {
                        a.extend(b);
                        a
                    })
            };
            (
                edits(),
                edits(),
                any::<bool>(),
                proptest::collection::vec((any::<bool>(), any::<u8>(), any::<u8>(), any::<u8>()), 0..4),
            )
                .prop_map(|(a, b, cont, extra)| DCase { a, b, cont, extra })
                .boxed()
        },
        |_| (),
        run19,
    );
}
