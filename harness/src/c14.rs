//! C14 migrations build the schema the models describe, C15 they preserve existing data,
//! C16 rolling back restores the schema.
use crate::c20::Dv;
use crate::db::*;
use crate::engine::*;
use crate::mig::*;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::SqlVal;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    chain: Chain,
}
fn s_case(max: usize) -> BoxedStrategy<Case> {
    (any_fl(), s_chain(max)).prop_map(|(fl, chain)| Case { fl, chain }).boxed()
}

pub fn check_schema(env: &Env, db: &Db, want: &Flat, steps: &[Step], what: &str) -> Result<(), Fail> {
    compare(db.fl, want, introspect(env, db)?, steps, what)
}
fn compare(fl: Fl, want: &Flat, mut got: ISchema, steps: &[Step], what: &str) -> Result<(), Fail> {
    let mut want = expected(want, fl);
    for (t, c) in unsure(fl, steps) {
        for s in [&mut want, &mut got] {
            if let Some(c) = s.get_mut(&t.to_lowercase()).and_then(|t| t.get_mut(c)) {
                c.fks.clear();
            }
        }
    }
    if let Some(d) = schema_diff(&want, &got) {
        fail!("schema", "{what}: {d}");
    }
    Ok(())
}

/// On Turso (known finding) a column added to a table may not be a reference.
fn unsure(fl: Fl, steps: &[Step]) -> Vec<(&'static str, &'static str)> {
    let mut out = Vec::new();
    for s in steps.iter().filter(|_| fl.is_tu()) {
        for (from, to) in [(&s.from, &s.to), (&s.to, &s.from)] {
            for (t, cols) in &to.0 {
                let new = cols.iter().filter(|c| c.fk.is_some() && from.col(t, c.name).is_none());
                if from.0.contains_key(t) {
                    out.extend(new.map(|c| (*t, c.name)));
                }
            }
        }
    }
    out
}

/// Kinds of change a step makes.
fn labels(o: &mut Obs, s: &Step) {
    for (t, new) in &s.to.0 {
        match s.from.0.get(t) {
            None => o.label("table added"),
            Some(old) => {
                for c in new {
                    match old.iter().find(|x| x.name == c.name) {
                        None => o.label(if c.fk.is_some() { "reference column added" } else { "column added" }),
                        Some(x) if x != c => {
                            if x.ty != c.ty {
                                o.label("type changed")
                            }
                            if x.nullable != c.nullable {
                                o.label("optionality changed")
                            }
                            if x.unique != c.unique {
                                o.label("uniqueness changed")
                            }
                            if x.fk != c.fk {
                                o.label("reference changed")
                            }
                            if x.auto != c.auto {
                                o.label("automatic key changed")
                            }
                        }
                        _ => {}
                    }
                }
                if old.iter().any(|x| !new.iter().any(|c| c.name == x.name)) {
                    o.label("column removed")
                }
            }
        }
    }
    if s.from.0.keys().any(|t| !s.to.0.contains_key(t)) {
        o.label("table removed")
    }
}

/// Applies a step; false when it was refused for a good reason.
fn apply(db: &mut Db, steps: &[Step], i: usize, rows: &Rows, o: &mut Obs, what: &str) -> Result<bool, Fail> {
    let s = &steps[i];
    let ms = prefix(steps, i + 1);
    let reasons = may_refuse(db.fl, &s.from, &s.to, rows);
    if reasons.contains(&TURSO_REBUILD) {
        o.label(TURSO_REBUILD);
        return Ok(false);
    }
    match db.migrate(&ms) {
        Ok(()) => Ok(true),
        Err(e) if reasons.is_empty() => {
            fail!("refused", "{what}: {} is refused: {e}\n{}", s.name, up_sql(&s.m, db.fl))
        }
        Err(_) => {
            o.label(format!("refused: {}", reasons[0]));
            Ok(false)
        }
    }
}
pub fn up_sql(m: &butane_core::migrations::MemMigration, fl: Fl) -> String {
    use butane_core::migrations::Migration;
    m.up_sql(fl.backend()).ok().flatten().unwrap_or_default()
}
pub fn down_sql(m: &butane_core::migrations::MemMigration, fl: Fl) -> String {
    use butane_core::migrations::Migration;
    m.down_sql(fl.backend()).ok().flatten().unwrap_or_default()
}
/// Rolls a step back; false when it was refused for a good reason.
fn rollback(db: &mut Db, s: &Step, rows: &Rows, o: &mut Obs, what: &str) -> Result<bool, Fail> {
    let reasons = may_refuse(db.fl, &s.to, &s.from, rows);
    if reasons.contains(&TURSO_REBUILD) {
        o.label(TURSO_REBUILD);
        return Ok(false);
    }
    let m = s.m.clone();
    match db.with_sync(move |c| c.downgrade(&m)) {
        Ok(()) => Ok(true),
        Err(e) if reasons.is_empty() => fail!(
            "rollback-refused",
            "{what}: rolling back {} is refused: {e}\n{}",
            s.name,
            down_sql(&s.m, db.fl)
        ),
        Err(_) => {
            o.label(format!("rollback refused: {}", reasons[0]));
            Ok(false)
        }
    }
}

fn run14(env: &mut Env, q: &Case) -> R {
    let mut db = env.open(q.fl, false);
    let mut o = Obs::new();
    o.label(q.fl.backend());
    let (_, steps) = build(&q.chain)?;
    let mut at = None;
    for i in 0..steps.len() {
        let what = format!("{} after {}", q.fl.name(), steps[i].name);
        if !apply(&mut db, &steps, i, &Rows::default(), &mut o, q.fl.name())? {
            break;
        }
        check_schema(env, &db, &steps[i].to, &steps, &what)?;
        if i > 0 {
            labels(&mut o, &steps[i]);
        }
        o.nontrivial_if(i > 0);
        at = Some(i);
    }
    if let Some(i) = at {
        probe(&db, &steps[i].to, &unsure(q.fl, &steps), &mut o, &format!("{} after {}", q.fl.name(), steps[i].name))?;
    }
    Ok(o)
}

/// Rows which the schema admits are admitted, ones it does not are refused.
fn probe(db: &Db, f: &Flat, unsure: &[(&str, &str)], o: &mut Obs, what: &str) -> Result<(), Fail> {
    let c = db.c();
    let mut rows = Rows::default();
    rows.fill(f, &c, 2, 0, what)?;
    let refused = |t: &'static str, vals: &[SqlVal], why: &str| -> Result<(), Fail> {
        let cols: Vec<Column> = columns(&f.0[t]);
        match c.insert_only(t, &cols, vals) {
            Ok(()) => fail!("row-accepted", "{what}: {t} accepts {vals:?}: {why}"),
            Err(_) => Ok(()),
        }
    };
    let mut n = 0;
    let mut k = 10;
    for t in f.fill_order() {
        for (i, col) in f.0[t].iter().enumerate() {
            let Some(mut v) = rows.candidate(f, t, k) else { continue };
            k += 1;
            if col.nullable {
                v[i] = SqlVal::Null;
                if let Err(e) = rows.insert(f, &c, t, &v) {
                    fail!("row-refused", "{what}: {t} refuses {v:?} with NULL {}: {e}", col.name);
                }
            } else if !col.auto && !(col.pk && db.fl.is_sq() && matches!(col.ty, Ty::Int | Ty::Big)) {
                // (SQLite gives an integer primary key a value)
                if !(col.pk && db.fl.is_tu()) {
                    v[i] = SqlVal::Null;
                    refused(t, &v, &format!("{} is NULL", col.name))?;
                }
            }
            let used = rows.0.get(t).and_then(|r| {
                r.iter().find_map(|r| match &r[col.name] {
                    Cell::Is(v) if *v != SqlVal::Null => Some(v.clone()),
                    _ => None,
                })
            });
            if let Some(used) = used {
                let Some(mut v) = rows.candidate(f, t, k) else { continue };
                k += 1;
                v[i] = used;
                if col.unique || col.pk {
                    refused(t, &v, &format!("{} is in use", col.name))?;
                } else {
                    // the other columns are still new
                    if let Err(e) = rows.insert(f, &c, t, &v) {
                        fail!("row-refused", "{what}: {t} refuses {v:?} with repeated {}: {e}", col.name);
                    }
                }
            }
            if let Some((to, toc)) = col.fk {
                if let Some(mut v) = rows.candidate(f, t, k) {
                    k += 1;
                    let dangling = val(col.ty, 5000);
                    let parents = rows.0.get(to).cloned().unwrap_or_default();
                    if !unsure.contains(&(t, col.name))
                        && !parents.iter().any(|r| r[toc] == Cell::Is(dangling.clone())) {
                        v[i] = dangling;
                        refused(t, &v, &format!("{} refers to no row", col.name))?;
                        n += 1;
                    }
                }
            }
            n += 1;
        }
    }
    rows.check(f, &c, what)?;
    if n > 0 {
        o.label("probed");
    }
    Ok(())
}

/// The SQL made for Turso, carried out by SQLite: the engine supports only part of it.
fn run_turso_sql(_: &mut (), chain: &Chain) -> R {
    let mut o = Obs::new();
    let (_, steps) = build(chain)?;
    let db = rusqlite::Connection::open_in_memory().unwrap();
    db.execute_batch("PRAGMA foreign_keys = 1").unwrap();
    let fl = Fl::TuS;
    let check = |want: &Flat, what: &str| -> Result<(), Fail> {
        let mut st = db.prepare("SELECT type, name, sql FROM sqlite_master WHERE sql IS NOT NULL").unwrap();
        let items = st
            .query_map([], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?)))
            .unwrap()
            .collect::<rusqlite::Result<Vec<_>>>()
            .unwrap();
        let mut got = lite_schema(&items, false)?;
        got.remove("butane_migrations");
        compare(fl, want, got, &steps, what)
    };
    let refusable = |a: &Flat, b: &Flat| may_refuse(fl, a, b, &Rows::default()).iter().any(|r| r.contains("unique"));
    for (i, s) in steps.iter().enumerate() {
        for (sql, from, to) in [
            (up_sql(&s.m, fl), &s.from, &s.to),
            (down_sql(&s.m, fl), &s.to, &s.from),
            (up_sql(&s.m, fl), &s.from, &s.to),
        ] {
            match db.execute_batch(&format!("BEGIN; {sql}; COMMIT")) {
                Ok(()) => {}
                Err(_) if refusable(from, to) => {
                    o.label("unique column added or removed");
                    return Ok(o);
                }
                Err(e) => fail!("turso-sql", "{} is refused by SQLite ({e}): {sql}", s.name),
            }
            check(to, &format!("{} on SQLite: {sql}", s.name))?;
        }
        if i > 0 {
            labels(&mut o, s);
        }
        o.nontrivial_if(i > 0);
    }
    Ok(o)
}

/// What the Turso engine does not support.
fn run_turso_limits(env: &mut Env, which: &u8) -> R {
    let mut db = env.open(Fl::TuA, false);
    let col = |n| Col { name: n, kind: Kind::Ty(Ty::Int), nullable: true, unique: false, default: None };
    // (the last of the tables has a lower-case name)
    let null = || Edit::Nullable(0, 0);
    let (table, pk, edits, sig) = match which % 3 {
        0 => (5, Pk::Int, vec![Edit::AddCol(0, Col { kind: Kind::Fk(0), ..col(1) })], "turso-added-reference"),
        1 => (5, Pk::Text, vec![null(), null()], "turso-rebuild-indexed"),
        _ => (0, Pk::Int, vec![Edit::AddCol(0, col(1))], "turso-upper-case-table"),
    };
    let mut chain = vec![vec![Edit::AddTable(table, pk, vec![col(0)])]];
    chain.extend(edits.into_iter().map(|e| vec![e]));
    let (_, steps) = build(&chain)?;
    if let Err(e) = db.migrate(&prefix(&steps, steps.len() - 1)) {
        crate::infra!("{e}");
    }
    let last = &steps[steps.len() - 1];
    let all = prefix(&steps, steps.len());
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| db.migrate(&all)));
    if !matches!(res, Ok(Ok(()))) {
        std::mem::forget(db);
        fail!(sig, "turso: the migration panics or is refused: {}", up_sql(&last.m, Fl::TuA));
    }
    let (want, got) = (expected(&last.to, Fl::TuA), introspect(env, &db)?);
    if let Some(d) = schema_diff(&want, &got) {
        fail!(sig, "turso: {d}");
    }
    Ok(Obs::new())
}

pub fn c14(ctx: &Ctx) {
    ctx.explore(
        "turso-limits",
        "none: these are known findings",
        0,
        || any::<u8>().boxed(),
        Env::new,
        run_turso_limits,
    );
    ctx.explore(
        "turso-sql",
        "a migration other than the first was carried out on SQLite",
        ctx.cases(800, 12000),
        || s_chain(5),
        |_| (),
        run_turso_sql,
    );
    ctx.explore(
        "chain",
        "at least two migrations of the chain were applied, the later one to an existing schema",
        ctx.cases(3000, 60000),
        || s_case(5),
        Env::new,
        run14,
    );
}

// ---- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DataCase {
    fl: Fl,
    chain: Chain,
    /// Rows added to each table at each stage.
    fill: Vec<u8>,
    /// Where to roll back and apply again.
    back: Vec<bool>,
    seed: u8,
}
fn run15(env: &mut Env, q: &DataCase) -> R {
    let mut db = env.open(q.fl, false);
    let mut o = Obs::new();
    o.label(q.fl.backend());
    let (_, steps) = build(&q.chain)?;
    let mut rows = Rows::default();
    for i in 0..steps.len() {
        let s = &steps[i];
        let had: usize = rows.0.values().map(|r| r.len()).sum();
        let what = format!("{} {}", q.fl.name(), s.name);
        if !apply(&mut db, &steps, i, &rows, &mut o, q.fl.name())? {
            // nothing may have changed
            rows.check(&s.from, &db.c(), &format!("{what} (refused)"))?;
            break;
        }
        rows = rows.migrated(&s.from, &s.to);
        rows.check(&s.to, &db.c(), &format!("{what}\n{}", up_sql(&s.m, q.fl)))?;
        if had > 0 {
            labels(&mut o, s);
            o.nontrivial_if(rows.0.values().any(|r| !r.is_empty()));
        }
        if rows.0.values().flatten().flat_map(|r| r.values()).any(|c| *c == Cell::Unknown) {
            // such a column would not be readable
            o.label("converted");
            break;
        }
        let n = q.fill.get(i).copied().unwrap_or(2);
        rows.fill(&s.to, &db.c(), n, q.seed, &what)?;
        if i > 0 && q.back.get(i).copied().unwrap_or(false) {
            if !rollback(&mut db, s, &rows, &mut o, q.fl.name())? {
                rows.check(&s.to, &db.c(), &format!("{what} (rollback refused)"))?;
                break;
            }
            let r2 = rows.migrated(&s.to, &s.from);
            r2.check(&s.from, &db.c(), &format!("{what} rolled back\n{}", down_sql(&s.m, q.fl)))?;
            o.label("rolled back");
            if r2.0.values().flatten().flat_map(|r| r.values()).any(|c| *c == Cell::Unknown) {
                break;
            }
            rows = r2;
            if !apply(&mut db, &steps, i, &rows, &mut o, q.fl.name())? {
                break;
            }
            rows = rows.migrated(&s.from, &s.to);
            rows.check(&s.to, &db.c(), &format!("{what} applied again"))?;
            if rows.0.values().flatten().flat_map(|r| r.values()).any(|c| *c == Cell::Unknown) {
                break;
            }
        }
    }
    Ok(o)
}
/// Columns of every type added to a table with rows, with a declared default or without one.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ValCase {
    fl: Fl,
    /// What stands for the type and its default, whether that is declared, whether the column is optional.
    cols: Vec<(Dv, bool, bool)>,
    rows: Vec<i64>,
    /// The table is changed once more afterwards.
    again: bool,
    back: bool,
}
fn s_valcase() -> BoxedStrategy<ValCase> {
    use crate::vals::*;
    let no_nul = |s: String| s.replace('\0', "0");
    // serde_json reads the last place of some numbers less than exactly.
    fn whole(j: &serde_json::Value) -> bool {
        match j {
            serde_json::Value::Number(n) => !n.is_f64(),
            serde_json::Value::Array(a) => a.iter().all(whole),
            serde_json::Value::Object(m) => m.values().all(whole),
            _ => true,
        }
    }
    let plain = |j: &serde_json::Value| !j.to_string().contains("u0000") && whole(j);
    let year = |d: i64| d.rem_euclid(3_652_059) - 719_162;
    let dv = prop_oneof![
        any::<bool>().prop_map(Dv::Bool),
        s_i32().prop_map(Dv::Int),
        s_i64().prop_map(Dv::Big),
        s_f64().prop_map(|b| Dv::Real(if f64::from_bits(b).is_finite() { b } else { 1.5f64.to_bits() })),
        s_str().prop_map(move |s| Dv::Text(no_nul(s))),
        s_blob().prop_map(Dv::Blob),
        s_json().prop_map(move |j| Dv::Json(if plain(&j) { j } else { serde_json::json!(["x"]) })),
        s_date().prop_map(move |d| Dv::Date(year(d))),
        s_ts().prop_map(move |t| Dv::Ts(year(t.div_euclid(86_400_000_000)) * 86_400_000_000 + t.rem_euclid(86_400_000_000))),
    ];
    (
        any_fl(),
        proptest::collection::vec((dv, proptest::bool::weighted(0.8), any::<bool>()), 1..5),
        proptest::collection::vec(0i64..9, 0..4),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(fl, cols, rows, again, back)| ValCase { fl, cols, rows, again, back })
        .boxed()
}
const VCOLS: [&str; 4] = ["va", "vb", "vc", "vd"];
fn run_vals(env: &mut Env, q: &ValCase) -> R {
    use butane_core::migrations::adb::*;
    use butane_core::migrations::*;
    use butane_core::SqlType;
    let mut o = Obs::new();
    o.label(q.fl.backend());
    let mut db = env.open(q.fl, false);
    if q.fl.is_pg() {
        env.pg_reset();
    }
    let known = |t: SqlType| DeferredSqlType::KnownId(TypeIdentifier::Ty(t));
    let stage = |n: usize| {
        let mut t = ATable::new("host".into());
        t.add_column(AColumn::new("id", known(SqlType::BigInt), false, true, false, false, None, None));
        t.add_column(AColumn::new("kept", known(SqlType::Text), false, false, false, false, None, None));
        if n == 2 {
            t.add_column(AColumn::new("more", known(SqlType::Int), true, false, false, false, None, None));
            // On SQLite and Turso this makes the table anew.
            t.replace_column(AColumn::new("kept", known(SqlType::Text), true, false, false, false, None, None));
        }
        if n > 0 {
            for ((d, declared, opt), name) in q.cols.iter().zip(VCOLS) {
                let (ty, v) = d.col();
                t.add_column(AColumn::new(name, DeferredSqlType::KnownId(ty), *opt, false, false, false, v.filter(|_| *declared), None));
            }
        }
        let mut a = ADB::new();
        a.replace_table(t);
        a
    };
    let what = format!("{} {q:?}", q.fl.name());
    let ids: std::collections::BTreeSet<i64> = q.rows.iter().copied().collect();
    let base = || vec![Column::new("id", SqlType::BigInt), Column::new("kept", SqlType::Text)];
    let mut ms = MemMigrations::new();
    let check = |db: &Db, n: usize, what: &str| -> Result<(), Fail> {
        let mut cols = base();
        let mut want: Vec<Option<SqlVal>> = Vec::new();
        if n > 0 {
            for ((d, declared, opt), name) in q.cols.iter().zip(VCOLS) {
                let (ty, v) = d.col();
                let TypeIdentifier::Ty(ty) = ty else { crate::infra!("type") };
                cols.push(Column::new(name, ty));
                want.push(if *declared { v } else { opt.then_some(SqlVal::Null) });
            }
        }
        match db.c().query("host", &cols, None, None, None, None) {
            Ok(mut rows) => {
                rows.sort_by_key(|r| r[0].bigint().unwrap_or(-1));
                let same = rows.len() == ids.len()
                    && rows.iter().zip(&ids).all(|(r, id)| {
                        r[0] == SqlVal::BigInt(*id)
                            && r[1] == SqlVal::Text(format!("row {id}"))
                            // Without a declared default, any value which can be read.
                            && r[2..].iter().zip(&want).all(|(g, w)| w.as_ref().is_none_or(|w| match (w, g) {
                                // The engines read the last place of a literal less than exactly.
                                (SqlVal::Real(w), SqlVal::Real(g)) => (w - g).abs() <= w.abs() * 1e-13 + f64::MIN_POSITIVE,
                                _ => w == g,
                            }))
                    });
                ensure!(same, "wrong-default", "{what}: rows are {rows:?}, expected {ids:?} with {want:?}");
            }
            Err(e) => fail!("unreadable", "{what}: {e}"),
        }
        Ok(())
    };
    for n in 0..if q.again { 3 } else { 2 } {
        let latest = ms.latest();
        match ms.create_migration_to(&crate::schema::backends(), &format!("m{n}"), latest.as_ref(), stage(n)) {
            Ok(true) => {}
            e => fail!("no-migration", "{what}: migration {n}: {e:?}"),
        }
        if let Err(e) = db.migrate(&ms) {
            // The engines keep such a default as a REAL, not an integer.
            let real = |d: &Dv| matches!(d, Dv::Real(b) if f64::from_bits(*b).fract() != 0.0 || f64::from_bits(*b).abs() > 9.2e18);
            let neg = |d: &Dv| match d {
                Dv::Int(i) => *i < 0,
                Dv::Big(i) => *i < 0,
                Dv::Real(b) => f64::from_bits(*b).is_sign_negative(),
                _ => false,
            };
            let limit = match q.fl.backend() {
                "sqlite" => q.cols.iter().any(|c| c.1 && !c.2 && real(&c.0)),
                "turso" => q.cols.iter().any(|c| c.1 && (neg(&c.0) || real(&c.0))),
                _ => false,
            };
            ensure!(n == 1 && limit, "refused", "{what}: migration {n}: {e}\n{:?}", ms.latest().unwrap().up_sql(q.fl.backend()));
            o.label("refused");
            check(&db, n - 1, &format!("{what}: migration {n} refused"))?;
            return Ok(o);
        }
        if n == 0 {
            for id in &ids {
                if let Err(e) = db.c().insert_only("host", &base(), &[SqlVal::BigInt(*id), SqlVal::Text(format!("row {id}"))]) {
                    crate::infra!("{what}: {e}");
                }
            }
        }
        check(&db, n, &format!("{what}: after migration {n}"))?;
    }
    if q.back && !q.again {
        let l = ms.latest().unwrap();
        if let Err(e) = db.with_sync(move |c| c.downgrade(&l)) {
            fail!("refused", "{what}: rolling back: {e}");
        }

        check(&db, 0, &format!("{what}: rolled back"))?;
        o.label("rolled back");
    }
    o.nontrivial_if(!ids.is_empty());
    Ok(o)
}
pub fn c15(ctx: &Ctx) {
    ctx.explore(
        "values",
        "columns were added to a table with rows",
        ctx.cases(3000, 60000),
        s_valcase,
        Env::new,
        run_vals,
    );
    ctx.explore(
        "rows",
        "a migration was applied to a database with rows, some of which survive it",
        ctx.cases(4000, 80000),
        || {
            (any_fl(), s_chain(5), proptest::collection::vec(0u8..4, 6), proptest::collection::vec(proptest::bool::weighted(0.4), 6), any::<u8>())
                .prop_map(|(fl, chain, fill, back, seed)| DataCase { fl, chain, fill, back, seed })
                .boxed()
        },
        Env::new,
        run15,
    );
}

// ---- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BackCase {
    fl: Fl,
    chain: Chain,
    /// How far to go back after each step.
    back: Vec<u8>,
}
fn run16(env: &mut Env, q: &BackCase) -> R {
    let mut db = env.open(q.fl, false);
    let mut o = Obs::new();
    o.label(q.fl.backend());
    let (all, steps) = build(&q.chain)?;
    let none = Rows::default();
    let mut top = 0;
    'up: for i in 0..steps.len() {
        if !apply(&mut db, &steps, i, &none, &mut o, q.fl.name())? {
            break;
        }
        top = i + 1;
        let before = introspect(env, &db)?;
        let n = (q.back.get(i).copied().unwrap_or(1) as usize).min(i + 1);
        for k in (i + 1 - n..=i).rev() {
            let s = &steps[k];
            if !rollback(&mut db, s, &none, &mut o, q.fl.name())? {
                // back to where we were
                if let Err(e) = db.migrate(&prefix(&steps, i + 1)) {
                    fail!("migrate-again", "{}: {e}", q.fl.name());
                }
                break 'up;
            }
            check_schema(env, &db, &s.from, &steps, &format!("{} {} rolled back", q.fl.name(), s.name))?;
            if k > 0 {
                labels(&mut o, s);
            }
            o.nontrivial_if(k > 0);
        }
        if n > 0 {
            if let Err(e) = db.migrate(&prefix(&steps, i + 1)) {
                fail!("migrate-again", "{} {}: {e}", q.fl.name(), steps[i].name);
            }
            let after = introspect(env, &db)?;
            if let Some(d) = schema_diff(&before, &after) {
                fail!("schema-again", "{} {} applied again: {d}", q.fl.name(), steps[i].name);
            }
        }
    }
    if top == 0 {
        return Ok(o);
    }
    // everything
    if steps[..top].iter().any(|s| may_refuse(q.fl, &s.to, &s.from, &none).contains(&TURSO_REBUILD)) {
        return Ok(o);
    }
    let refusable = steps[..top].iter().any(|s| !may_refuse(q.fl, &s.to, &s.from, &none).is_empty());
    match db.unmigrate(&all) {
        Ok(()) => {
            let left = introspect(env, &db)?;
            ensure!(left.is_empty(), "tables-left", "{}: unmigrate leaves {:?}", q.fl.name(), left.keys());
            o.label("unmigrated");
        }
        Err(_) if refusable => o.label("unmigrate refused"),
        Err(e) => fail!("unmigrate", "{}: {e}", q.fl.name()),
    }
    Ok(o)
}
pub fn c16(ctx: &Ctx) {
    ctx.explore(
        "back",
        "a migration other than the first was rolled back",
        ctx.cases(3000, 60000),
        || {
            (any_fl(), s_chain(5), proptest::collection::vec(0u8..4, 6))
                .prop_map(|(fl, chain, back)| BackCase { fl, chain, back })
                .boxed()
        },
        Env::new,
        run16,
    );
}
