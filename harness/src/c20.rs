//! C20: migration storage. The same migrations are made in memory and on disk, copied around,
//! embedded and read back; stored files are damaged; types are declared from several threads.
use crate::c17::{describe, Desc};
use crate::db::*;
use crate::engine::*;
use crate::mig::*;
use crate::schema::backends;
use crate::vals::*;
use crate::{ensure, fail, infra};
use butane_core::migrations::adb::*;
use butane_core::migrations::*;
use butane_core::{SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

// ---- what is stored

const NAMES: [&str; 12] = [
    "20200101_120000000_init", "a", "with space", "ünïcode", "x.table", "types.json", "..a", "-n", "UPPER", "it's", "m#1",
    "a\"#b",
];
const ODD_TABLES: [&str; 6] = ["Ünï", "with space", "x.table", "types", "a.b", "perc%"];

/// A default value of any type.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dv {
    None,
    Null,
    Bool(bool),
    Int(i32),
    Big(i64),
    Real(u64),
    Text(String),
    Blob(Vec<u8>),
    Json(serde_json::Value),
    Date(i64),
    Ts(i64),
    Name(String),
}
impl Dv {
    pub fn col(&self) -> (TypeIdentifier, Option<SqlVal>) {
        let t = TypeIdentifier::Ty;
        match self {
            Dv::None => (t(SqlType::Text), None),
            Dv::Null => (t(SqlType::Int), Some(SqlVal::Null)),
            Dv::Bool(b) => (t(SqlType::Bool), Some(SqlVal::Bool(*b))),
            Dv::Int(i) => (t(SqlType::Int), Some(SqlVal::Int(*i))),
            Dv::Big(i) => (t(SqlType::BigInt), Some(SqlVal::BigInt(*i))),
            Dv::Real(b) => (t(SqlType::Real), Some(SqlVal::Real(f64::from_bits(*b)))),
            Dv::Text(s) => (t(SqlType::Text), Some(SqlVal::Text(s.clone()))),
            Dv::Blob(b) => (t(SqlType::Blob), Some(SqlVal::Blob(b.clone()))),
            Dv::Json(j) => (t(SqlType::Json), Some(SqlVal::Json(j.clone()))),
            Dv::Date(d) => (t(SqlType::Date), Some(SqlVal::Date(to_date(*d)))),
            Dv::Ts(d) => (t(SqlType::Timestamp), Some(SqlVal::Timestamp(to_ts(*d)))),
            Dv::Name(s) => (TypeIdentifier::Name(s.clone()), None),
        }
    }
}
/// serde_json by itself reads the number back; what happens otherwise is a known finding ("float").
fn exact(j: &serde_json::Value) -> bool {
    !j.is_null() && serde_json::from_str::<serde_json::Value>(&j.to_string()).is_ok_and(|k| k == *j)
}
fn s_dv() -> BoxedStrategy<Dv> {
    prop_oneof![
        1 => Just(Dv::None),
        1 => Just(Dv::Null),
        1 => any::<bool>().prop_map(Dv::Bool),
        1 => s_i32().prop_map(Dv::Int),
        2 => s_i64().prop_map(Dv::Big),
        3 => s_f64().prop_map(|b| if exact(&serde_json::json!(f64::from_bits(b))) { Dv::Real(b) } else { Dv::None }),
        4 => s_text().prop_map(Dv::Text),
        2 => s_blob().prop_map(Dv::Blob),
        2 => s_json().prop_map(|j| if exact(&j) { Dv::Json(j) } else { Dv::Json(serde_json::json!([1.5, "x"])) }),
        1 => s_date().prop_map(Dv::Date),
        1 => s_ts().prop_map(Dv::Ts),
        1 => s_str().prop_map(Dv::Name),
    ]
    .boxed()
}
fn s_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => s_str(),
        2 => s_str().prop_map(|s| format!("#{s}")),
        1 => proptest::sample::select(vec!["#fff", "##", "\"#", "\"##x", "\"###", "r#\"", "\\\"#", "{json}", "}}", "\n", "x\n", "\n\n", "x\r\n", "\r"])
            .prop_map(|s| s.to_string()),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    chain: Chain,
    names: Vec<u8>,
    /// From which migration on, which table, column, and what it becomes.
    extra: Vec<(u8, u8, u8, Dv)>,
    /// From which migration on there is a table with an unusual name, until which.
    odd: Option<(u8, u8, u8)>,
    /// Statements written by hand: migration, backend, up and down.
    sql: Vec<(u8, u8, String, String)>,
    /// Statements removed: migration, backend.
    drop_sql: Vec<(u8, u8)>,
    /// Types declared: migration, key, what it stands for.
    types: Vec<(u8, u8, String, u8)>,
}
fn s_case(max: usize) -> BoxedStrategy<SCase> {
    use proptest::collection::vec;
    (
        s_chain(max),
        vec(any::<u8>(), 5),
        vec((0u8..4, any::<u8>(), any::<u8>(), s_dv()), 0..5),
        proptest::option::weighted(0.2, (0u8..3, 0u8..4, any::<u8>())),
        vec((0u8..4, 0u8..5, s_text(), s_text()), 0..3),
        vec((0u8..4, 0u8..3), 0..2),
        vec((0u8..4, 0u8..2, s_text(), any::<u8>()), 0..3),
    )
        .prop_map(|(chain, names, extra, odd, sql, drop_sql, types)| SCase {
            chain,
            names,
            extra,
            odd,
            sql,
            drop_sql,
            types,
        })
        .boxed()
}
const BACKENDS: [&str; 5] = ["sqlite", "pg", "turso", "other", "a_up"];

/// One migration as it should be.
#[derive(Clone, Debug)]
struct Plan {
    name: String,
    adb: ADB,
    desc: Desc,
    sql: Vec<(String, String, String)>,
    drop_sql: Vec<String>,
    types: Vec<(TypeKey, DeferredSqlType)>,
}
fn plan(q: &SCase) -> Vec<Plan> {
    let mut st = State::default();
    let mut out: Vec<Plan> = Vec::new();
    let mut names = BTreeSet::new();
    let mut fixed: BTreeMap<(String, String), Dv> = BTreeMap::new();
    for (i, edits) in q.chain.iter().enumerate() {
        edits.iter().for_each(|e| st.edit(e));
        let mut tabs = st.tables_unresolved(false);
        tabs.sort_by(|a, b| a.name.cmp(&b.name));
        for (from, t, c, dv) in &q.extra {
            if *from as usize != i || tabs.is_empty() {
                continue;
            }
            let tab = &tabs[*t as usize % tabs.len()];
            let col = &tab.columns[*c as usize % tab.columns.len()];
            fixed.insert((tab.name.clone(), col.name().to_string()), dv.clone());
        }
        for tab in &mut tabs {
            for col in tab.columns.clone() {
                let Some(dv) = fixed.get(&(tab.name.clone(), col.name().to_string())) else { continue };
                if col.is_pk() || col.reference().is_some() || tab.name.ends_with("_Many") {
                    continue;
                }
                let (ty, default) = dv.col();
                tab.replace_column(AColumn::new(
                    col.name(),
                    DeferredSqlType::KnownId(ty),
                    col.nullable(),
                    false,
                    false,
                    col.unique(),
                    default,
                    None,
                ));
            }
        }
        if let Some((from, n, which)) = q.odd {
            if (from..=from + n).contains(&(i as u8)) {
                let mut t = ATable::new(ODD_TABLES[which as usize % ODD_TABLES.len()].into());
                let ty = |t| DeferredSqlType::KnownId(TypeIdentifier::Ty(t));
                t.add_column(AColumn::new("id", ty(SqlType::BigInt), false, true, false, false, None, None));
                t.add_column(AColumn::new("v w", ty(SqlType::Text), true, false, false, false, None, None));
                tabs.push(t);
            }
        }
        let mut adb = ADB::new();
        tabs.into_iter().for_each(|t| adb.replace_table(t));
        if let Err(e) = adb.resolve_types() {
            infra!("resolve_types: {e}");
        }
        let mut k = q.names.get(i).copied().unwrap_or(0) as usize % NAMES.len();
        while !names.insert(k) {
            k = (k + 1) % NAMES.len();
        }
        let desc = describe(&adb);
        out.push(Plan {
            name: NAMES[k].to_string(),
            adb,
            desc,
            sql: q
                .sql
                .iter()
                .filter(|s| s.0 as usize == i)
                .map(|s| (BACKENDS[s.1 as usize % 5].to_string(), s.2.clone(), s.3.clone()))
                .collect(),
            drop_sql: q.drop_sql.iter().filter(|s| s.0 as usize == i).map(|s| BACKENDS[s.1 as usize % 3].to_string()).collect(),
            types: q
                .types
                .iter()
                .filter(|s| s.0 as usize == i)
                .map(|s| {
                    let key = if s.1 == 0 { TypeKey::CustomType(s.2.clone()) } else { TypeKey::PK(s.2.clone()) };
                    let ty = match s.3 % 4 {
                        0 => DeferredSqlType::Known(SqlType::Blob),
                        1 => DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Json)),
                        2 => DeferredSqlType::KnownId(TypeIdentifier::Name(s.2.clone())),
                        _ => DeferredSqlType::Deferred(TypeKey::PK("Nowhere".into())),
                    };
                    (key, ty)
                })
                .collect(),
        });
    }
    out
}
/// Makes the migrations; the names of those made. An error ends it.
fn make<T: MigrationsMut>(ms: &mut T, plan: &[Plan]) -> Result<Vec<usize>, String>
where
    T::M: MigrationMut,
{
    let mut made = Vec::new();
    for (i, p) in plan.iter().enumerate() {
        let latest = ms.latest();
        if !ms
            .create_migration_to(&backends(), &p.name, latest.as_ref(), p.adb.clone())
            .map_err(|e| format!("{}: {e}", p.name))?
        {
            continue;
        }
        made.push(i);
        let mut m = ms.get_migration(&p.name).ok_or(format!("{} is not there", p.name))?;
        let more = (|| -> butane_core::Result<()> {
            for (k, t) in &p.types {
                m.add_type(k.clone(), t.clone())?;
            }
            for (b, up, down) in &p.sql {
                m.add_sql(b, up, down)?;
            }
            for b in &p.drop_sql {
                if m.sql_backends()?.contains(b) {
                    m.remove_sql(b)?;
                }
            }
            Ok(())
        })();
        more.map_err(|e| format!("{} with statements: {e}", p.name))?;
        ms.add_migration(m).map_err(|e| format!("{}: {e}", p.name))?;
    }
    Ok(made)
}

#[derive(Clone, Debug, PartialEq)]
pub struct MView {
    name: String,
    from: Option<String>,
    backends: BTreeSet<String>,
    sql: BTreeMap<String, (Option<String>, Option<String>)>,
    desc: Desc,
    types: BTreeMap<String, String>,
}
fn view1<M: Migration>(m: &M) -> butane_core::Result<MView> {
    let adb = m.db()?;
    // file storage ends each statement with a newline
    let trim = |s: Option<String>| s.map(|s| s.strip_suffix('\n').unwrap_or(&s).to_string());
    let mut sql = BTreeMap::new();
    for b in BACKENDS {
        sql.insert(b.to_string(), (trim(m.up_sql(b)?), trim(m.down_sql(b)?)));
    }
    Ok(MView {
        name: m.name().to_string(),
        from: m.migration_from()?.map(|s| s.to_string()),
        backends: m.sql_backends()?.into_iter().collect(),
        sql,
        desc: describe(&adb),
        types: adb.types().iter().map(|(k, v)| (k.to_string(), type_name(v))).collect(),
    })
}
fn type_name(t: &DeferredSqlType) -> String {
    match t {
        DeferredSqlType::Known(t) => format!("{:?}", TypeIdentifier::Ty(t.clone())),
        DeferredSqlType::KnownId(t) => format!("{t:?}"),
        DeferredSqlType::Deferred(k) => format!("deferred {k}"),
    }
}
pub fn view<T: Migrations>(ms: &T, what: &str) -> Result<Vec<MView>, Fail> {
    let all = match ms.all_migrations() {
        Ok(a) => a,
        Err(e) => fail!("read", "{what}: all_migrations: {e}"),
    };
    let mut out = Vec::new();
    for m in &all {
        match view1(m) {
            Ok(v) => out.push(v),
            Err(e) => fail!("read", "{what}: reading {}: {e}", m.name()),
        }
        let named = ms.get_migration(&m.name());
        ensure!(named.as_ref() == Some(m), "by-name", "{what}: {:?} is not found by its name", m.name());
    }
    let latest = ms.latest().map(|m| m.name().to_string());
    ensure!(
        latest.as_deref() == out.last().map(|v| v.name.as_str()),
        "latest",
        "{what}: the latest migration is {latest:?}, the last of all {:?}",
        out.last().map(|v| &v.name)
    );
    for (i, m) in all.iter().enumerate() {
        match ms.migrations_since(m) {
            Ok(s) => {
                let got: Vec<String> = s.iter().map(|m| m.name().to_string()).collect();
                let want: Vec<String> = all[i + 1..].iter().map(|m| m.name().to_string()).collect();
                ensure!(got == want, "since", "{what}: since {}: {got:?}, not {want:?}", m.name());
            }
            Err(e) => fail!("read", "{what}: migrations_since {}: {e}", m.name()),
        }
    }
    Ok(out)
}
/// The difference in words.
pub fn differ(a: &[MView], b: &[MView]) -> Option<String> {
    if a == b {
        return None;
    }
    if a.len() != b.len() {
        let n = |v: &[MView]| v.iter().map(|m| m.name.clone()).collect::<Vec<_>>();
        return Some(format!("{:?} and {:?}", n(a), n(b)));
    }
    for (x, y) in a.iter().zip(b) {
        if x == y {
            continue;
        }
        let n = &x.name;
        if (&x.name, &x.from) != (&y.name, &y.from) {
            return Some(format!("{n} after {:?} and {} after {:?}", x.from, y.name, y.from));
        }
        if x.backends != y.backends {
            return Some(format!("{n}: backends {:?} and {:?}", x.backends, y.backends));
        }
        for (b, s) in &x.sql {
            if y.sql.get(b) != Some(s) {
                return Some(format!("{n}: {b} statements {s:?} and {:?}", y.sql.get(b)));
            }
        }
        if x.types != y.types {
            return Some(format!("{n}: types {:?} and {:?}", x.types, y.types));
        }
        for t in x.desc.keys().chain(y.desc.keys()) {
            let (p, q) = (x.desc.get(t), y.desc.get(t));
            if p != q {
                return Some(format!("{n}: table {t} {p:?} and {q:?}"));
            }
        }
    }
    Some("different".into())
}

// ---- copies

struct Places {
    _dir: Scratch,
    root: PathBuf,
}
fn places() -> Places {
    let root = fresh_path("c20");
    std::fs::create_dir_all(&root).unwrap_or_else(|e| infra!("{e}"));
    Places { _dir: Scratch(root.clone()), root }
}
/// What applying the migrations does to an empty database, and rolling them back.
fn applied<T: Migrations + Clone + Send + 'static>(env: &Env, ms: &T) -> Result<String, Fail> {
    let mut db = env.open(Fl::SqS, false);
    let mut out = String::new();
    for back in [false, true] {
        let m = ms.clone();
        let r = match db.any.as_mut() {
            Some(Any::S(c)) => {
                if back {
                    m.unmigrate(c)
                } else {
                    m.migrate(c)
                }
            }
            _ => infra!("not a synchronous connection"),
        };
        // the text of an error may quote the statements
        out += if r.is_ok() { "Ok\n" } else { "Err\n" };
        let cols = [butane_core::db::Column::new("sql", SqlType::Text)];
        let rows = db
            .c()
            .query("sqlite_master", &cols, None, None, None, None)
            .map_err(|e| Fail::new("introspect", e.to_string()))?;
        out += &format!("{rows:?}\n");
        if db.c().has_table("butane_migrations").unwrap_or(false) {
            let cols = [butane_core::db::Column::new("name", SqlType::Text)];
            out += &format!("{:?}\n", db.c().query("butane_migrations", &cols, None, None, None, None).ok());
        }
    }
    Ok(out)
}
fn copy_all<A: Migrations, B: MigrationsMut>(from: &A, to: &mut B) -> butane_core::Result<()>
where
    B::M: MigrationMut,
{
    for m in from.all_migrations()? {
        let mut n = to.new_migration(&m.name());
        copy_migration(&m, &mut n)?;
        to.add_migration(n)?;
    }
    Ok(())
}
fn json(ms: &MemMigrations, pretty: bool) -> Result<MemMigrations, Fail> {
    let s = if pretty { serde_json::to_string_pretty(ms) } else { serde_json::to_string(ms) };
    let s = s.map_err(|e| Fail::new("to-json", e.to_string()))?;
    MemMigrations::from_json(&s).map_err(|e| Fail::new("from-json", format!("{e}: {s}")))
}
fn run_copies(env: &mut Env, q: &SCase) -> R {
    let mut o = Obs::new();
    let plan = plan(q);
    let mut mem = MemMigrations::new();
    let p = places();
    let mut fs = from_root(p.root.join("one"));
    std::fs::create_dir_all(p.root.join("one")).unwrap();
    let rm = make(&mut mem, &plan);
    let rf = make(&mut fs, &plan);
    let made = match (rm, rf) {
        (Ok(a), Ok(b)) => {
            ensure!(a == b, "make", "made {a:?} in memory and {b:?} on disk");
            a
        }
        (Err(a), Err(b)) => {
            ensure!(a == b, "make", "in memory: {a}; on disk: {b}");
            o.label("refused");
            return Ok(o);
        }
        (a, b) => fail!("make", "in memory: {a:?}; on disk: {b:?}"),
    };
    let vm = view(&mem, "in memory")?;
    // as made
    let names: Vec<&str> = vm.iter().map(|v| v.name.as_str()).collect();
    let want: Vec<&str> = made.iter().map(|i| plan[*i].name.as_str()).collect();
    ensure!(names == want, "chain", "made {want:?}, found {names:?}");
    for (k, i) in made.iter().enumerate() {
        let (v, p) = (&vm[k], &plan[*i]);
        ensure!(v.desc == p.desc, "schema", "{}: {:?} instead of {:?}", v.name, v.desc, p.desc);
        let from = (k > 0).then(|| want[k - 1]);
        ensure!(v.from.as_deref() == from, "chain", "{} after {:?}, not {from:?}", v.name, v.from);
        for (b, up, down) in &p.sql {
            let last = p.sql.iter().rev().find(|s| s.0 == *b) == Some(&(b.clone(), up.clone(), down.clone()));
            if last && !p.drop_sql.contains(b) {
                let t = |s: &str| Some(s.strip_suffix('\n').unwrap_or(s).to_string());
                ensure!(
                    v.sql[b] == (t(up), t(down)),
                    "statements",
                    "{}: {b} statements are {:?}, not {up:?} and {down:?}",
                    v.name,
                    v.sql[b]
                );
            }
        }
        for b in &p.drop_sql {
            ensure!(
                v.sql[b] == (None, None) && !v.backends.contains(b),
                "statements",
                "{}: the {b} statements were removed and are {:?}",
                v.name,
                v.sql[b]
            );
        }
        for (k, _) in &p.types {
            ensure!(v.types.contains_key(&k.to_string()), "types", "{}: type {k} is gone: {:?}", v.name, v.types);
        }
    }
    let same = |v: Vec<MView>, what: &str| -> Result<(), Fail> {
        match differ(&vm, &v) {
            None => Ok(()),
            Some(d) => Err(Fail::new("copy", format!("in memory and {what} differ: {d}"))),
        }
    };
    same(view(&fs, "on disk")?, "on disk")?;
    let again = from_root(p.root.join("one"));
    same(view(&again, "on disk, opened again")?, "on disk, opened again")?;
    let err = |what: &'static str| move |e: butane_core::Error| Fail::new("copying", format!("{what}: {e}"));
    let mut mem2 = MemMigrations::new();
    copy_all(&again, &mut mem2).map_err(err("disk to memory"))?;
    same(view(&mem2, "disk to memory")?, "copied from disk to memory")?;
    let mut fs2 = from_root(p.root.join("two"));
    std::fs::create_dir_all(p.root.join("two")).unwrap();
    copy_all(&mem, &mut fs2).map_err(err("memory to disk"))?;
    same(view(&fs2, "memory to disk")?, "copied from memory to disk")?;
    let j1 = json(&mem, false)?;
    same(view(&j1, "through JSON")?, "through JSON")?;
    let j2 = json(&json(&mem2, true)?, false)?;
    same(view(&j2, "disk, memory, JSON")?, "from disk through memory and JSON")?;
    // the files as they are
    let mut fs3 = from_root(p.root.join("three"));
    std::fs::create_dir_all(p.root.join("three")).unwrap();
    for m in fs.all_migrations().map_err(err("all"))? {
        let mut n = fs3.new_migration(&m.name());
        m.copy_to(&mut n).map_err(err("copy_to"))?;
        fs3.add_migration(n).map_err(err("add_migration"))?;
    }
    same(view(&fs3, "file by file")?, "copied file by file")?;
    // applied
    let a = applied(env, &mem)?;
    for (what, b) in [
        ("on disk", applied(env, &again)?),
        ("memory to disk", applied(env, &fs2)?),
        ("JSON", applied(env, &j2)?),
    ] {
        ensure!(a == b, "applied", "applying them does not do the same in memory and {what}: {a}\n{b}");
    }
    o.label(if a.starts_with("Ok") { "applied" } else { "not applicable" });
    if !q.extra.is_empty() {
        o.label("unusual column");
    }
    if q.odd.is_some() {
        o.label("unusual table");
    }
    if plan.iter().any(|p| !p.sql.is_empty()) {
        o.label("statements by hand");
    }
    if plan.iter().any(|p| !p.types.is_empty()) {
        o.label("declared types");
    }
    o.label(format!("{} migrations", made.len()));
    let unmodified = vm.windows(2).any(|w| w[1].desc.iter().any(|(t, d)| w[0].desc.get(t) == Some(d)));
    if unmodified {
        o.label("unmodified table");
    }
    o.nontrivial_if(made.len() >= 2 && unmodified);
    Ok(o)
}

/// Numbers serde_json does not read back exactly.
fn run_float(_: &mut Env, q: &SCase) -> R {
    let o = Obs::new();
    let plan = plan(q);
    let mut mem = MemMigrations::new();
    if let Err(e) = make(&mut mem, &plan) {
        infra!("{e}");
    }
    let (a, b) = (view(&mem, "in memory")?, view(&json(&mem, false)?, "through JSON")?);
    if let Some(d) = differ(&a, &b) {
        fail!("float-last-place", "{d}");
    }
    Ok(o)
}

// ---- embedding

struct Lits(Vec<String>);
impl Lits {
    fn tokens(&mut self, t: proc_macro2::TokenStream) {
        for t in t {
            match t {
                proc_macro2::TokenTree::Group(g) => self.tokens(g.stream()),
                proc_macro2::TokenTree::Literal(l) => {
                    if let syn::Lit::Str(s) = syn::Lit::new(l) {
                        self.0.push(s.value());
                    }
                }
                _ => {}
            }
        }
    }
}
/// The migrations in the embedding of a project, and its source.
pub fn embedded(root: &Path) -> Result<(String, MemMigrations), Fail> {
    let src = std::fs::read_to_string(root.join("src/butane_migrations.rs"))
        .map_err(|e| Fail::new("embed", format!("no file: {e}")))?;
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => fail!("embedded-source", "the source is not valid Rust: {e}: {src}"),
    };
    let mut l = Lits(vec![]);
    l.tokens(quote::quote!(#file));
    let mut found: Vec<MemMigrations> =
        l.0.iter().filter(|s| s.trim_start().starts_with('{')).filter_map(|s| MemMigrations::from_json(s).ok()).collect();
    ensure!(found.len() == 1, "embedded-json", "{} of the literals are migrations: {src}", found.len());
    Ok((src, found.remove(0)))
}
fn run_embedded(_: &mut (), q: &SCase) -> R {
    let mut o = Obs::new();
    let plan = plan(q);
    let p = places();
    let base = p.root.join(".butane");
    std::fs::create_dir_all(base.join("migrations")).unwrap();
    std::fs::create_dir_all(p.root.join("src")).unwrap();
    let mut fs = from_root(base.join("migrations"));
    let n = plan.len();
    let split = n / 2;
    for (k, part) in [&plan[..split], &plan[split..]].into_iter().enumerate() {
        if part.is_empty() {
            continue;
        }
        if let Err(e) = make(&mut fs, part) {
            o.label("refused");
            let _ = e;
            return Ok(o);
        }
        // anew, then brought up to date
        let r = if k == 0 || split == 0 { butane_cli::embed(&base) } else { butane_cli::update_embedded(&base) };
        if let Err(e) = r {
            fail!("embed", "embedding fails: {e}");
        }
        let (src, found) = embedded(&p.root)?;
        let (a, b) = (view(&fs, "on disk")?, view(&found, "embedded")?);
        if let Some(d) = differ(&a, &b) {
            fail!("embedded", "on disk and embedded differ: {d}");
        }
        o.nontrivial_if(a.len() >= 2);
        if src.contains("\"#") {
            o.label("quote and hash");
        }
    }
    Ok(o)
}

// ---- damage

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Harm {
    Truncate(u16),
    Byte(u16, u8),
    Json(u16, u8, String),
    DropKey(u16),
    Content(u8),
    Delete,
    Dir,
    DirGone,
}
const CONTENTS: [&str; 16] = [
    "", "null", "{}", "[]", "\"x\"", "{\"latest\": \"nope\"}", "{\"latest\": \"..\"}", "{\"latest\": \"\"}", "{\"latest\": null}",
    "{\"backends\": []}", "{\"backends\": [], \"from_name\": \"nope\"}", "{\"backends\": [], \"from_name\": \"/\"}",
    "{\"A\": {\"KnownId\": {\"Ty\": \"Int\"}}}", "{\"PK\": {\"KnownId\": {\"Ty\": \"Int\"}}}",
    "{\"name\": \"Foo\", \"columns\": []}", "{\"CT:é\": {\"Deferred\": \"\"}}",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MalCase {
    set: SCase,
    harm: Vec<(u8, Harm)>,
}
fn s_harm() -> BoxedStrategy<Harm> {
    prop_oneof![
        2 => any::<u16>().prop_map(Harm::Truncate),
        3 => (any::<u16>(), any::<u8>()).prop_map(|(a, b)| Harm::Byte(a, b)),
        6 => (any::<u16>(), any::<u8>(), s_text()).prop_map(|(a, b, s)| Harm::Json(a, b, s)),
        2 => any::<u16>().prop_map(Harm::DropKey),
        2 => any::<u8>().prop_map(Harm::Content),
        1 => Just(Harm::Delete),
        1 => Just(Harm::Dir),
        1 => Just(Harm::DirGone),
    ]
    .boxed()
}
fn json_nodes(v: &mut serde_json::Value, n: &mut usize, f: &mut dyn FnMut(&mut serde_json::Value, usize)) {
    let k = *n;
    *n += 1;
    match v {
        serde_json::Value::Array(a) => a.iter_mut().for_each(|x| json_nodes(x, n, f)),
        serde_json::Value::Object(m) => m.values_mut().for_each(|x| json_nodes(x, n, f)),
        _ => {}
    }
    f(v, k);
}
/// The text damaged.
fn harm_text(text: &[u8], h: &Harm, names: &[String]) -> Vec<u8> {
    let mut out = text.to_vec();
    match h {
        Harm::Truncate(n) => out.truncate(*n as usize * out.len().max(1) / 65536),
        Harm::Byte(n, b) => {
            if !out.is_empty() {
                let k = *n as usize * out.len() / 65536;
                out[k] = *b;
            }
        }
        Harm::Json(n, what, s) => {
            let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(text) else { return out };
            let mut total = 0;
            json_nodes(&mut v, &mut total, &mut |_, _| {});
            let target = *n as usize % total;
            let with = match what % 10 {
                0 => serde_json::Value::Null,
                1 => serde_json::json!([]),
                2 => serde_json::json!({}),
                3 => serde_json::json!(-1),
                4 => serde_json::json!(s),
                5 => serde_json::json!({ s: { "Deferred": s } }),
                6 => serde_json::json!({ "Deferred": { "KnownId": { "Ty": "Int" } } }),
                7 => serde_json::json!({ "Deferred": { "Deferred": "CT:Nowhere" } }),
                // some migration's name
                _ if !names.is_empty() => serde_json::json!(names[*what as usize / 10 % names.len()]),
                _ => serde_json::json!(s),
            };
            let mut k = 0;
            json_nodes(&mut v, &mut k, &mut |v, k| {
                if k == target {
                    *v = with.clone();
                }
            });
            out = serde_json::to_vec_pretty(&v).unwrap_or_default();
        }
        Harm::DropKey(n) => {
            let Ok(mut v) = serde_json::from_slice::<serde_json::Value>(text) else { return out };
            let mut total = 0;
            json_nodes(&mut v, &mut total, &mut |_, _| {});
            let target = *n as usize % total;
            let mut k = 0;
            json_nodes(&mut v, &mut k, &mut |v, k| {
                if k == target {
                    match v {
                        serde_json::Value::Object(m) => {
                            if let Some(key) = m.keys().nth(*n as usize % m.len().max(1)).cloned() {
                                m.remove(&key);
                            }
                        }
                        serde_json::Value::Array(a) => {
                            a.pop();
                        }
                        _ => {}
                    }
                }
            });
            out = serde_json::to_vec_pretty(&v).unwrap_or_default();
        }
        Harm::Content(n) => out = CONTENTS[*n as usize % CONTENTS.len()].as_bytes().to_vec(),
        Harm::Delete | Harm::Dir | Harm::DirGone => {}
    }
    out
}
fn files(root: &Path) -> Vec<PathBuf> {
    let mut out = Vec::new();
    let mut dirs = vec![root.to_path_buf()];
    while let Some(d) = dirs.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            if p.is_dir() {
                dirs.push(p);
            } else if e.file_name() != "lock" && e.file_name() != ".gitignore" {
                out.push(p);
            }
        }
    }
    out.sort();
    out
}
fn valid_json(p: &Path) -> bool {
    std::fs::read(p).ok().is_some_and(|b| serde_json::from_slice::<serde::de::IgnoredAny>(&b).is_ok())
}
/// Reads everything there is to read; errors are fine.
fn poke<T: Migrations + Clone + Send + 'static>(env: &Env, ms: &T, names: &[String]) -> (usize, usize) {
    let (mut good, mut bad) = (0, 0);
    let mut t = |ok: bool| if ok { good += 1 } else { bad += 1 };
    let _ = ms.latest();
    let all = ms.all_migrations();
    t(all.is_ok());
    for n in names {
        let Some(m) = ms.get_migration(n) else { continue };
        let _ = m.name();
        t(m.db().is_ok());
        t(m.migration_from().is_ok());
        t(m.sql_backends().is_ok());
        for b in BACKENDS {
            t(m.up_sql(b).is_ok());
            t(m.down_sql(b).is_ok());
        }
        t(ms.migrations_since(&m).is_ok());
        let mut to = MemMigrations::new().new_migration("copy");
        t(copy_migration(&m, &mut to).is_ok());
    }
    t(applied(env, ms).is_ok());
    (good, bad)
}
/// Following the chain from the latest migration comes back to where it was.
fn loops<T: Migrations>(ms: &T) -> bool {
    let mut seen = Vec::new();
    let mut m = ms.latest();
    while let Some(x) = m {
        if seen.contains(&x) {
            return true;
        }
        m = x.migration_from().ok().flatten().and_then(|n| ms.get_migration(&n));
        seen.push(x);
    }
    false
}
fn run_malformed(env: &mut Env, q: &MalCase) -> R {
    let mut o = Obs::new();
    let plan = plan(&q.set);
    let p = places();
    let root = p.root.join("m");
    std::fs::create_dir_all(&root).unwrap();
    let mut fs = from_root(&root);
    if make(&mut fs, &plan).is_err() {
        o.label("refused");
        return Ok(o);
    }
    let before = view(&fs, "on disk")?;
    if before.is_empty() {
        return Ok(o);
    }
    let names: Vec<String> = before.iter().map(|v| v.name.clone()).collect();
    // where each migration's tables are
    let mut holds: BTreeMap<String, BTreeSet<PathBuf>> = BTreeMap::new();
    for n in &names {
        let own = root.join(n);
        let mut h: BTreeSet<PathBuf> =
            files(&own).into_iter().filter(|f| f.extension().is_some_and(|e| e == "table") || f.ends_with("types.json")).collect();
        let info: serde_json::Value =
            std::fs::read(own.join("info.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
        if let Some(b) = info["table_bases"].as_object() {
            for (t, m) in b {
                h.insert(root.join(m.as_str().unwrap_or("")).join(format!("{t}.table")));
            }
        }
        holds.insert(n.clone(), h);
    }
    let mut touched: BTreeSet<PathBuf> = BTreeSet::new();
    for (sel, h) in &q.harm {
        let all = files(&root);
        // one in four: the state itself
        let f = match sel % 4 {
            0 => root.join("state.json"),
            1 => {
                let infos: Vec<&PathBuf> = all.iter().filter(|f| f.ends_with("info.json")).collect();
                match infos.is_empty() {
                    true => continue,
                    false => infos[*sel as usize / 4 % infos.len()].clone(),
                }
            }
            _ if all.is_empty() => continue,
            _ => all[*sel as usize / 4 % all.len()].clone(),
        };
        let Ok(text) = std::fs::read(&f) else { continue };
        match h {
            Harm::Delete => {
                let _ = std::fs::remove_file(&f);
                o.label("file gone");
            }
            Harm::Dir => {
                let _ = std::fs::remove_file(&f);
                let _ = std::fs::create_dir(&f);
                o.label("directory in place of a file");
            }
            Harm::DirGone => {
                let d = f.parent().unwrap();
                if d != root {
                    for g in files(d) {
                        touched.insert(g);
                    }
                    let _ = std::fs::remove_dir_all(d);
                    o.label("migration gone");
                }
            }
            h => {
                let new = harm_text(&text, h, &names);
                if new == text {
                    continue;
                }
                std::fs::write(&f, new).unwrap_or_else(|e| infra!("{e}"));
                o.label(format!("{h:?}").split('(').next().unwrap_or("").to_string());
            }
        }
        touched.insert(f);
    }
    let fs = from_root(&root);
    let state = root.join("state.json");
    let all = fs.all_migrations();
    let listed = |a: &butane_core::Result<Vec<FsMigration>>| match a {
        Ok(v) => format!("{:?}", v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>()),
        Err(e) => format!("error {e}"),
    };
    // what cannot be read is an error
    if state.exists() {
        // (members nobody asked for may hold anything)
        #[derive(Deserialize)]
        struct State {
            latest: Option<String>,
        }
        let v: Option<State> = std::fs::read(&state).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let bad = match v.as_ref().map(|v| &v.latest) {
            None => true,
            Some(Some(s)) => !root.join(s).is_dir() || s.is_empty() || s.contains('/') || s.starts_with("..") && s.len() == 2,
            Some(None) => false,
        };
        if bad {
            ensure!(all.is_err(), "state", "the state cannot be read and the migrations are {}", listed(&all));
            o.label("unreadable state");
        }
    }
    if !touched.contains(&state) {
        // back along the chain as far as it is readable
        let mut want_err = false;
        let mut at = before.last().map(|v| v.name.clone());
        let mut seen = BTreeSet::new();
        let mut chain = Vec::new();
        while let Some(n) = at {
            if !seen.insert(n.clone()) || !root.join(&n).is_dir() {
                want_err = true;
                break;
            }
            chain.push(n.clone());
            let info = root.join(&n).join("info.json");
            if !info.is_file() {
                break;
            }
            #[derive(Deserialize)]
            struct Info {
                from_name: Option<String>,
            }
            let v: Option<Info> = std::fs::read(&info).ok().and_then(|b| serde_json::from_slice(&b).ok());
            let Some(v) = v else {
                want_err = true;
                break;
            };
            at = match &v.from_name {
                Some(s) if !s.is_empty() && !s.contains('/') && s != ".." && s != "." => Some(s.clone()),
                None => None,
                _ => {
                    want_err = true;
                    break;
                }
            };
        }
        if want_err {
            ensure!(all.is_err(), "chain", "the chain breaks after {chain:?} and the migrations are {}", listed(&all));
            o.label("broken chain");
        } else if let Ok(a) = &all {
            chain.reverse();
            let got: Vec<String> = a.iter().map(|m| m.name().to_string()).collect();
            ensure!(got == chain, "chain", "the migrations are {got:?}, not {chain:?}");
        }
    }
    for (i, n) in names.iter().enumerate() {
        let Some(m) = fs.get_migration(n) else { continue };
        let own = root.join(n);
        let info_ok = !touched.contains(&own.join("info.json"));
        if info_ok {
            if holds[n].iter().any(|f| touched.contains(f) && f.exists() && !valid_json(f)) {
                match m.db() {
                    Ok(_) => fail!("schema", "a table of {n} cannot be read and its schema can"),
                    Err(_) => o.label("unreadable table"),
                }
            }
            // what is untouched is as before
            if !holds[n].iter().any(|f| touched.contains(f)) && !touched.iter().any(|f| f.starts_with(&own)) {
                match view1(&m) {
                    Ok(v) => ensure!(v == before[i], "untouched", "{n} changed: {v:?} instead of {:?}", before[i]),
                    Err(e) => fail!("untouched", "{n} cannot be read: {e}"),
                }
                o.label("untouched migration");
            }
        }
        for b in BACKENDS {
            for (dir, up) in [("up", true), ("down", false)] {
                let f = own.join(format!("{b}_{dir}.sql"));
                let got = if up { m.up_sql(b) } else { m.down_sql(b) };
                match std::fs::read(&f).map(String::from_utf8) {
                    Ok(Ok(s)) => {
                        let trim = |s: &str| s.strip_suffix('\n').unwrap_or(s).to_string();
                        ensure!(
                            got.as_ref().ok().and_then(|g| g.as_deref()).map(trim) == Some(trim(&s)),
                            "statements",
                            "{n}: {got:?} instead of {s:?}"
                        )
                    }
                    Ok(Err(_)) => {
                        ensure!(got.is_err(), "statements", "{n}: unreadable {b} statements are {got:?}")
                    }
                    Err(_) => ensure!(!matches!(got, Ok(Some(_))), "statements", "{n}: there are none for {b}: {got:?}"),
                }
            }
        }
    }
    let (_, bad) = poke(env, &fs, &names);
    if bad > 0 {
        o.label("errors");
    }
    o.nontrivial_if(!touched.is_empty());
    Ok(o)
}
fn run_mal_json(env: &mut Env, q: &MalCase) -> R {
    let mut o = Obs::new();
    let plan = plan(&q.set);
    let mut mem = MemMigrations::new();
    if make(&mut mem, &plan).is_err() {
        o.label("refused");
        return Ok(o);
    }
    let names: Vec<String> = plan.iter().map(|p| p.name.clone()).collect();
    let text = serde_json::to_vec(&mem).unwrap_or_else(|e| infra!("{e}"));
    let mut new = text.clone();
    for (_, h) in &q.harm {
        new = harm_text(&new, h, &names);
    }
    if new == text {
        return Ok(o);
    }
    let Ok(s) = std::str::from_utf8(&new) else {
        o.label("not text");
        return Ok(o);
    };
    let valid = serde_json::from_str::<serde_json::Value>(s).is_ok();
    let r = MemMigrations::from_json(s);
    match r {
        Ok(ms) => {
            ensure!(valid, "json", "not JSON and accepted: {s}");
            o.label("accepted");
            if loops(&ms) {
                // followed with file storage; in memory an endless chain would use up all of it
                o.label("loop");
                return Ok(o);
            }
            // a broken chain
            let v: serde_json::Value = serde_json::from_str(s).unwrap_or_default();
            if let Some(l) = v["latest"].as_str() {
                if ms.get_migration(l).is_none() {
                    ensure!(ms.all_migrations().is_err(), "state", "the latest migration {l:?} is missing");
                    o.label("broken chain");
                }
            }
            if let Ok(all) = ms.all_migrations() {
                if let Some(first) = all.first() {
                    let from = first.migration_from().ok().flatten();
                    ensure!(from.is_none(), "chain", "{} comes after {from:?}, which is not there", first.name());
                }
            }
            poke(env, &ms, &names);
        }
        Err(_) => o.label(if valid { "wrong shape" } else { "not JSON" }),
    }
    o.nontrivial_if(true);
    Ok(o)
}

// ---- the current state, written from several processes at once

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConCase {
    threads: Vec<u8>,
    exists: bool,
    read: bool,
}
fn run_concurrent(_: &mut (), q: &ConCase) -> R {
    let mut o = Obs::new();
    let p = places();
    let root = p.root.join("c");
    std::fs::create_dir_all(&root).unwrap();
    if q.exists {
        std::fs::create_dir_all(root.join("current")).unwrap();
    }
    let n = q.threads.len();
    let barrier = std::sync::Barrier::new(n);
    let errs: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = q
            .threads
            .iter()
            .enumerate()
            .map(|(k, count)| {
                let (root, barrier) = (&root, &barrier);
                s.spawn(move || -> Result<(), String> {
                    let mut ms = from_root(root);
                    barrier.wait();
                    for i in 0..*count {
                        let cur = ms.current();
                        let t = |e: butane_core::Error| format!("thread {k}, {i}: {e}");
                        let ty = |t| DeferredSqlType::KnownId(TypeIdentifier::Ty(t));
                        cur.add_type(TypeKey::CustomType(format!("T{k}_{i}")), ty(SqlType::Int)).map_err(t)?;
                        let mut tab = ATable::new(format!("Tab{k}_{i}"));
                        tab.add_column(AColumn::new("id", ty(SqlType::Int), false, true, false, false, None, None));
                        cur.add_modified_table(&tab).map_err(t)?;
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("panic".into())))
            .filter_map(|r| r.err())
            .collect()
    });
    ensure!(errs.is_empty(), "concurrent-error", "{errs:?}");
    let db = match from_root(&root).current().db() {
        Ok(d) => d,
        Err(e) => fail!("concurrent-read", "the current state cannot be read afterwards: {e}"),
    };
    for (k, count) in q.threads.iter().enumerate() {
        for i in 0..*count {
            ensure!(
                db.types().contains_key(&TypeKey::CustomType(format!("T{k}_{i}"))),
                "lost-type",
                "type {i} of thread {k} is lost: {:?}",
                db.types().keys().collect::<Vec<_>>()
            );
            ensure!(db.get_table(&format!("Tab{k}_{i}")).is_some(), "lost-table", "table {i} of thread {k} is lost");
        }
    }
    o.nontrivial_if(n >= 2);
    if !q.exists {
        o.label("new directory");
    }
    Ok(o)
}

// ---- branches: migrations created from any other, the latest one detached, all deleted

#[derive(Clone, Debug, Serialize, Deserialize)]
enum BOp {
    /// From which migration, or from none; the edits since then.
    Create(Option<u8>, Vec<Edit>),
    /// From the latest one.
    Next(Vec<Edit>),
    Detach,
    Reopen,
    Delete,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    ops: Vec<BOp>,
    json: bool,
}
struct BNode {
    name: String,
    from: Option<usize>,
    state: State,
}
/// The migrations leading to the latest one, that one last.
fn b_chain(nodes: &[BNode], latest: Option<usize>) -> Vec<usize> {
    let mut v: Vec<usize> = std::iter::successors(latest, |i| nodes[*i].from).collect();
    v.reverse();
    v
}
fn b_check<T: Migrations>(what: &str, ms: &T, nodes: &[BNode], latest: Option<usize>) -> Result<(), Fail> {
    let names = |v: &[usize]| v.iter().map(|i| nodes[*i].name.clone()).collect::<Vec<_>>();
    let chain = b_chain(nodes, latest);
    let got = ms.latest().map(|m| m.name().to_string());
    let want = latest.map(|i| nodes[i].name.clone());
    ensure!(got == want, "branch-latest", "{what}: latest is {got:?}, not {want:?}");
    let all = ms.all_migrations().map(|v| v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>());
    match all {
        Ok(a) => ensure!(a == names(&chain), "branch-all", "{what}: all are {a:?}, not {:?}", names(&chain)),
        Err(e) => fail!("branch-all", "{what}: {e} instead of {:?}", names(&chain)),
    }
    for (i, n) in nodes.iter().enumerate() {
        let Some(m) = ms.get_migration(&n.name) else { fail!("branch-lost", "{what}: {} is not there", n.name) };
        match m.db() {
            Ok(d) => ensure!(
                describe(&d) == describe(&n.state.adb()),
                "branch-state",
                "{what}: {} holds {:?}, not {:?}",
                n.name,
                describe(&d),
                describe(&n.state.adb())
            ),
            Err(e) => fail!("branch-state", "{what}: {}: {e}", n.name),
        }
        let from = m.migration_from().map(|f| f.map(|f| f.to_string()));
        let want = n.from.map(|f| nodes[f].name.clone());
        ensure!(matches!(&from, Ok(f) if *f == want), "branch-from", "{what}: {} comes from {from:?}, not {want:?}", n.name);
        let since = ms.migrations_since(&m).map(|v| v.iter().map(|m| m.name().to_string()).collect::<Vec<_>>());
        match (chain.iter().position(|c| *c == i), since) {
            (Some(p), Ok(s)) => {
                ensure!(s == names(&chain[p + 1..]), "branch-since", "{what}: since {}: {s:?}", n.name)
            }
            (None, Err(_)) => (),
            (p, s) => fail!("branch-since", "{what}: since {} at {p:?}: {s:?}", n.name),
        }
    }
    Ok(())
}
fn run_branches(_: &mut (), q: &BCase) -> R {
    let mut o = Obs::new();
    let p = places();
    let root = p.root.join("m");
    let mut fs = from_root(&root);
    let mut mem = MemMigrations::new();
    let mut nodes: Vec<BNode> = Vec::new();
    let (mut lf, mut lm): (Option<usize>, Option<usize>) = (None, None);
    let mut n = 0;
    for (k, op) in q.ops.iter().enumerate() {
        let what = format!("after {k} {}", format!("{op:?}").split('(').next().unwrap_or(""));
        match op {
            BOp::Create(..) | BOp::Next(_) => {
                let (from, edits) = match op {
                    BOp::Create(f, e) => (f.filter(|_| !nodes.is_empty()).map(|f| f as usize % nodes.len().max(1)), e),
                    BOp::Next(e) => (lf, e),
                    _ => continue,
                };
                let before = from.map(|f| nodes[f].state.clone()).unwrap_or_default();
                let mut state = before.clone();
                edits.iter().for_each(|e| state.edit(e));
                let changed = describe(&before.adb()) != describe(&state.adb());
                n += 1;
                let name = format!("m{n}");
                let a = {
                    let from = from.and_then(|f| fs.get_migration(&nodes[f].name));
                    fs.create_migration_to(&backends(), &name, from.as_ref(), state.adb())
                };
                let b = {
                    let from = from.and_then(|f| mem.get_migration(&nodes[f].name));
                    mem.create_migration_to(&backends(), &name, from.as_ref(), state.adb())
                };
                for (w, r) in [("files", a), ("memory", b)] {
                    match r {
                        Ok(c) => ensure!(c == changed, "branch-created", "{what}, {w}: created: {c}, changed: {changed}"),
                        Err(e) => fail!("branch-create", "{what}, {w}: {e}"),
                    }
                }
                if changed {
                    nodes.push(BNode { name, from, state });
                    // The latest one only advances from where it is.
                    for l in [&mut lf, &mut lm] {
                        if l.is_none() || *l == from {
                            *l = Some(nodes.len() - 1);
                        } else {
                            o.label("beside the latest");
                        }
                    }
                }
            }
            BOp::Detach => {
                let want = lf.and_then(|l| nodes[l].from);
                let r = fs.detach_latest_migration();
                ensure!(r.is_ok() == want.is_some(), "branch-detach", "{what}: {r:?}, the one before is {want:?}");
                if want.is_some() {
                    lf = want;
                    o.label("detached");
                }
            }
            BOp::Reopen => {
                fs = from_root(&root);
                if q.json {
                    let j = serde_json::to_string(&mem).unwrap_or_else(|e| infra!("{e}"));
                    mem = match MemMigrations::from_json(&j) {
                        Ok(m) => m,
                        Err(e) => fail!("branch-json", "{what}: {e}"),
                    };
                }
            }
            BOp::Delete => {
                if root.exists() {
                    if let Err(e) = fs.delete_migrations() {
                        fail!("branch-delete", "{what}: {e}");
                    }
                }
                if let Err(e) = mem.delete_migrations() {
                    fail!("branch-delete", "{what}: {e}");
                }
                for x in &nodes {
                    ensure!(
                        fs.get_migration(&x.name).is_none() && mem.get_migration(&x.name).is_none(),
                        "branch-delete",
                        "{what}: {} is still there",
                        x.name
                    );
                }
                nodes.clear();
                (lf, lm) = (None, None);
                o.label("deleted");
            }
        }
        b_check(&format!("{what}, files"), &fs, &nodes, lf)?;
        b_check(&format!("{what}, memory"), &mem, &nodes, lm)?;
        if root.exists() {
            let chain = b_chain(&nodes, lf);
            let want: BTreeSet<String> = (0..nodes.len())
                .filter(|i| !chain.contains(i))
                .map(|i| root.join(&nodes[i].name).display().to_string())
                .collect();
            match fs.detached_migration_paths() {
                Ok(v) => ensure!(
                    v.len() == want.len() && v.iter().cloned().collect::<BTreeSet<_>>() == want,
                    "branch-detached",
                    "{what}: detached are {v:?}, not {want:?}"
                ),
                Err(e) => fail!("branch-detached", "{what}: {e}"),
            }
        }
    }
    o.nontrivial_if(nodes.len() >= 2 && b_chain(&nodes, lf).len() < nodes.len());
    Ok(o)
}
fn s_bcase() -> BoxedStrategy<BCase> {
    let edits = || {
        (proptest::option::of(s_add_table()), proptest::collection::vec(s_edit(), 0..3)).prop_map(|(a, mut b)| {
            if let Some(a) = a {
                b.insert(0, a);
            }
            b
        })
    };
    let op = prop_oneof![
        4 => (proptest::option::weighted(0.8, any::<u8>()), edits()).prop_map(|(f, e)| BOp::Create(f, e)),
        5 => edits().prop_map(BOp::Next),
        2 => Just(BOp::Detach),
        1 => Just(BOp::Reopen),
        1 => Just(BOp::Delete),
    ];
    (proptest::collection::vec(op, 1..9), any::<bool>()).prop_map(|(ops, json)| BCase { ops, json }).boxed()
}

pub fn c20(ctx: &Ctx) {
    ctx.explore("branches", "a migration beside those leading to the latest one", ctx.cases(1500, 40000), s_bcase, |_| (), run_branches);
    ctx.explore(
        "copies",
        "two migrations or more, of which one leaves a table unmodified",
        ctx.cases(1500, 40000),
        || s_case(4),
        Env::new,
        run_copies,
    );
    ctx.explore("embedded", "two migrations or more", ctx.cases(700, 15000), || s_case(3), |_| (), run_embedded);
    ctx.explore("float", "any", 0, || s_case(1), Env::new, run_float);
    let mal = || {
        (s_case(4), proptest::collection::vec((any::<u8>(), s_harm()), 1..4))
            .prop_map(|(set, harm)| MalCase { set, harm })
            .boxed()
    };
    ctx.explore("malformed", "a stored file was changed", ctx.cases(2500, 60000), mal, Env::new, run_malformed);
    ctx.explore("malformed-json", "the embedded text was changed", ctx.cases(2000, 60000), mal, Env::new, run_mal_json);
    ctx.explore(
        "concurrent",
        "two threads or more",
        ctx.cases(150, 3000),
        || {
            (proptest::collection::vec(1u8..6, 2..6), any::<bool>(), any::<bool>())
                .prop_map(|(threads, exists, read)| ConCase { threads, exists, read })
                .boxed()
        },
        |_| (),
        run_concurrent,
    );
}
