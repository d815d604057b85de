//! Generated chains of model states: the states, the migrations between them, what schema and
//! which rows are expected after each, and what a migration may refuse.
use crate::db::*;
use crate::engine::*;
use crate::schema::backends;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::migrations::adb::*;
use butane_core::migrations::{MemMigration, MemMigrations, Migrations, MigrationsMut};
use butane_core::{SqlType, SqlVal};
use chrono::NaiveDate;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub const TABLES: [&str; 6] = ["Foo", "Bar", "Order", "Tag", "baz_qux", "user_data"];
pub const PKS: [&str; 6] = ["id", "id", "id", "tag", "key", "pk_1"];
pub const COLS: [&str; 6] = ["a", "b", "name", "limit", "user", "x2"];
pub const MANYS: [&str; 3] = ["tags", "items", "users"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    Int,
    Big,
    Real,
    Text,
    Blob,
    Json,
    Date,
    Ts,
}
pub const TYS: [Ty; 9] =
    [Ty::Bool, Ty::Int, Ty::Big, Ty::Real, Ty::Text, Ty::Blob, Ty::Json, Ty::Date, Ty::Ts];
impl Ty {
    pub fn sql(self) -> SqlType {
        match self {
            Ty::Bool => SqlType::Bool,
            Ty::Int => SqlType::Int,
            Ty::Big => SqlType::BigInt,
            Ty::Real => SqlType::Real,
            Ty::Text => SqlType::Text,
            Ty::Blob => SqlType::Blob,
            Ty::Json => SqlType::Json,
            Ty::Date => SqlType::Date,
            Ty::Ts => SqlType::Timestamp,
        }
    }
    fn physical(self, pg: bool) -> &'static str {
        match (self, pg) {
            (Ty::Bool | Ty::Int | Ty::Big, false) => "integer",
            (Ty::Real, false) => "real",
            (Ty::Text | Ty::Json | Ty::Date | Ty::Ts, false) => "text",
            (Ty::Blob, false) => "blob",
            (Ty::Bool, true) => "boolean",
            (Ty::Int, true) => "integer",
            (Ty::Big, true) => "bigint",
            (Ty::Real, true) => "double precision",
            (Ty::Text, true) => "text",
            (Ty::Blob, true) => "bytea",
            (Ty::Json, true) => "jsonb",
            (Ty::Date, true) => "date",
            (Ty::Ts, true) => "timestamp without time zone",
        }
    }
    fn numeric(self) -> bool {
        matches!(self, Ty::Int | Ty::Big | Ty::Real)
    }
    /// PostgreSQL changes the type of a column without being told how.
    fn pg_castable(self, to: Ty) -> bool {
        self == to
            || to == Ty::Text
            || (self.numeric() && to.numeric())
            || matches!((self, to), (Ty::Date, Ty::Ts) | (Ty::Ts, Ty::Date))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Pk {
    AutoInt,
    AutoBig,
    Int,
    Big,
    Text,
    Blob,
}
impl Pk {
    pub fn ty(self) -> Ty {
        match self {
            Pk::AutoInt | Pk::Int => Ty::Int,
            Pk::AutoBig | Pk::Big => Ty::Big,
            Pk::Text => Ty::Text,
            Pk::Blob => Ty::Blob,
        }
    }
    pub fn auto(self) -> bool {
        matches!(self, Pk::AutoInt | Pk::AutoBig)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Kind {
    Ty(Ty),
    Fk(u8),
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Col {
    pub name: u8,
    pub kind: Kind,
    pub nullable: bool,
    pub unique: bool,
    /// Which of the default values for the type, if any.
    pub default: Option<u8>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Tab {
    pub pk: Pk,
    pub cols: Vec<Col>,
    pub many: BTreeMap<u8, u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct State(pub BTreeMap<u8, Tab>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    AddTable(u8, Pk, Vec<Col>),
    /// Columns of other tables which refer to the table become plain columns, or go too.
    DropTable(u8, bool),
    AddCol(u8, Col),
    DropCol(u8, u8),
    Retype(u8, u8, Kind),
    Nullable(u8, u8),
    Unique(u8, u8),
    Default(u8, u8, Option<u8>),
    AddMany(u8, u8, u8),
    DropMany(u8, u8),
    PkTy(u8, Pk),
}

pub fn default_val(ty: Ty, d: u8) -> Option<SqlVal> {
    Some(match ty {
        Ty::Bool => SqlVal::Bool(d % 2 == 0),
        Ty::Int => SqlVal::Int([0, 5, -1, i32::MAX][d as usize % 4]),
        Ty::Big => SqlVal::BigInt([0, 7, -2, i64::MAX][d as usize % 4]),
        Ty::Real => SqlVal::Real([0.0, 0.5, -2.25, 1e6][d as usize % 4]),
        Ty::Text => SqlVal::Text(
            ["", "x", "it's", "a;b", "--", "a''b", "$1 ?", "\\n"][d as usize % 8].to_string(),
        ),
        // not expressible as a literal in a model
        _ => return None,
    })
}

impl State {
    fn pick(&self, sel: u8) -> Option<u8> {
        let k: Vec<u8> = self.0.keys().copied().collect();
        (!k.is_empty()).then(|| k[sel as usize % k.len()])
    }
    fn fix(&self, mut c: Col, own: u8) -> Col {
        c.name %= COLS.len() as u8;
        if let Kind::Fk(t) = c.kind {
            // an existing table or the table itself
            let mut k: Vec<u8> = self.0.keys().copied().collect();
            if !k.contains(&own) {
                k.push(own);
            }
            c.kind = Kind::Fk(k[t as usize % k.len()]);
            c.default = None;
        }
        if let (Kind::Ty(ty), Some(d)) = (c.kind, c.default) {
            if default_val(ty, d).is_none() {
                c.default = None;
            }
        }
        c
    }
    /// Carries out an edit if it makes sense.
    pub fn edit(&mut self, e: &Edit) {
        match e {
            Edit::AddTable(n, pk, cols) => {
                let n = n % TABLES.len() as u8;
                if self.0.contains_key(&n) {
                    return;
                }
                let mut t = Tab { pk: *pk, cols: vec![], many: BTreeMap::new() };
                for c in cols {
                    let c = self.fix(c.clone(), n);
                    if !t.cols.iter().any(|x| x.name == c.name) {
                        t.cols.push(c);
                    }
                }
                self.0.insert(n, t);
            }
            Edit::DropTable(t, keep) => {
                let Some(t) = self.pick(*t) else { return };
                let ty = self.0[&t].pk.ty();
                self.0.remove(&t);
                for tab in self.0.values_mut() {
                    if *keep {
                        for c in &mut tab.cols {
                            if c.kind == Kind::Fk(t) {
                                c.kind = Kind::Ty(ty);
                            }
                        }
                    } else {
                        tab.cols.retain(|c| c.kind != Kind::Fk(t));
                    }
                    tab.many.retain(|_, x| *x != t);
                }
            }
            Edit::AddCol(t, c) => {
                let Some(t) = self.pick(*t) else { return };
                let c = self.fix(c.clone(), t);
                let tab = self.0.get_mut(&t).unwrap();
                if !tab.cols.iter().any(|x| x.name == c.name) {
                    tab.cols.push(c);
                }
            }
            Edit::DropCol(t, c) => self.col(*t, *c, |cols, i| {
                cols.remove(i);
            }),
            Edit::Retype(t, c, k) => {
                let Some(tn) = self.pick(*t) else { return };
                let probe = Col { name: 0, kind: *k, nullable: false, unique: false, default: None };
                let k = self.fix(probe, tn).kind;
                self.col(*t, *c, |cols, i| {
                    cols[i].kind = k;
                    cols[i].default = None;
                })
            }
            Edit::Nullable(t, c) => self.col(*t, *c, |cols, i| cols[i].nullable ^= true),
            Edit::Unique(t, c) => self.col(*t, *c, |cols, i| cols[i].unique ^= true),
            Edit::Default(t, c, d) => self.col(*t, *c, |cols, i| {
                if let Kind::Ty(ty) = cols[i].kind {
                    if d.is_none() || default_val(ty, d.unwrap()).is_some() {
                        cols[i].default = *d;
                    }
                }
            }),
            Edit::AddMany(t, f, to) => {
                let (Some(t), Some(to)) = (self.pick(*t), self.pick(*to)) else { return };
                self.0.get_mut(&t).unwrap().many.insert(f % MANYS.len() as u8, to);
            }
            Edit::DropMany(t, f) => {
                let Some(t) = self.pick(*t) else { return };
                let m = &mut self.0.get_mut(&t).unwrap().many;
                let k: Vec<u8> = m.keys().copied().collect();
                if !k.is_empty() {
                    m.remove(&k[*f as usize % k.len()]);
                }
            }
            Edit::PkTy(t, pk) => {
                let Some(t) = self.pick(*t) else { return };
                self.0.get_mut(&t).unwrap().pk = *pk;
            }
        }
    }
    fn col(&mut self, t: u8, c: u8, f: impl FnOnce(&mut Vec<Col>, usize)) {
        // among the tables that have columns
        let k: Vec<u8> = self.0.iter().filter(|x| !x.1.cols.is_empty()).map(|x| *x.0).collect();
        if k.is_empty() {
            return;
        }
        let cols = &mut self.0.get_mut(&k[t as usize % k.len()]).unwrap().cols;
        let i = c as usize % cols.len();
        f(cols, i)
    }

    /// The abstract schema, as the model macro records it: types and references of relations are
    /// given by the table they refer to.
    pub fn adb(&self) -> ADB {
        let mut adb = ADB::new();
        for t in self.tables_unresolved(false) {
            adb.replace_table(t);
        }
        if let Err(e) = adb.resolve_types() {
            crate::infra!("resolve_types: {e}");
        }
        adb
    }
    /// `reverse`: tables and columns in the opposite order.
    pub fn tables_unresolved(&self, reverse: bool) -> Vec<ATable> {
        let mut out = Vec::new();
        for (n, t) in &self.0 {
            let name = TABLES[*n as usize];
            let mut at = ATable::new(name.to_string());
            let known = |ty: Ty| DeferredSqlType::KnownId(TypeIdentifier::Ty(ty.sql()));
            let pk_of = |t: u8| DeferredSqlType::Deferred(TypeKey::PK(TABLES[t as usize].to_string()));
            at.add_column(AColumn::new(
                PKS[*n as usize],
                known(t.pk.ty()),
                false,
                true,
                t.pk.auto(),
                false,
                None,
                None,
            ));
            let mut cols = t.cols.clone();
            if reverse {
                cols.reverse();
            }
            for c in &cols {
                let (ty, reference) = match c.kind {
                    Kind::Ty(ty) => (known(ty), None),
                    Kind::Fk(to) => (pk_of(to), Some(ARef::Deferred(pk_of(to)))),
                };
                let default = match (c.kind, c.default) {
                    (Kind::Ty(ty), Some(d)) => default_val(ty, d),
                    _ => None,
                };
                at.add_column(AColumn::new(
                    COLS[c.name as usize],
                    ty,
                    c.nullable,
                    false,
                    false,
                    c.unique,
                    default,
                    reference,
                ));
            }
            for (f, to) in &t.many {
                out.push(create_many_table(
                    name,
                    MANYS[*f as usize],
                    pk_of(*to),
                    PKS[*n as usize],
                    known(t.pk.ty()),
                ));
            }
            out.push(at);
        }
        if reverse {
            out.reverse();
        }
        out
    }
}

// ---- what is expected of the database

#[derive(Clone, Debug, PartialEq)]
pub struct FCol {
    pub name: &'static str,
    pub ty: Ty,
    pub nullable: bool,
    pub pk: bool,
    pub auto: bool,
    pub unique: bool,
    pub default: Option<SqlVal>,
    pub fk: Option<(&'static str, &'static str)>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Flat(pub BTreeMap<&'static str, Vec<FCol>>);

fn link_name(t: u8, f: u8) -> &'static str {
    use std::sync::OnceLock;
    static N: OnceLock<Vec<String>> = OnceLock::new();
    let v = N.get_or_init(|| {
        TABLES
            .iter()
            .flat_map(|t| MANYS.iter().map(move |m| format!("{t}_{m}_Many")))
            .collect()
    });
    &v[t as usize * MANYS.len() + f as usize]
}
impl State {
    pub fn flat(&self) -> Flat {
        let mut out = Flat::default();
        let key = |t: u8| (TABLES[t as usize], PKS[t as usize]);
        for (n, t) in &self.0 {
            let mut cols = vec![FCol {
                name: PKS[*n as usize],
                ty: t.pk.ty(),
                nullable: false,
                pk: true,
                auto: t.pk.auto(),
                unique: false,
                default: None,
                fk: None,
            }];
            for c in &t.cols {
                cols.push(FCol {
                    name: COLS[c.name as usize],
                    ty: match c.kind {
                        Kind::Ty(ty) => ty,
                        Kind::Fk(to) => self.0[&to].pk.ty(),
                    },
                    nullable: c.nullable,
                    pk: false,
                    auto: false,
                    unique: c.unique,
                    default: match (c.kind, c.default) {
                        (Kind::Ty(ty), Some(d)) => default_val(ty, d),
                        _ => None,
                    },
                    fk: match c.kind {
                        Kind::Fk(to) => Some(key(to)),
                        _ => None,
                    },
                });
            }
            for (f, to) in &t.many {
                let link = |name, t: u8| FCol {
                    name,
                    ty: self.0[&t].pk.ty(),
                    nullable: false,
                    pk: false,
                    auto: false,
                    unique: false,
                    default: None,
                    fk: Some(key(t)),
                };
                out.0.insert(link_name(*n, *f), vec![link("owner", *n), link("has", *to)]);
            }
            out.0.insert(TABLES[*n as usize], cols);
        }
        out
    }
}
impl Flat {
    /// Equal but for the order of columns.
    pub fn same(&self, o: &Flat) -> bool {
        let sorted = |f: &Flat| {
            let mut f = f.clone();
            f.0.values_mut().for_each(|c| c.sort_by_key(|c| c.name));
            f
        };
        sorted(self) == sorted(o)
    }
    pub fn col(&self, t: &str, c: &str) -> Option<&FCol> {
        self.0.get(t)?.iter().find(|x| x.name == c)
    }
    /// Tables in an order in which the ones that rows need come first; the rest (cycles of
    /// required references) is left out.
    pub fn fill_order(&self) -> Vec<&'static str> {
        let mut out: Vec<&'static str> = Vec::new();
        loop {
            let n = out.len();
            for (t, cols) in &self.0 {
                if !out.contains(t)
                    && cols.iter().all(|c| match c.fk {
                        Some((to, _)) if !c.nullable => out.contains(&to),
                        _ => true,
                    })
                {
                    out.push(t);
                }
            }
            if out.len() == n {
                return out;
            }
        }
    }
}

/// A database's schema, as introspected. Names are lower-cased.
#[derive(Clone, Debug, PartialEq)]
pub struct ICol {
    pub ty: String,
    pub notnull: bool,
    pub pk: bool,
    pub unique: usize,
    pub fks: Vec<(String, String)>,
    /// Automatic key; PostgreSQL only.
    pub auto: bool,
}
pub type ISchema = BTreeMap<String, BTreeMap<String, ICol>>;

pub fn expected(f: &Flat, fl: Fl) -> ISchema {
    f.0.iter()
        .map(|(t, cols)| {
            (
                t.to_lowercase(),
                cols.iter()
                    .map(|c| {
                        (
                            c.name.to_lowercase(),
                            ICol {
                                ty: c.ty.physical(fl.is_pg()).to_string(),
                                notnull: !c.nullable,
                                pk: c.pk,
                                unique: c.unique as usize,
                                fks: c
                                    .fk
                                    .iter()
                                    .map(|(a, b)| (a.to_lowercase(), b.to_lowercase()))
                                    .collect(),
                                auto: c.auto && fl.is_pg(),
                            },
                        )
                    })
                    .collect(),
            )
        })
        .collect()
}

/// The database's schema, without the migrations' own table.
pub fn introspect(env: &Env, db: &Db) -> Result<ISchema, Fail> {
    let mut s = if db.fl.is_pg() { introspect_pg(env) } else { introspect_lite(db)? };
    s.remove("butane_migrations");
    Ok(s)
}
fn introspect_pg(env: &Env) -> ISchema {
    let admin = env.admin();
    let q = |sql: &str| match env.rt.block_on(admin.query(sql, &[])) {
        Ok(r) => r,
        Err(e) => crate::infra!("introspection: {e}"),
    };
    let mut out = ISchema::new();
    for r in q("SELECT c.relname::text, a.attname::text, format_type(a.atttypid, a.atttypmod), a.attnotnull,
          coalesce(pg_get_expr(d.adbin, d.adrelid) LIKE 'nextval(%', false) OR a.attidentity::text <> ''
        FROM pg_class c LEFT JOIN pg_attribute a ON a.attrelid = c.oid AND a.attnum > 0 AND NOT a.attisdropped
          LEFT JOIN pg_attrdef d ON d.adrelid = c.oid AND d.adnum = a.attnum
        WHERE c.relnamespace = 'public'::regnamespace AND c.relkind = 'r'")
    {
        let t = out.entry(r.get::<_, String>(0).to_lowercase()).or_default();
        if let Some(c) = r.get::<_, Option<String>>(1) {
            t.insert(
                c.to_lowercase(),
                ICol {
                    ty: r.get(2),
                    notnull: r.get(3),
                    pk: false,
                    unique: 0,
                    fks: vec![],
                    auto: r.get(4),
                },
            );
        }
    }
    for r in q("SELECT c.relname::text, k.contype::text,
          (SELECT array_agg(a.attname::text) FROM pg_attribute a WHERE a.attrelid = k.conrelid AND a.attnum = ANY(k.conkey)),
          f.relname::text,
          (SELECT array_agg(a.attname::text) FROM pg_attribute a WHERE a.attrelid = k.confrelid AND a.attnum = ANY(k.confkey))
        FROM pg_constraint k JOIN pg_class c ON c.oid = k.conrelid LEFT JOIN pg_class f ON f.oid = k.confrelid
        WHERE c.relnamespace = 'public'::regnamespace")
    {
        let (t, kind, cols): (String, String, Vec<String>) = (r.get(0), r.get(1), r.get(2));
        let tab = out.get_mut(&t.to_lowercase()).expect("table");
        let c = tab.get_mut(&cols[0].to_lowercase()).expect("column");
        match (kind.as_str(), cols.len()) {
            ("p", 1) => c.pk = true,
            ("u", 1) => c.unique += 1,
            ("f", 1) => {
                let to: String = r.get(3);
                let tc: Vec<String> = r.get(4);
                c.fks.push((to.to_lowercase(), tc.join(",").to_lowercase()));
            }
            ("n", _) => {}
            _ => c.ty += &format!(" [{kind} {cols:?}]"),
        }
    }
    out
}
/// Quotes the words which are names of ours and no keywords (those are upper-case).
fn quote_names(sql: &str) -> String {
    let mut out = String::new();
    let (mut word, mut quote) = (String::new(), None);
    for c in sql.chars().chain(Some(' ')) {
        if quote.is_none() && (c.is_alphanumeric() || c == '_') {
            word.push(c);
            continue;
        }
        let name = !word.is_empty()
            && (TABLES.iter().any(|t| word.eq_ignore_ascii_case(t))
                || PKS.iter().chain(&COLS).any(|t| word == *t));
        if name && c != '"' {
            out += &format!("\"{word}\"");
        } else {
            out += &word;
        }
        word.clear();
        match quote {
            None if c == '\'' || c == '"' => quote = Some(c),
            Some(q) if q == c => quote = None,
            _ => {}
        }
        out.push(c);
    }
    out
}
fn introspect_lite(db: &Db) -> Result<ISchema, Fail> {
    let cols = [Column::new("type", SqlType::Text), Column::new("name", SqlType::Text), Column::new("sql", SqlType::Text)];
    let rows = match db.c().query("sqlite_master", &cols, None, None, None, None) {
        Ok(r) => r,
        Err(e) => crate::infra!("sqlite_master: {e}"),
    };
    let mut items = Vec::new();
    for r in &rows {
        match (&r[0], &r[1], &r[2]) {
            (SqlVal::Text(ty), SqlVal::Text(name), SqlVal::Text(sql)) => {
                items.push((ty.clone(), name.clone(), sql.clone()))
            }
            (_, _, SqlVal::Null) => {}
            _ => crate::infra!("sqlite_master: {r:?}"),
        }
    }
    lite_schema(&items, db.fl.is_tu())
}
/// The schema defined by statements given as kind, name, definition.
pub fn lite_schema(items: &[(String, String, String)], turso: bool) -> Result<ISchema, Fail> {
    // Rebuild the schema in a database of our own, and ask that.
    let m = rusqlite::Connection::open_in_memory().unwrap();
    let mut names = Vec::new();
    for pass in ["table", "index"] {
        for (ty, name, sql) in items {
            if name.starts_with("sqlite_") || name.starts_with("__turso") || ty != pass {
                continue;
            }
            // The Turso engine rewrites definitions without the quotes of names
            let sql = if turso { quote_names(sql) } else { sql.clone() };
            if let Err(e) = m.execute_batch(&sql) {
                fail!("catalogue", "the stored definition of {name} is invalid ({e}): {sql}");
            }
            if ty == "table" {
                names.push(name.clone());
            }
        }
    }
    let mut out = ISchema::new();
    let list = |sql: String| -> Vec<Vec<rusqlite::types::Value>> {
        let mut st = m.prepare(&sql).unwrap();
        let n = st.column_count();
        let r = st
            .query_map([], |r| (0..n).map(|i| r.get(i)).collect::<rusqlite::Result<Vec<_>>>())
            .unwrap();
        r.map(|x| x.unwrap()).collect()
    };
    use rusqlite::types::Value as V;
    let text = |v: &V| match v {
        V::Text(s) => s.to_lowercase(),
        V::Null => String::new(),
        v => format!("{v:?}"),
    };
    let int = |v: &V| matches!(v, V::Integer(i) if *i != 0);
    for name in names {
        let mut tab = BTreeMap::new();
        for r in list(format!("PRAGMA table_info(\"{name}\")")) {
            tab.insert(
                text(&r[1]),
                ICol {
                    ty: text(&r[2]),
                    notnull: int(&r[3]),
                    pk: int(&r[5]),
                    unique: 0,
                    fks: vec![],
                    auto: false,
                },
            );
        }
        for r in list(format!("PRAGMA index_list(\"{name}\")")) {
            let (idx, uniq, origin) = (text(&r[1]), int(&r[2]), text(&r[3]));
            if origin == "pk" || !uniq {
                continue;
            }
            let ic = list(format!("PRAGMA index_info(\"{idx}\")"));
            let c = tab.get_mut(&text(&ic[0][2])).expect("column");
            c.unique += 1;
            if ic.len() > 1 {
                c.ty += " [part of a compound index]";
            }
        }
        for r in list(format!("PRAGMA foreign_key_list(\"{name}\")")) {
            let c = tab.get_mut(&text(&r[3])).expect("column");
            c.fks.push((text(&r[2]), text(&r[4])));
        }
        out.insert(name.to_lowercase(), tab);
    }
    Ok(out)
}
pub fn schema_diff(want: &ISchema, got: &ISchema) -> Option<String> {
    if want == got {
        return None;
    }
    let mut out = String::new();
    let names: BTreeSet<&String> = want.keys().chain(got.keys()).collect();
    for n in names {
        match (want.get(n), got.get(n)) {
            (Some(_), None) => out += &format!("table {n} is missing; "),
            (None, Some(_)) => out += &format!("table {n} should not exist; "),
            (Some(w), Some(g)) => {
                let cols: BTreeSet<&String> = w.keys().chain(g.keys()).collect();
                for c in cols {
                    if w.get(c) != g.get(c) {
                        out += &format!("{n}.{c}: expected {:?}, got {:?}; ", w.get(c), g.get(c));
                    }
                }
            }
            _ => {}
        }
    }
    Some(out)
}

// ---- rows

#[derive(Clone, Debug, PartialEq)]
pub enum Cell {
    Is(SqlVal),
    /// Not NULL, otherwise unspecified.
    Some,
    /// Unspecified: converted from another type.
    Unknown,
}
pub type Row = BTreeMap<&'static str, Cell>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Rows(pub BTreeMap<&'static str, Vec<Row>>);

pub fn val(ty: Ty, k: i64) -> SqlVal {
    match ty {
        Ty::Bool => SqlVal::Bool(k % 2 == 0),
        Ty::Int => SqlVal::Int(k as i32),
        Ty::Big => SqlVal::BigInt(k),
        Ty::Real => SqlVal::Real(k as f64 + 0.5),
        Ty::Text => SqlVal::Text(match k % 4 {
            0 => format!("{k}"),
            1 => format!("it's; -- \"{k}\""),
            2 => format!("é%_{k}"),
            _ => format!(" {k} "),
        }),
        Ty::Blob => SqlVal::Blob(vec![0, 255, (k % 256) as u8, (k / 256) as u8]),
        Ty::Json => SqlVal::Json(serde_json::json!({ "k": k, "q": "it's" })),
        Ty::Date => SqlVal::Date(
            NaiveDate::from_ymd_opt(2020, 1, 1).unwrap() + chrono::Duration::days(k),
        ),
        Ty::Ts => SqlVal::Timestamp(
            NaiveDate::from_ymd_opt(2020, 1, 1).unwrap().and_hms_micro_opt(1, 2, 3, 456000).unwrap()
                + chrono::Duration::seconds(k * 1000),
        ),
    }
}
fn has(rows: &[Row], col: &str, v: &SqlVal) -> bool {
    rows.iter().any(|r| !matches!(&r[col], Cell::Is(x) if x != v))
}
pub fn columns(cols: &[FCol]) -> Vec<Column> {
    cols.iter().map(|c| Column::new(c.name, c.ty.sql())).collect()
}

impl Rows {
    /// Some values were converted from another type.
    pub fn unknown(&self) -> bool {
        self.0.values().flatten().flat_map(|r| r.values()).any(|c| *c == Cell::Unknown)
    }
    /// Values for a new row of `t`, as many different ones as possible; None when there can be none.
    pub fn candidate(&self, f: &Flat, t: &'static str, k: i64) -> Option<Vec<SqlVal>> {
        let empty = Vec::new();
        let have = self.0.get(t).unwrap_or(&empty);
        let mut out = Vec::new();
        for (i, c) in f.0[t].iter().enumerate() {
            let mut v = if c.nullable && (k + i as i64) % 3 == 0 {
                SqlVal::Null
            } else if let Some((to, toc)) = c.fk {
                let parents = self.0.get(to).unwrap_or(&empty);
                let known: Vec<&SqlVal> = parents
                    .iter()
                    .filter_map(|r| match &r[toc] {
                        Cell::Is(v) if !c.unique || !has(have, c.name, v) => Some(v),
                        _ => None,
                    })
                    .collect();
                if known.is_empty() {
                    SqlVal::Null
                } else {
                    known[k as usize % known.len()].clone()
                }
            } else {
                val(c.ty, k * 7 + i as i64 + 1)
            };
            if v != SqlVal::Null && (c.unique || c.pk) && !c.auto && has(have, c.name, &v) {
                v = SqlVal::Null;
            }
            if v == SqlVal::Null && !c.nullable {
                return None;
            }
            out.push(v);
        }
        Some(out)
    }
    /// Adds a row.
    pub fn insert(&mut self, f: &Flat, c: &C, t: &'static str, vals: &[SqlVal]) -> Result<(), String> {
        let fc = &f.0[t];
        let cols = columns(fc);
        let mut row: Row =
            fc.iter().zip(vals).map(|(c, v)| (c.name, Cell::Is(v.clone()))).collect();
        if let Some(i) = fc.iter().position(|c| c.auto) {
            let pk = cols[i].clone();
            let (mut ac, mut av) = (cols.clone(), vals.to_vec());
            ac.remove(i);
            av.remove(i);
            let v = c.insert_returning_pk(t, &ac, &pk, &av).map_err(|e| e.to_string())?;
            if self.0.get(t).is_some_and(|r| r.iter().any(|r| r[fc[i].name] == Cell::Is(v.clone()))) {
                return Err(format!("the key {v:?} is already in use"));
            }
            row.insert(fc[i].name, Cell::Is(v));
        } else {
            c.insert_only(t, &cols, vals).map_err(|e| e.to_string())?;
        }
        self.0.entry(t).or_default().push(row);
        Ok(())
    }
    /// Adds up to `n` rows to each table.
    pub fn fill(&mut self, f: &Flat, c: &C, n: u8, seed: u8, what: &str) -> Result<usize, Fail> {
        let mut count = 0;
        for t in f.fill_order() {
            for i in 0..n {
                let k = self.0.get(t).map_or(0, |r| r.len()) as i64 + i as i64 + seed as i64;
                if let Some(v) = self.candidate(f, t, k) {
                    if let Err(e) = self.insert(f, c, t, &v) {
                        fail!("row-refused", "{what}: {t} refuses the row {v:?}: {e}");
                    }
                    count += 1;
                }
            }
        }
        Ok(count)
    }
    /// The rows after the schema has changed.
    pub fn migrated(&self, from: &Flat, to: &Flat) -> Rows {
        let mut out = Rows::default();
        for (t, rows) in &self.0 {
            let (Some(old), Some(new)) = (from.0.get(t), to.0.get(t)) else { continue };
            let mut nr = Vec::new();
            for r in rows {
                let mut n = Row::new();
                for c in new {
                    let cell = match old.iter().find(|o| o.name == c.name) {
                        Some(o) if o.ty == c.ty => r[c.name].clone(),
                        Some(o) => match (&r[c.name], o.ty, c.ty) {
                            (Cell::Is(SqlVal::Null), _, _) => Cell::Is(SqlVal::Null),
                            (Cell::Is(SqlVal::Int(i)), Ty::Int, Ty::Big) => {
                                Cell::Is(SqlVal::BigInt(*i as i64))
                            }
                            _ => Cell::Unknown,
                        },
                        None => match (&c.default, c.nullable) {
                            (Some(v), _) => Cell::Is(v.clone()),
                            (None, true) => Cell::Is(SqlVal::Null),
                            (None, false) => Cell::Some,
                        },
                    };
                    n.insert(c.name, cell);
                }
                nr.push(n);
            }
            out.0.insert(t, nr);
        }
        out
    }
    /// Compares with the database.
    pub fn check(&self, f: &Flat, c: &C, what: &str) -> Result<(), Fail> {
        let empty = Vec::new();
        for (t, cols) in &f.0 {
            let want = self.0.get(t).unwrap_or(&empty);
            let keep: Vec<FCol> = cols
                .iter()
                .filter(|c| !want.iter().any(|r| r[c.name] == Cell::Unknown))
                .cloned()
                .collect();
            if keep.is_empty() {
                continue;
            }
            let got = match c.query(t, &columns(&keep), None, None, None, None) {
                Ok(r) => r,
                Err(e) => fail!("unreadable", "{what}: reading {t}: {e}"),
            };
            ensure!(
                got.len() == want.len(),
                "row-count",
                "{what}: {t} has {} rows, expected {}",
                got.len(),
                want.len()
            );
            let mut left: Vec<&Vec<SqlVal>> = got.iter().collect();
            for w in want {
                let m = left.iter().position(|g| {
                    keep.iter().zip(g.iter()).all(|(c, v)| match &w[c.name] {
                        Cell::Is(x) => x == v,
                        Cell::Some => *v != SqlVal::Null,
                        Cell::Unknown => true,
                    })
                });
                match m {
                    Some(i) => {
                        left.remove(i);
                    }
                    None => fail!(
                        "rows-changed",
                        "{what}: {t}: no row matches {w:?} among {left:?} (columns {:?})",
                        keep.iter().map(|c| c.name).collect::<Vec<_>>()
                    ),
                }
            }
        }
        Ok(())
    }
}

/// The Turso engine panics when asked to add a column to a table with an upper-case name, and does
/// not rename the indexes of renamed tables (known findings).
pub const TURSO_REBUILD: &str = "turso: change not supported by the engine";
/// Reasons for which a migration may be refused; empty when it has to succeed.
pub fn may_refuse(fl: Fl, from: &Flat, to: &Flat, rows: &Rows) -> Vec<&'static str> {
    let mut out = Vec::new();
    let empty = Vec::new();
    let mut changed_pk: Vec<&str> = Vec::new();
    for (t, new) in &to.0 {
        let Some(old) = from.0.get(t) else { continue };
        let upper = t.chars().any(char::is_uppercase);
        let indexed = |c: &FCol| c.unique || (c.pk && !matches!(c.ty, Ty::Int | Ty::Big));
        let rebuild = old.iter().chain(new).any(indexed);
        let rs = rows.0.get(t).unwrap_or(&empty);
        for c in new {
            let nulls = rs.iter().any(|r| r.get(c.name).is_some_and(|x| *x == Cell::Is(SqlVal::Null) || *x == Cell::Unknown));
            let Some(o) = old.iter().find(|o| o.name == c.name) else {
                if !rs.is_empty() && c.fk.is_some() && !c.nullable {
                    out.push("required reference added to a table with rows");
                }
                if rs.len() > 1 && c.unique && (c.default.is_some() || !c.nullable) {
                    out.push("unique column added to a table with rows");
                }
                if fl.is_tu() && upper {
                    out.push(TURSO_REBUILD);
                }
                if fl.is_tu() && c.unique {
                    out.push("turso: unique column added");
                }
                let negative = |v: &SqlVal| match v {
                    SqlVal::Int(i) => *i < 0,
                    SqlVal::BigInt(i) => *i < 0,
                    SqlVal::Real(r) => *r < 0.0,
                    _ => false,
                };
                if fl.is_tu() && c.default.as_ref().is_some_and(negative) {
                    out.push("turso: negative default");
                }
                continue;
            };
            if o == c {
                continue;
            }
            if fl.is_tu() && rebuild {
                out.push(TURSO_REBUILD);
            }
            if o.ty != c.ty {
                if c.pk {
                    changed_pk.push(t);
                    if fl.is_pg() && !(o.ty.numeric() && c.ty.numeric()) {
                        let referred = |f: &Flat| {
                            f.0.values().flatten().any(|x| x.fk.is_some_and(|k| k.0 == *t))
                        };
                        if referred(from) || referred(to) {
                            out.push("referenced key changes type");
                        }
                    }
                }
                if fl.is_pg() && !o.ty.pg_castable(c.ty) {
                    out.push("no conversion between the types");
                }
                let harmless = (o.ty, c.ty) == (Ty::Int, Ty::Big)
                    || (!fl.is_pg() && o.ty.physical(false) == c.ty.physical(false));
                if !rs.is_empty() && !harmless {
                    out.push("values may not convert");
                }
            }
            if c.unique && !o.unique {
                let mut seen = Vec::new();
                for r in rs {
                    match &r[c.name] {
                        Cell::Is(SqlVal::Null) => {}
                        Cell::Is(v) if !seen.contains(&v) => seen.push(v),
                        _ => out.push("duplicates"),
                    }
                }
            }
            if !c.nullable && o.nullable && nulls {
                out.push("NULLs");
            }
            if c.fk.is_some() && c.fk != o.fk && !rs.is_empty() {
                out.push("values may dangle");
            }
        }
        if fl.is_tu() {
            // and it loses the quotes of names when it alters a table
            let reserved = |c: &FCol| c.name == "limit";
            if (*t == "Order" || old.iter().chain(new).any(reserved))
                && !(old.len() == new.len() && old.iter().all(|o| new.contains(o)))
            {
                out.push(TURSO_REBUILD);
            }
            for o in old {
                if !new.iter().any(|c| c.name == o.name) {
                    if o.fk.is_some() && rebuild {
                        out.push(TURSO_REBUILD);
                    } else if o.unique {
                        out.push("turso: unique column removed");
                    }
                }
            }
        }
    }
    out
}

// ---- generation

fn s_ty() -> BoxedStrategy<Ty> {
    prop_oneof![
        2 => Just(Ty::Int), 2 => Just(Ty::Big), 2 => Just(Ty::Text),
        3 => proptest::sample::select(&TYS[..])
    ]
    .boxed()
}
fn s_kind() -> BoxedStrategy<Kind> {
    prop_oneof![3 => s_ty().prop_map(Kind::Ty), 1 => any::<u8>().prop_map(Kind::Fk)].boxed()
}
pub fn s_pk() -> BoxedStrategy<Pk> {
    prop_oneof![
        3 => Just(Pk::AutoInt), 3 => Just(Pk::AutoBig), 2 => Just(Pk::Int), 2 => Just(Pk::Big),
        2 => Just(Pk::Text), 1 => Just(Pk::Blob)
    ]
    .boxed()
}
pub fn s_col() -> BoxedStrategy<Col> {
    (
        0..COLS.len() as u8,
        s_kind(),
        any::<bool>(),
        proptest::bool::weighted(0.25),
        proptest::option::weighted(0.35, 0u8..8),
    )
        .prop_map(|(name, kind, nullable, unique, default)| Col { name, kind, nullable, unique, default })
        .boxed()
}
pub fn s_add_table() -> BoxedStrategy<Edit> {
    (0..TABLES.len() as u8, s_pk(), proptest::collection::vec(s_col(), 0..5))
        .prop_map(|(n, pk, cols)| Edit::AddTable(n, pk, cols))
        .boxed()
}
pub fn s_edit() -> BoxedStrategy<Edit> {
    let (t, c) = (|| 0u8..6, || 0u8..6);
    prop_oneof![
        5 => s_add_table(),
        2 => (t(), any::<bool>()).prop_map(|(t, k)| Edit::DropTable(t, k)),
        6 => (t(), s_col()).prop_map(|(t, c)| Edit::AddCol(t, c)),
        4 => (t(), c()).prop_map(|(t, c)| Edit::DropCol(t, c)),
        3 => (t(), c(), s_kind()).prop_map(|(t, c, k)| Edit::Retype(t, c, k)),
        2 => (t(), c()).prop_map(|(t, c)| Edit::Nullable(t, c)),
        2 => (t(), c()).prop_map(|(t, c)| Edit::Unique(t, c)),
        2 => (t(), c(), proptest::option::of(0u8..8)).prop_map(|(t, c, d)| Edit::Default(t, c, d)),
        2 => (t(), 0u8..3, t()).prop_map(|(t, f, to)| Edit::AddMany(t, f, to)),
        1 => (t(), 0u8..3).prop_map(|(t, f)| Edit::DropMany(t, f)),
        1 => (t(), s_pk()).prop_map(|(t, p)| Edit::PkTy(t, p)),
    ]
    .boxed()
}
/// A chain: the edits that make up each migration.
pub type Chain = Vec<Vec<Edit>>;
pub fn s_chain(max: usize) -> BoxedStrategy<Chain> {
    let first = (proptest::collection::vec(s_add_table(), 1..4), proptest::collection::vec(s_edit(), 0..4))
        .prop_map(|(mut a, b)| {
            a.extend(b);
            a
        });
    (first, proptest::collection::vec(proptest::collection::vec(s_edit(), 1..4), 0..max))
        .prop_map(|(a, b)| {
            let mut v = vec![a];
            v.extend(b);
            v
        })
        .boxed()
}

/// One migration of a chain and the states around it.
pub struct Step {
    pub name: String,
    pub m: MemMigration,
    pub from: Flat,
    pub to: Flat,
}
/// The migrations for a chain. Steps which change nothing make none.
pub fn build(chain: &Chain) -> Result<(MemMigrations, Vec<Step>), Fail> {
    let names: Vec<String> = (0..chain.len()).map(|i| format!("m{i:02}")).collect();
    build_named(chain, &names)
}
pub fn build_named(chain: &Chain, names: &[String]) -> Result<(MemMigrations, Vec<Step>), Fail> {
    let mut ms = MemMigrations::new();
    let mut steps = Vec::new();
    let mut st = State::default();
    for (i, edits) in chain.iter().enumerate() {
        let old = st.clone();
        for e in edits {
            st.edit(e);
        }
        let name = names[i].clone();
        let latest = ms.latest();
        let (of, nf) = (old.flat(), st.flat());
        let made = match ms.create_migration_to(&backends(), &name, latest.as_ref(), st.adb()) {
            Ok(b) => b,
            Err(e) => fail!("create-migration", "creating {name} from {old:?} to {st:?}: {e}"),
        };
        ensure!(
            made != of.same(&nf),
            "create-migration-when-changed",
            "{name}: migration created: {made}; changed: {} ({old:?} to {st:?})",
            !of.same(&nf)
        );
        if made {
            let m = ms.get_migration(&name).unwrap();
            steps.push(Step { name, m, from: of, to: nf });
        }
    }
    Ok((ms, steps))
}
/// The migrations up to and including the `n`th.
pub fn prefix(steps: &[Step], n: usize) -> MemMigrations {
    let mut ms = MemMigrations::new();
    for s in &steps[..n] {
        if let Err(e) = ms.add_migration(s.m.clone()) {
            crate::infra!("add_migration: {e}");
        }
    }
    ms
}
