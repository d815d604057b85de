//! Database flavours: every backend through every API style.
use butane_core::db::{
    self, BackendConnection, BackendConnectionAsync, BackendRows, Column, Connection,
    ConnectionAsync, ConnectionMethods, ConnectionMethodsAsync, SyncAdapter, Transaction,
    TransactionAsync,
};
use butane_core::fkey::{ForeignKey, ForeignKeyOpsAsync, ForeignKeyOpsSync};
use butane_core::many::{Many, ManyOpsAsync, ManyOpsSync};
use butane_core::migrations::{MemMigrations, Migrations};
use butane_core::query::{BoolExpr, Order, OrderDirection, Query, QueryOpsAsync, QueryOpsSync};
use butane_core::{
    DataObject, DataObjectOpsAsync, DataObjectOpsSync, DataResult, Result, SqlVal, SqlValRef, ToSql,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};
use tokio::runtime::Runtime;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize, PartialOrd, Ord)]
pub enum Fl {
    SqS,
    SqA,
    PgA,
    PgS,
    TuA,
    TuS,
}
pub const ALL_FL: [Fl; 6] = [Fl::SqS, Fl::SqA, Fl::PgA, Fl::PgS, Fl::TuA, Fl::TuS];
impl Fl {
    pub fn is_pg(self) -> bool {
        matches!(self, Fl::PgA | Fl::PgS)
    }
    pub fn is_sq(self) -> bool {
        matches!(self, Fl::SqS | Fl::SqA)
    }
    pub fn is_tu(self) -> bool {
        matches!(self, Fl::TuA | Fl::TuS)
    }
    pub fn backend(self) -> &'static str {
        match self {
            Fl::SqS | Fl::SqA => "sqlite",
            Fl::PgA | Fl::PgS => "pg",
            Fl::TuA | Fl::TuS => "turso",
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Fl::SqS => "sqlite-sync",
            Fl::SqA => "sqlite-async",
            Fl::PgA => "pg-async",
            Fl::PgS => "pg-sync",
            Fl::TuA => "turso-async",
            Fl::TuS => "turso-sync",
        }
    }
}
/// Flavour strategy, weighted towards the cheap ones.
pub fn any_fl() -> BoxedStrategy<Fl> {
    prop_oneof![
        4 => Just(Fl::SqS), 2 => Just(Fl::SqA), 2 => Just(Fl::PgA), 1 => Just(Fl::PgS),
        2 => Just(Fl::TuA), 1 => Just(Fl::TuS)
    ]
    .boxed()
}
pub fn sqlpg_fl() -> BoxedStrategy<Fl> {
    prop_oneof![4 => Just(Fl::SqS), 2 => Just(Fl::SqA), 2 => Just(Fl::PgA), 2 => Just(Fl::PgS)]
        .boxed()
}

pub fn pg_base() -> &'static str {
    static B: OnceLock<String> = OnceLock::new();
    B.get_or_init(|| match std::env::var("BH_PG") {
        Ok(s) => s,
        Err(_) => crate::infra!("BH_PG not set"),
    })
}

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
pub fn scratch_root() -> std::path::PathBuf {
    static B: OnceLock<std::path::PathBuf> = OnceLock::new();
    B.get_or_init(|| {
        std::env::var("BH_SCRATCH")
            .map(Into::into)
            .unwrap_or_else(|_| std::env::temp_dir().join(format!("bh-{}", std::process::id())))
    })
    .clone()
}
pub fn fresh_path(tag: &str) -> std::path::PathBuf {
    let n = SCRATCH_N.fetch_add(1, Ordering::SeqCst);
    let r = scratch_root();
    std::fs::create_dir_all(&r).unwrap();
    r.join(format!("{tag}{n}"))
}

/// Per-worker environment: a tokio runtime and one PostgreSQL database.
pub struct Env {
    pub wk: usize,
    pub rt: Arc<Runtime>,
    pg_db: OnceLock<String>,
    pg_admin: OnceLock<tokio_postgres::Client>,
    pg_schema: Option<String>,
    pg_wipe: String,
    tag: &'static str,
}
impl Env {
    pub fn new(wk: usize) -> Env {
        Env::tagged(wk, "w")
    }
    pub fn tagged(wk: usize, tag: &'static str) -> Env {
        Env {
            wk,
            rt: Arc::new(
                tokio::runtime::Builder::new_multi_thread()
                    .worker_threads(2)
                    .enable_all()
                    .build()
                    .unwrap(),
            ),
            pg_db: OnceLock::new(),
            pg_admin: OnceLock::new(),
            pg_schema: None,
            pg_wipe: String::new(),
            tag,
        }
    }
    /// Connection string of this worker's PostgreSQL database.
    pub fn pg_conn_str(&self) -> String {
        let name = self.pg_db.get_or_init(|| {
            let n = SCRATCH_N.fetch_add(1, Ordering::SeqCst);
            let name = format!("bh_{}_{}_{n}", self.tag, self.wk);
            self.rt.block_on(async {
                let (client, conn) =
                    match tokio_postgres::connect(pg_base(), tokio_postgres::NoTls).await {
                        Ok(x) => x,
                        Err(e) => crate::infra!("pg connect: {e}"),
                    };
                tokio::spawn(conn);
                if let Err(e) = client
                    .batch_execute(&format!("CREATE DATABASE {name} TEMPLATE template0"))
                    .await
                {
                    crate::infra!("create database: {e}")
                }
            });
            name
        });
        format!("{} dbname={name}", pg_base())
    }
    pub fn admin(&self) -> &tokio_postgres::Client {
        let cs = self.pg_conn_str();
        self.pg_admin.get_or_init(|| {
            self.rt.block_on(async {
                let (client, conn) =
                    match tokio_postgres::connect(&cs, tokio_postgres::NoTls).await {
                        Ok(x) => x,
                        Err(e) => crate::infra!("pg connect: {e}"),
                    };
                tokio::spawn(conn);
                client
            })
        })
    }
    /// A database holding the given schema and no rows.
    pub fn fresh(&mut self, fl: Fl, schema: &crate::schema::Schema) -> Db {
        if !fl.is_pg() {
            let db = self.open(fl, false);
            if let Err(e) = db.c().execute(&schema.up[fl.backend()]) {
                crate::infra!("{}: schema: {e}", fl.name());
            }
            return db;
        }
        if self.pg_schema.as_deref() == Some(schema.key.as_str()) {
            let mut sql = String::from(
                "SET client_min_messages=error; SET lock_timeout='5s'; SET session_replication_role=replica;",
            );
            sql += &self.pg_wipe;
            let ok = {
                let admin = self.admin();
                self.rt.block_on(admin.batch_execute(&sql)).is_ok()
            };
            if !ok {
                self.pg_new_db();
            }
        } else {
            self.pg_schema = None;
        }
        if self.pg_schema.is_none() {
            self.pg_reset();
            let r = {
                let admin = self.admin();
                self.rt.block_on(admin.batch_execute(&schema.up["pg"]))
            };
            if let Err(e) = r {
                crate::infra!("pg schema: {e}");
            }
            let r = {
                let admin = self.admin();
                self.rt.block_on(admin.query("SELECT quote_ident(tablename) FROM pg_tables WHERE schemaname='public'", &[]))
            };
            match r {
                Ok(rows) => {
                    self.pg_wipe = rows.iter().map(|r| format!("DELETE FROM {};", r.get::<_, String>(0))).collect()
                }
                Err(e) => crate::infra!("pg tables: {e}"),
            }
            self.pg_schema = Some(schema.key.clone());
        }
        let cs = self.pg_conn_str();
        match self.connect(fl, &cs) {
            Ok(d) => d,
            Err(e) => crate::infra!("connect {fl:?}: {e}"),
        }
    }
    /// Abandon the worker's PostgreSQL database (something still holds locks in it).
    fn pg_new_db(&mut self) {
        let _g = self.rt.enter();
        self.pg_db = OnceLock::new();
        self.pg_admin = OnceLock::new();
        self.pg_schema = None;
    }
    pub fn pg_reset(&self) {
        let admin = self.admin();
        let r = self.rt.block_on(admin.batch_execute(
            "SET client_min_messages=error; SET lock_timeout='20s'; DROP SCHEMA public CASCADE; CREATE SCHEMA public;",
        ));
        if let Err(e) = r {
            crate::infra!("pg reset: {e}")
        }
    }
    /// A fresh, empty database. `path` makes file-backed databases reconnectable.
    pub fn open(&self, fl: Fl, file_backed: bool) -> Db {
        let cs = match fl {
            Fl::PgA | Fl::PgS => {
                self.pg_reset();
                self.pg_conn_str()
            }
            _ if file_backed => {
                let d = fresh_path("db");
                std::fs::create_dir_all(&d).unwrap();
                d.join("t.db").to_string_lossy().into_owned()
            }
            _ => ":memory:".to_string(),
        };
        let own = file_backed && !fl.is_pg();
        match self.connect(fl, &cs) {
            Ok(mut d) => {
                if own {
                    d.cleanup = std::path::Path::new(&cs).parent().map(|p| Scratch(p.to_path_buf()));
                }
                d
            }
            Err(e) => crate::infra!("connect {fl:?}: {e}"),
        }
    }
    pub fn connect(&self, fl: Fl, cs: &str) -> Result<Db> {
        let be = db::get_backend(fl.backend()).unwrap();
        let any = match fl {
            Fl::SqS | Fl::PgS => Any::S(be.connect(cs)?),
            Fl::TuS => {
                let a = self.rt.block_on(be.connect_async(cs))?;
                Any::S(a.into_sync()?)
            }
            _ => Any::A(self.rt.block_on(be.connect_async(cs))?),
        };
        Ok(Db { fl, any: Some(any), rt: self.rt.clone(), conn_str: cs.to_string(), cleanup: None })
    }
}

/// Directory removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.starts_with(scratch_root()) && self.0 != scratch_root() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

pub enum Any {
    S(Connection),
    A(ConnectionAsync),
}
pub struct Db {
    pub fl: Fl,
    pub any: Option<Any>,
    pub rt: Arc<Runtime>,
    pub conn_str: String,
    pub cleanup: Option<Scratch>,
}
impl Drop for Db {
    fn drop(&mut self) {
        let any = self.any.take();
        let _g = self.rt.enter();
        drop(any);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum TxEnd {
    Commit,
    Rollback,
    Drop,
    /// Panics with the transaction alive.
    Panic,
}

impl Db {
    pub fn c(&self) -> C<'_, '_> {
        match self.any.as_ref().unwrap() {
            Any::S(c) => C::S(c),
            Any::A(c) => C::A(&self.rt, c),
        }
    }
    /// Runs `f` inside a transaction and ends it as `f` says.
    pub fn tx<T>(&mut self, f: impl FnOnce(&C) -> (T, TxEnd)) -> Result<(T, Result<()>)> {
        match self.any.as_mut().unwrap() {
            Any::S(conn) => {
                let t = conn.transaction()?;
                let (v, end) = f(&C::TS(&t));
                let r = match end {
                    TxEnd::Commit => t.commit(),
                    TxEnd::Rollback => t.rollback(),
                    TxEnd::Drop => {
                        drop(t);
                        Ok(())
                    }
                    TxEnd::Panic => {
                        let _t = t;
                        panic!("inside a transaction")
                    }
                };
                Ok((v, r))
            }
            Any::A(conn) => {
                let rt = self.rt.clone();
                let t = rt.block_on(conn.transaction())?;
                let (v, end) = f(&C::TA(&rt, &t));
                let r = match end {
                    TxEnd::Commit => rt.block_on(t.commit()),
                    TxEnd::Rollback => rt.block_on(t.rollback()),
                    TxEnd::Drop => {
                        rt.block_on(async { drop(t) });
                        Ok(())
                    }
                    TxEnd::Panic => rt.block_on(async {
                        let _t = t;
                        panic!("inside a transaction")
                    }),
                };
                Ok((v, r))
            }
        }
    }
    /// Applies all unapplied migrations through the flavour's own API.
    pub fn migrate(&mut self, m: &MemMigrations) -> Result<()> {
        match self.any.as_mut().unwrap() {
            Any::S(c) => m.migrate(c),
            Any::A(c) => self.rt.block_on(m.migrate_async(c)),
        }
    }
    pub fn unmigrate(&mut self, m: &MemMigrations) -> Result<()> {
        match self.any.as_mut().unwrap() {
            Any::S(c) => m.unmigrate(c),
            Any::A(c) => self.rt.block_on(m.unmigrate_async(c)),
        }
    }
    /// Run a closure needing a synchronous connection (the migrations API is synchronous).
    pub fn with_sync<T: Send + 'static>(
        &mut self,
        f: impl FnOnce(&mut dyn SyncConn) -> Result<T> + Send + 'static,
    ) -> Result<T> {
        match self.any.as_mut().unwrap() {
            Any::S(c) => f(c),
            Any::A(c) => self.rt.clone().block_on(c.with_sync(move |c| f(c))),
        }
    }
    /// Converts between the synchronous and the asynchronous form.
    pub fn flip(&mut self, inside: bool) -> Result<()> {
        let g = inside.then(|| self.rt.enter());
        let any = match self.any.take().unwrap() {
            Any::S(c) => Any::A(c.into_async()?),
            Any::A(c) => Any::S(c.into_sync()?),
        };
        drop(g);
        self.any = Some(any);
        Ok(())
    }
    pub fn is_async(&self) -> bool {
        matches!(self.any, Some(Any::A(_)))
    }
    pub fn reconnect(&self, env: &Env) -> Result<Db> {
        env.connect(self.fl, &self.conn_str)
    }
}
/// Object-safe view of what migration code needs from a connection.
pub trait SyncConn {
    fn apply(&mut self, m: &butane_core::migrations::MemMigration) -> Result<()>;
    fn downgrade(&mut self, m: &butane_core::migrations::MemMigration) -> Result<()>;
    fn migrate(&mut self, m: &MemMigrations) -> Result<()>;
    fn unmigrate(&mut self, m: &MemMigrations) -> Result<()>;
    fn unapplied(&mut self, m: &MemMigrations) -> Result<Vec<String>>;
    fn last_applied(&mut self, m: &MemMigrations) -> Result<Option<String>>;
}
impl<T: BackendConnection> SyncConn for T {
    fn apply(&mut self, m: &butane_core::migrations::MemMigration) -> Result<()> {
        butane_core::migrations::Migration::apply(m, self)
    }
    fn downgrade(&mut self, m: &butane_core::migrations::MemMigration) -> Result<()> {
        butane_core::migrations::Migration::downgrade(m, self)
    }
    fn migrate(&mut self, m: &MemMigrations) -> Result<()> {
        m.migrate(self)
    }
    fn unmigrate(&mut self, m: &MemMigrations) -> Result<()> {
        m.unmigrate(self)
    }
    fn unapplied(&mut self, m: &MemMigrations) -> Result<Vec<String>> {
        use butane_core::migrations::Migration;
        Ok(m.unapplied_migrations(self)?.iter().map(|m| m.name().to_string()).collect())
    }
    fn last_applied(&mut self, m: &MemMigrations) -> Result<Option<String>> {
        use butane_core::migrations::Migration;
        Ok(m.last_applied_migration(self)?.map(|m| m.name().to_string()))
    }
}

/// A connection or transaction of any flavour.
pub enum C<'a, 't> {
    S(&'a Connection),
    TS(&'a Transaction<'t>),
    A(&'a Runtime, &'a ConnectionAsync),
    TA(&'a Runtime, &'a TransactionAsync<'t>),
    /// A synchronous section of an asynchronous connection.
    X(&'a SyncAdapter<ConnectionAsync>),
}

macro_rules! on {
    ($self:expr, $c:ident, $s:expr, $a:expr) => {
        match $self {
            C::S($c) => {
                let $c = *$c;
                $s
            }
            C::TS($c) => {
                let $c = *$c;
                $s
            }
            C::X($c) => {
                let $c = *$c;
                $s
            }
            C::A(rt, $c) => {
                let $c = *$c;
                rt.block_on(async move { $a.await })
            }
            C::TA(rt, $c) => {
                let $c = *$c;
                rt.block_on(async move { $a.await })
            }
        }
    };
}

pub fn rows_to_vec<'c>(mut rows: Box<dyn BackendRows + 'c>, cols: &[Column]) -> Result<Vec<Vec<SqlVal>>> {
    let mut out = Vec::new();
    while let Some(r) = rows.next()? {
        let mut v = Vec::with_capacity(cols.len());
        for (i, c) in cols.iter().enumerate() {
            v.push(r.get(i, c.ty().clone())?.into());
        }
        out.push(v);
    }
    Ok(out)
}

/// Moves through `rows`, by `next` where `ops` says so and looking at `current` otherwise.
pub fn walk_rows<'c>(mut rows: Box<dyn BackendRows + 'c>, cols: &[Column], ops: &[bool]) -> Result<Vec<Option<Vec<SqlVal>>>> {
    let read = |r: &dyn butane_core::db::BackendRow| -> Result<Vec<SqlVal>> {
        if r.len() != cols.len() {
            return Err(butane_core::Error::Internal(format!("{} columns", r.len())));
        }
        cols.iter().enumerate().map(|(i, c)| Ok(r.get(i, c.ty().clone())?.into())).collect()
    };
    let mut out = Vec::new();
    for next in ops {
        let r = if *next { rows.next()? } else { rows.current() };
        out.push(r.map(read).transpose()?);
    }
    Ok(out)
}

impl C<'_, '_> {
    pub fn walk(&self, table: &str, cols: &[Column], sort: &[Order], ops: &[bool]) -> Result<Vec<Option<Vec<SqlVal>>>> {
        on!(
            self,
            c,
            ConnectionMethods::query(c, table, cols, None, None, None, Some(sort)).and_then(|r| walk_rows(r, cols, ops)),
            async move {
                let r = ConnectionMethodsAsync::query(c, table, cols, None, None, None, Some(sort)).await?;
                walk_rows(r, cols, ops)
            }
        )
    }
    pub fn save<T: DataObject>(&self, o: &mut T) -> Result<()> {
        on!(self, c, DataObjectOpsSync::<T>::save(o, c), DataObjectOpsAsync::<T>::save(o, c))
    }
    pub fn get<T: DataObject>(&self, id: impl ToSql) -> Result<T>
    where
        T::PKType: Sync,
    {
        on!(
            self,
            c,
            <T as DataObjectOpsSync<T>>::get(c, id),
            <T as DataObjectOpsAsync<T>>::get(c, id)
        )
    }
    pub fn try_get<T: DataObject>(&self, id: impl ToSql) -> Result<Option<T>> {
        on!(
            self,
            c,
            <T as DataObjectOpsSync<T>>::try_get(c, id),
            <T as DataObjectOpsAsync<T>>::try_get(c, id)
        )
    }
    pub fn delete<T: DataObject>(&self, o: &T) -> Result<()> {
        on!(self, c, DataObjectOpsSync::<T>::delete(o, c), DataObjectOpsAsync::<T>::delete(o, c))
    }
    pub fn load<T: DataResult>(&self, q: Query<T>) -> Result<Vec<T>> {
        on!(self, c, QueryOpsSync::load(q, c), QueryOpsAsync::load(q, c))
    }
    pub fn load_first<T: DataResult>(&self, q: Query<T>) -> Result<Option<T>> {
        on!(self, c, QueryOpsSync::load_first(q, c), QueryOpsAsync::load_first(q, c))
    }
    pub fn delete_q<T: DataResult>(&self, q: Query<T>) -> Result<usize> {
        on!(self, c, QueryOpsSync::delete(q, c), QueryOpsAsync::delete(q, c))
    }
    pub fn all<T: DataResult>(&self) -> Result<Vec<T>> {
        self.load(T::query())
    }
    pub fn execute(&self, sql: &str) -> Result<()> {
        on!(self, c, ConnectionMethods::execute(c, sql), ConnectionMethodsAsync::execute(c, sql))
    }
    pub fn query(
        &self,
        table: &str,
        cols: &[Column],
        expr: Option<BoolExpr>,
        limit: Option<i32>,
        offset: Option<i32>,
        sort: Option<&[Order]>,
    ) -> Result<Vec<Vec<SqlVal>>> {
        on!(
            self,
            c,
            ConnectionMethods::query(c, table, cols, expr, limit, offset, sort)
                .and_then(|r| rows_to_vec(r, cols)),
            async move {
                let r = ConnectionMethodsAsync::query(c, table, cols, expr, limit, offset, sort)
                    .await?;
                rows_to_vec(r, cols)
            }
        )
    }
    pub fn insert_only(&self, t: &str, cols: &[Column], v: &[SqlVal]) -> Result<()> {
        let r: Vec<SqlValRef> = v.iter().map(|x| x.as_ref()).collect();
        let r = &r[..];
        on!(
            self,
            c,
            ConnectionMethods::insert_only(c, t, cols, r),
            ConnectionMethodsAsync::insert_only(c, t, cols, r)
        )
    }
    pub fn insert_returning_pk(
        &self,
        t: &str,
        cols: &[Column],
        pk: &Column,
        v: &[SqlVal],
    ) -> Result<SqlVal> {
        let r: Vec<SqlValRef> = v.iter().map(|x| x.as_ref()).collect();
        let r = &r[..];
        on!(
            self,
            c,
            ConnectionMethods::insert_returning_pk(c, t, cols, pk, r),
            ConnectionMethodsAsync::insert_returning_pk(c, t, cols, pk, r)
        )
    }
    pub fn insert_or_replace(&self, t: &str, cols: &[Column], pk: &Column, v: &[SqlVal]) -> Result<()> {
        let r: Vec<SqlValRef> = v.iter().map(|x| x.as_ref()).collect();
        let r = &r[..];
        on!(
            self,
            c,
            ConnectionMethods::insert_or_replace(c, t, cols, pk, r),
            ConnectionMethodsAsync::insert_or_replace(c, t, cols, pk, r)
        )
    }
    pub fn update(&self, t: &str, pkc: Column, pk: &SqlVal, cols: &[Column], v: &[SqlVal]) -> Result<()> {
        let r: Vec<SqlValRef> = v.iter().map(|x| x.as_ref()).collect();
        let r = &r[..];
        on!(
            self,
            c,
            ConnectionMethods::update(c, t, pkc, pk.as_ref(), cols, r),
            ConnectionMethodsAsync::update(c, t, pkc, pk.as_ref(), cols, r)
        )
    }
    pub fn delete_where(&self, t: &str, e: BoolExpr) -> Result<usize> {
        on!(
            self,
            c,
            ConnectionMethods::delete_where(c, t, e),
            ConnectionMethodsAsync::delete_where(c, t, e)
        )
    }
    pub fn delete_pk(&self, t: &str, pkcol: &'static str, pk: SqlVal) -> Result<()> {
        on!(
            self,
            c,
            ConnectionMethods::delete(c, t, pkcol, pk),
            ConnectionMethodsAsync::delete(c, t, pkcol, pk)
        )
    }
    pub fn has_table(&self, t: &str) -> Result<bool> {
        on!(self, c, ConnectionMethods::has_table(c, t), ConnectionMethodsAsync::has_table(c, t))
    }
    // relations
    pub fn many_load<T: DataObject + Clone>(&self, m: &Many<T>) -> Result<Vec<T>> {
        on!(
            self,
            c,
            ManyOpsSync::load(m, c).map(|i| i.cloned().collect()),
            async move { Ok(ManyOpsAsync::load(m, c).await?.cloned().collect::<Vec<T>>()) }
        )
    }
    pub fn many_load_ordered<T: DataObject + Clone>(
        &self,
        m: &Many<T>,
        o: OrderDirection,
    ) -> Result<Vec<T>> {
        on!(
            self,
            c,
            ManyOpsSync::load_ordered(m, c, o).map(|i| i.cloned().collect()),
            async move { Ok(ManyOpsAsync::load_ordered(m, c, o).await?.cloned().collect::<Vec<T>>()) }
        )
    }
    pub fn many_save<T: DataObject>(&self, m: &mut Many<T>) -> Result<()> {
        on!(self, c, ManyOpsSync::save(m, c), ManyOpsAsync::save(m, c))
    }
    pub fn many_delete<T: DataObject>(&self, m: &mut Many<T>) -> Result<()> {
        on!(self, c, ManyOpsSync::delete(m, c), ManyOpsAsync::delete(m, c))
    }
    pub fn many_set<T: DataObject>(&self, m: &mut Many<T>, v: Vec<T>) -> Result<()> {
        on!(self, c, ManyOpsSync::set(m, c, v), ManyOpsAsync::set(m, c, v))
    }
    pub fn fk_load<T: DataObject + Clone + Send>(&self, f: &ForeignKey<T>) -> Result<T>
    where
        T::PKType: Sync + Send,
    {
        on!(
            self,
            c,
            ForeignKeyOpsSync::load(f, c).cloned(),
            async move { ForeignKeyOpsAsync::load(f, c).await.cloned() }
        )
    }
}
