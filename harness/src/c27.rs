//! C27 pooled and concurrent connections stay independent.
use crate::c12::upto;
use crate::db::*;
use crate::engine::*;
use crate::models::{AutoA, IntK};
use crate::{ensure, fail, infra};
use butane::db::ConnectionManager;
use butane_core::db::{
    BackendConnection, BackendConnectionAsync, Connection, ConnectionAsync, ConnectionSpec,
};
use butane_core::query::QueryOpsAsync;
use butane_core::{DataObjectOpsAsync, DataResult, Result};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::mpsc;
use std::sync::Arc;
use std::task::Poll;
use std::time::{Duration, Instant};
use tokio::runtime::Runtime;

type Rows = BTreeMap<i64, String>;
const SLOTS: usize = 3;

// ---- where connections come from

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Kind {
    R2d2,
    Deadpool,
    /// Connections of their own.
    Own,
}
#[derive(Clone)]
enum Source {
    R(r2d2::Pool<ConnectionManager>),
    D(deadpool::managed::Pool<ConnectionManager>),
    O(Fl, String),
}
enum Held {
    R(r2d2::PooledConnection<ConnectionManager>),
    D(deadpool::managed::Object<ConnectionManager>),
    O(Any),
}
enum H<'a> {
    S(&'a mut Connection),
    A(&'a mut ConnectionAsync),
}
impl Held {
    fn h(&mut self) -> H<'_> {
        match self {
            Held::R(c) => H::S(&mut **c),
            Held::D(c) => H::A(&mut **c),
            Held::O(Any::S(c)) => H::S(c),
            Held::O(Any::A(c)) => H::A(c),
        }
    }
}
impl Source {
    fn new(kind: Kind, fl: Fl, cs: &str, max: usize) -> Source {
        let m = ConnectionManager::new(ConnectionSpec::new(fl.backend(), cs));
        match kind {
            Kind::R2d2 => {
                match r2d2::Pool::builder().max_size(max as u32).min_idle(Some(0)).connection_timeout(Duration::from_secs(20)).build(m) {
                    Ok(p) => Source::R(p),
                    Err(e) => infra!("pool: {e}"),
                }
            }
            Kind::Deadpool => match deadpool::managed::Pool::builder(m).max_size(max).build() {
                Ok(p) => Source::D(p),
                Err(e) => infra!("pool: {e}"),
            },
            Kind::Own => Source::O(fl, cs.to_string()),
        }
    }
    /// `full`: every connection is taken.
    fn get(&self, rt: &Runtime, full: bool) -> std::result::Result<Held, String> {
        match self {
            Source::R(p) => p
                .get_timeout(if full { Duration::from_millis(10) } else { Duration::from_secs(20) })
                .map(Held::R)
                .map_err(|e| e.to_string()),
            Source::D(p) => rt.block_on(async {
                let t = deadpool::managed::Timeouts::default();
                // waiting for another to come back would be for ever
                match tokio::time::timeout(Duration::from_millis(if full { 10 } else { 20_000 }), p.timeout_get(&t)).await {
                    Ok(Ok(c)) => Ok(Held::D(c)),
                    Ok(Err(e)) => Err(format!("{e:?}")),
                    Err(_) => Err("timed out".into()),
                }
            }),
            Source::O(fl, cs) => {
                let be = butane_core::db::get_backend(fl.backend()).unwrap();
                let r = match fl {
                    Fl::SqS | Fl::PgS => be.connect(cs).map(Any::S),
                    Fl::TuS => rt.block_on(be.connect_async(cs)).and_then(|a| a.into_sync()).map(Any::S),
                    _ => rt.block_on(be.connect_async(cs)).map(Any::A),
                };
                r.map(Held::O).map_err(|e| e.to_string())
            }
        }
    }
}

// ---- one holder of connections: a thread, which does what it is told

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Do {
    Get,
    Put,
    Begin,
    /// Abandon a transaction while it starts, or as soon as it has.
    BeginAbandoned(u8),
    End(TxEnd),
    /// Abandon the end of a transaction.
    EndAbandoned { commit: bool, polls: u8 },
    Save(u8, u8),
    Insert(u8),
    Delete(u8),
    /// Abandon a statement.
    SaveAbandoned(u8, u8, u8),
    Read,
    /// End the server process of the connection, or of all that nobody holds.
    Kill { idle: bool },
}
enum Cmd {
    Do(Do, bool),
    Sql(String),
    Stop,
}
type Said = std::result::Result<Option<Rows>, String>;
struct Slot {
    tx: Option<mpsc::Sender<Cmd>>,
    rx: mpsc::Receiver<Said>,
    thread: Option<std::thread::JoinHandle<()>>,
}
impl Slot {
    fn new(s: usize, src: Source, rt: Arc<Runtime>) -> Slot {
        let (tx, cmds) = mpsc::channel();
        let (say, rx) = mpsc::channel();
        let thread = std::thread::spawn(move || {
            let me = Me { s, src, rt, cmds, say };
            me.run();
        });
        Slot { tx: Some(tx), rx, thread: Some(thread) }
    }
    fn ask(&self, c: Cmd) -> Said {
        if self.tx.as_ref().unwrap().send(c).is_err() {
            infra!("a holder is gone");
        }
        match self.rx.recv_timeout(Duration::from_secs(60)) {
            Ok(r) => r,
            Err(e) => Err(format!("no answer: {e}")),
        }
    }
}
impl Drop for Slot {
    fn drop(&mut self) {
        if let Some(tx) = self.tx.take() {
            _ = tx.send(Cmd::Stop);
        }
        if let Some(t) = self.thread.take() {
            _ = t.join();
        }
    }
}
struct Me {
    s: usize,
    src: Source,
    rt: Arc<Runtime>,
    cmds: mpsc::Receiver<Cmd>,
    say: mpsc::Sender<Said>,
}
fn all(c: &C) -> Result<Rows> {
    Ok(c.all::<IntK>()?.into_iter().map(|o| (o.id, o.name)).collect())
}
fn id(s: usize, n: u8) -> i64 {
    s as i64 * 10 + n as i64
}
const NAMES: [&str; 4] = ["alpha", "beta", "gamma", "delta"];
impl Me {
    fn run(&self) {
        loop {
            match self.cmds.recv() {
                Ok(Cmd::Do(Do::Get, full)) => match self.src.get(&self.rt, full) {
                    Ok(mut held) => {
                        _ = self.say.send(Ok(None));
                        let r = quiet_panic(|| {
                            let stop = self.holding(&mut held);
                            (stop, held)
                        });
                        let g = self.rt.enter();
                        let (stop, held) = match r {
                            Some((stop, held)) => (stop, Some(held)),
                            None => (false, None),
                        };
                        drop(held);
                        drop(g);
                        _ = self.say.send(Ok(None));
                        if stop {
                            return;
                        }
                    }
                    Err(e) => _ = self.say.send(Err(e)),
                },
                Ok(Cmd::Stop) | Err(_) => return,
                Ok(_) => _ = self.say.send(Err("holds nothing".into())),
            }
        }
    }
    /// True to stop altogether.
    fn holding(&self, held: &mut Held) -> bool {
        loop {
            let Ok(cmd) = self.cmds.recv() else { return true };
            let said: Said = match cmd {
                Cmd::Stop => return true,
                Cmd::Sql(sql) => match held.h() {
                    H::S(c) => C::S(c).execute(&sql),
                    H::A(c) => C::A(&self.rt, c).execute(&sql),
                }
                .map(|_| None)
                .map_err(|e| e.to_string()),
                Cmd::Do(Do::Put, _) => return false,
                Cmd::Do(Do::Begin, _) => match held.h() {
                    H::S(c) => match c.transaction() {
                        Err(e) => Err(e.to_string()),
                        Ok(t) => match self.inside(&C::TS(&t)) {
                            None => return true,
                            Some(Do::End(TxEnd::Commit)) => t.commit().map(|_| None).map_err(|e| e.to_string()),
                            Some(Do::End(TxEnd::Rollback)) => t.rollback().map(|_| None).map_err(|e| e.to_string()),
                            Some(Do::End(TxEnd::Panic)) => {
                                let _t = t;
                                panic!("inside a transaction")
                            }
                            _ => {
                                drop(t);
                                Ok(None)
                            }
                        },
                    },
                    H::A(c) => match self.rt.block_on(c.transaction()) {
                        Err(e) => Err(e.to_string()),
                        Ok(t) => match self.inside(&C::TA(&self.rt, &t)) {
                            None => {
                                self.rt.block_on(async { drop(t) });
                                return true;
                            }
                            Some(Do::End(TxEnd::Commit)) => self.rt.block_on(t.commit()).map(|_| None).map_err(|e| e.to_string()),
                            Some(Do::End(TxEnd::Rollback)) => {
                                self.rt.block_on(t.rollback()).map(|_| None).map_err(|e| e.to_string())
                            }
                            Some(Do::EndAbandoned { commit, polls }) => {
                                let r = self.rt.block_on(async {
                                    if commit {
                                        upto(t.commit(), Some(polls)).await
                                    } else {
                                        upto(t.rollback(), Some(polls)).await
                                    }
                                });
                                r.unwrap_or(Ok(())).map(|_| None).map_err(|e| e.to_string())
                            }
                            Some(Do::End(TxEnd::Panic)) => self.rt.block_on(async {
                                let _t = t;
                                panic!("inside a transaction")
                            }),
                            _ => {
                                self.rt.block_on(async { drop(t) });
                                Ok(None)
                            }
                        },
                    },
                },
                Cmd::Do(Do::BeginAbandoned(polls), _) => match held.h() {
                    H::S(c) => c.transaction().map(|t| drop(t)).map(|_| None).map_err(|e| e.to_string()),
                    H::A(c) => self.rt.block_on(async {
                        match upto(c.transaction(), Some(polls)).await {
                            Some(Err(e)) => Err(e.to_string()),
                            _ => Ok(None),
                        }
                    }),
                },
                Cmd::Do(d, _) => match held.h() {
                    H::S(c) => self.statement(&C::S(c), d),
                    H::A(c) => self.statement(&C::A(&self.rt, c), d),
                },
            };
            _ = self.say.send(said);
        }
    }
    /// How the transaction ends. `None`: stop altogether.
    fn inside(&self, c: &C) -> Option<Do> {
        _ = self.say.send(Ok(None));
        loop {
            match self.cmds.recv() {
                Ok(Cmd::Do(d @ (Do::End(_) | Do::EndAbandoned { .. }), _)) => return Some(d),
                Ok(Cmd::Do(d, _)) => {
                    let r = self.statement(c, d);
                    _ = self.say.send(r);
                }
                Ok(Cmd::Sql(sql)) => {
                    _ = self.say.send(c.execute(&sql).map(|_| None).map_err(|e| e.to_string()));
                }
                _ => return None,
            }
        }
    }
    fn statement(&self, c: &C, d: Do) -> Said {
        let e = |e: butane_core::Error| e.to_string();
        let obj = |n: u8, v: u8| IntK { id: id(self.s, n), name: NAMES[v as usize % 4].into(), n: None };
        match d {
            Do::Save(n, v) => c.save(&mut obj(n, v)).map(|_| None).map_err(e),
            Do::SaveAbandoned(n, v, polls) => {
                let mut o = obj(n, v);
                match c {
                    C::A(rt, c) => rt.block_on(async { upto(DataObjectOpsAsync::<IntK>::save(&mut o, *c), Some(polls)).await }).unwrap_or(Ok(())),
                    C::TA(rt, c) => rt.block_on(async { upto(DataObjectOpsAsync::<IntK>::save(&mut o, *c), Some(polls)).await }).unwrap_or(Ok(())),
                    c => c.save(&mut o),
                }
                .map(|_| None)
                .map_err(e)
            }
            Do::Insert(n) => {
                let o = obj(n, n);
                let cols = [
                    butane_core::db::Column::new("id", butane_core::SqlType::BigInt),
                    butane_core::db::Column::new("name", butane_core::SqlType::Text),
                ];
                let v = [butane_core::SqlVal::BigInt(o.id), butane_core::SqlVal::Text(o.name)];
                c.insert_only("IntK", &cols, &v).map(|_| None).map_err(e)
            }
            Do::Delete(n) => c.delete(&obj(n, 0)).map(|_| None).map_err(e),
            Do::Read => all(c).map(Some).map_err(e),
            _ => Err("out of place".into()),
        }
    }
}

// ---- interleavings, one step at a time

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Step {
    s: u8,
    d: Do,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    fl: Fl,
    kind: Kind,
    max: u8,
    steps: Vec<Step>,
}
fn s_source() -> BoxedStrategy<(Kind, Fl)> {
    prop_oneof![
        4 => Just((Kind::R2d2, Fl::SqS)),
        3 => Just((Kind::R2d2, Fl::PgS)),
        4 => Just((Kind::Deadpool, Fl::SqA)),
        3 => Just((Kind::Deadpool, Fl::PgA)),
        3 => Just((Kind::Deadpool, Fl::TuA)),
        4 => sqlpg_fl().prop_map(|f| (Kind::Own, f)),
        1 => Just((Kind::Own, Fl::TuA)),
        1 => Just((Kind::Own, Fl::TuS)),
    ]
    .boxed()
}
fn s_pool() -> BoxedStrategy<PCase> {
    let end = prop_oneof![5 => Just(TxEnd::Commit), 2 => Just(TxEnd::Rollback), 2 => Just(TxEnd::Drop), 1 => Just(TxEnd::Panic)];
    let n = || 0u8..3;
    let d = prop_oneof![
        4 => Just(Do::Get), 6 => Just(Do::Put), 6 => Just(Do::Begin), 7 => end.prop_map(Do::End),
        1 => (0u8..4).prop_map(Do::BeginAbandoned),
        1 => (any::<bool>(), 0u8..4).prop_map(|(commit, polls)| Do::EndAbandoned { commit, polls }),
        6 => (n(), 0u8..4).prop_map(|(n, v)| Do::Save(n, v)),
        3 => n().prop_map(Do::Insert),
        2 => n().prop_map(Do::Delete),
        1 => (n(), 0u8..4, 0u8..4).prop_map(|(n, v, p)| Do::SaveAbandoned(n, v, p)),
        6 => Just(Do::Read),
        2 => any::<bool>().prop_map(|idle| Do::Kill { idle }),
    ];
    let step = (0u8..SLOTS as u8, d).prop_map(|(s, d)| Step { s, d });
    (s_source(), 1u8..4, proptest::collection::vec(step, 1..40)).prop_map(|((kind, fl), max, steps)| PCase { fl, kind, max, steps }).boxed()
}
#[derive(Clone, Debug, Default)]
struct TxM {
    /// The oldest state it may still see.
    from: usize,
    own: Vec<(i64, Option<String>)>,
    touched: bool,
    poisoned: bool,
}
#[derive(Clone, Debug, Default)]
struct SlotM {
    held: bool,
    dead: bool,
    tx: Option<TxM>,
}
fn overlay(base: &Rows, own: &[(i64, Option<String>)]) -> Rows {
    let mut m = base.clone();
    for (k, v) in own {
        match v {
            Some(v) => _ = m.insert(*k, v.clone()),
            None => _ = m.remove(k),
        }
    }
    m
}
static NAMED: AtomicU64 = AtomicU64::new(0);
/// A file-backed (or PostgreSQL) database with the table.
fn database(env: &mut Env, fl: Fl) -> Db {
    let sch = crate::schema::schema(&["IntK", "AutoA"]);
    if fl.is_pg() {
        return env.fresh(fl, &sch);
    }
    let db = env.open(fl, true);
    if let Err(e) = db.c().execute(&sch.up[fl.backend()]) {
        infra!("{}: schema: {e}", fl.name());
    }
    db
}
/// Ends server processes of PostgreSQL connections by the names they go by, and waits until they are gone.
fn kill(env: &Env, like: &str, but: &[String]) {
    let admin = env.admin();
    let r: std::result::Result<(), tokio_postgres::Error> = env.rt.block_on(async {
        let sql = "SELECT count(pg_terminate_backend(pid)) FROM pg_stat_activity WHERE datname = current_database() AND application_name LIKE $1 AND NOT application_name = ANY($2)";
        for _ in 0..200 {
            let n: i64 = admin.query_one(sql, &[&like, &but]).await?.get(0);
            if n == 0 {
                break;
            }
            tokio::time::sleep(Duration::from_millis(2)).await;
        }
        tokio::time::sleep(Duration::from_millis(20)).await;
        Ok(())
    });
    if let Err(e) = r {
        infra!("kill: {e}");
    }
}
fn run_pool(env: &mut Env, q: &PCase) -> R {
    let db = database(env, q.fl);
    let max = if q.kind == Kind::Own { SLOTS } else { q.max as usize };
    let src = Source::new(q.kind, q.fl, &db.conn_str, max);
    let mut o = Obs::new();
    o.label(format!("{:?} {}", q.kind, q.fl.backend()));
    let r = steps(env, q, &db, &src, max, &mut o);
    let g = env.rt.enter();
    drop(src);
    drop(g);
    r.map(|_| o)
}
fn steps(env: &Env, q: &PCase, db: &Db, src: &Source, max: usize, o: &mut Obs) -> std::result::Result<(), Fail> {
    let (pg, turso) = (q.fl.is_pg(), q.fl.is_tu());
    let slots: Vec<Slot> = (0..SLOTS).map(|s| Slot::new(s, src.clone(), env.rt.clone())).collect();
    let mut model: Vec<SlotM> = vec![SlotM::default(); SLOTS];
    let mut names: Vec<String> = vec![String::new(); SLOTS];
    let mut history: Vec<Rows> = vec![Rows::new()];
    let mut killed_idle: Option<Instant> = None;
    let (mut overlaps, mut commits, mut reused, mut busy_n) = (0, 0, 0, 0);
    let prefix = format!("c27n{}n", NAMED.fetch_add(1, Ordering::SeqCst));
    let monitor = |what: &str| -> std::result::Result<Rows, Fail> {
        let mut last = String::new();
        // a lock may be held for a moment by an operation that was abandoned
        for i in 0..40 {
            match all(&db.c()) {
                Ok(r) => return Ok(r),
                Err(e) => last = e.to_string(),
            }
            std::thread::sleep(Duration::from_millis(i));
        }
        Err(Fail::new("monitor", format!("{what}: another connection cannot read: {last}")))
    };
    for (i, st) in q.steps.iter().enumerate() {
        let s = st.s as usize;
        // what does not fit here becomes what does
        let m = &model[s];
        let d = match st.d {
            Do::Kill { idle } => Do::Kill { idle: idle || !m.held },
            _ if !m.held => Do::Get,
            Do::Get => Do::Read,
            Do::End(_) | Do::EndAbandoned { .. } if m.tx.is_none() => Do::Begin,
            Do::Begin | Do::BeginAbandoned(_) if m.tx.is_some() => Do::Read,
            Do::Put if m.tx.is_some() => Do::End(TxEnd::Commit),
            d => d,
        };
        let st = &Step { s: st.s, d };
        let held = model.iter().filter(|m| m.held).count();
        let full = held >= max;
        let m = model[s].clone();
        let others = model.iter().enumerate().any(|(j, m)| j != s && m.tx.as_ref().is_some_and(|t| t.touched));
        let stale = m.tx.as_ref().is_some_and(|t| t.from < history.len() - 1);
        let may_busy = !pg && (others || (turso && stale));
        let what = format!("{:?} {} of {max}, step {i} {st:?}", q.kind, q.fl.name());
        // what makes no sense here is left out
        let fits = match st.d {
            Do::Get => !m.held,
            Do::Put => m.held && m.tx.is_none(),
            Do::Begin | Do::BeginAbandoned(_) => m.held && m.tx.is_none(),
            Do::End(_) | Do::EndAbandoned { .. } => m.tx.is_some(),
            Do::Kill { .. } => pg,
            _ => m.held && !m.tx.as_ref().is_some_and(|t| t.poisoned),
        };
        if !fits {
            continue;
        }
        if others {
            overlaps += 1;
        }
        let now = history.last().unwrap().clone();
        let view = m.tx.as_ref().map(|t| overlay(&now, &t.own)).unwrap_or(now.clone());
        // what the statement does to the rows, or that it must fail
        let effect: Option<Option<(i64, Option<String>)>> = match st.d {
            Do::Save(n, v) | Do::SaveAbandoned(n, v, _) => Some(Some((id(s, n), Some(NAMES[v as usize % 4].into())))),
            Do::Insert(n) if view.contains_key(&id(s, n)) => None,
            Do::Insert(n) => Some(Some((id(s, n), Some(NAMES[n as usize % 4].into())))),
            Do::Delete(n) => Some(Some((id(s, n), None))),
            _ => Some(None),
        };
        match st.d {
            Do::Kill { idle } => {
                if !idle {
                    kill(env, &names[s], &[]);
                    model[s].dead = true;
                } else {
                    kill(env, &format!("{prefix}%"), &names.iter().zip(&model).filter(|(_, m)| m.held).map(|(n, _)| n.clone()).collect::<Vec<_>>());
                    killed_idle = Some(Instant::now());
                }
                o.label("killed");
                continue;
            }
            Do::Get => {
                let r = slots[s].ask(Cmd::Do(Do::Get, full));
                if full {
                    ensure!(r.is_err(), "over-limit", "{what}: another connection from a pool that has none left");
                    continue;
                }
                if let Err(e) = r {
                    fail!("get-failed", "{what}: {e}");
                }
                reused += (q.kind != Kind::Own) as u32;
                names[s] = format!("{prefix}{i}");
                let sql = if pg {
                    format!("SET application_name = '{}'", names[s])
                } else {
                    "PRAGMA busy_timeout = 15".into()
                };
                if !turso {
                    let until = killed_idle.filter(|_| q.kind == Kind::Deadpool).map(|t| t + Duration::from_secs(4));
                    while let Err(e) = slots[s].ask(Cmd::Sql(sql.clone())) {
                        // the end of an idle connection takes a moment to be noticed
                        if until.is_none_or(|t| t < Instant::now()) {
                            fail!("broken-connection", "{what}: the connection does not work: {e}");
                        }
                        _ = slots[s].ask(Cmd::Do(Do::Put, false));
                        std::thread::sleep(Duration::from_millis(50));
                        if let Err(e) = slots[s].ask(Cmd::Do(Do::Get, false)) {
                            fail!("get-failed", "{what}: {e}");
                        }
                    }
                }
                model[s] = SlotM { held: true, dead: false, tx: None };
                continue;
            }
            Do::Put => {
                if let Err(e) = slots[s].ask(Cmd::Do(Do::Put, false)) {
                    fail!("put-failed", "{what}: {e}");
                }
                model[s] = SlotM::default();
                continue;
            }
            _ => {}
        }
        let d = match st.d {
            // what was not done is not to be committed
            Do::End(TxEnd::Commit) if m.tx.as_ref().unwrap().poisoned => Do::End(TxEnd::Rollback),
            Do::EndAbandoned { .. } if m.tx.as_ref().unwrap().poisoned => Do::End(TxEnd::Drop),
            Do::EndAbandoned { .. } if !q_async(q) => Do::End(TxEnd::Drop),
            d => d,
        };
        let r = slots[s].ask(Cmd::Do(d, false));
        if r.as_ref().is_err_and(|e| e.starts_with("no answer")) {
            fail!("hangs", "{what}: {r:?}");
        }
        if model[s].dead {
            let nothing = matches!(
                d,
                Do::End(TxEnd::Drop | TxEnd::Panic | TxEnd::Rollback) | Do::EndAbandoned { .. } | Do::BeginAbandoned(_) | Do::SaveAbandoned(..)
            );
            ensure!(nothing || r.is_err(), "dead-works", "{what}: works though the connection is gone: {r:?}");
            match d {
                Do::End(TxEnd::Panic) => model[s] = SlotM::default(),
                Do::End(_) | Do::EndAbandoned { .. } => model[s].tx = None,
                _ => {
                    if let Some(t) = &mut model[s].tx {
                        t.poisoned = true;
                    }
                }
            }
            let seen = monitor(&what)?;
            ensure!(seen == now, "dead-applied", "{what}: {now:?} became {seen:?}");
            continue;
        }
        match d {
            Do::Begin => {
                if let Err(e) = r {
                    fail!("begin-failed", "{what}: {e}");
                }
                model[s].tx = Some(TxM { from: history.len() - 1, ..TxM::default() });
            }
            Do::BeginAbandoned(_) => {
                if let Err(e) = r {
                    fail!("begin-failed", "{what}: {e}");
                }
            }
            Do::End(end) => {
                let t = model[s].tx.take().unwrap();
                if end == TxEnd::Panic {
                    model[s] = SlotM::default();
                }
                match (end, &r) {
                    (TxEnd::Commit, Ok(_)) => {
                        commits += !t.own.is_empty() as u32;
                        if !t.own.is_empty() {
                            history.push(overlay(&now, &t.own));
                        }
                    }
                    (TxEnd::Commit, Err(_)) if may_busy && !t.own.is_empty() => busy_n += 1,
                    (TxEnd::Commit, Err(e)) => fail!("commit-failed", "{what}: {e}"),
                    (_, Err(_)) if t.poisoned => {}
                    (_, Err(e)) => fail!("end-failed", "{what}: {e}"),
                    _ => {}
                }
            }
            Do::EndAbandoned { commit, .. } => {
                let t = model[s].tx.take().unwrap();
                if r.is_err() && !(may_busy && commit) {
                    fail!("end-failed", "{what}: {r:?}");
                }
                o.label("end-abandoned");
                let new = overlay(&now, &t.own);
                let seen = monitor(&what)?;
                ensure!(seen == now || (commit && r.is_ok() && seen == new), "part-applied", "{what}: {now:?} became {seen:?}, not {new:?}");
                if seen != now {
                    history.push(seen);
                }
            }
            Do::Read => {
                let rows = match r {
                    Ok(Some(rows)) => rows,
                    Ok(None) => infra!("no rows"),
                    Err(_) if may_busy => {
                        busy_n += 1;
                        if let Some(t) = &mut model[s].tx {
                            t.poisoned = true;
                        }
                        continue;
                    }
                    Err(e) => fail!("read-failed", "{what}: {e}"),
                };
                match &mut model[s].tx {
                    None => ensure!(rows == now, "reads", "{what}: read {rows:?}, committed are {now:?}"),
                    Some(t) => {
                        t.touched = true;
                        let at = (t.from..history.len()).find(|h| overlay(&history[*h], &t.own) == rows);
                        match at {
                            Some(h) => t.from = h,
                            None => fail!(
                                "reads",
                                "{what}: read {rows:?}; committed since it began {:?}, and its own {:?}",
                                &history[t.from..],
                                t.own
                            ),
                        }
                    }
                }
            }
            Do::SaveAbandoned(..) => {
                let e = effect.unwrap().unwrap();
                if r.is_err() && !may_busy {
                    fail!("statement-failed", "{what}: {r:?}");
                }
                let failed = r.is_err();
                o.label("statement-abandoned");
                match model[s].tx.as_mut() {
                    // it is not known whether it took place: look
                    Some(t) => {
                        t.touched = true;
                        if failed {
                            t.poisoned = true;
                            busy_n += 1;
                            continue;
                        }
                        match slots[s].ask(Cmd::Do(Do::Read, false)) {
                            Ok(Some(rows)) => {
                                let done = |o: &[(i64, Option<String>)]| (t.from..history.len()).find(|h| overlay(&history[*h], o) == rows);
                                let mut with = t.own.clone();
                                with.push(e);
                                if done(&t.own).is_none() {
                                    ensure!(done(&with).is_some(), "reads", "{what}: read {rows:?} in a transaction with {with:?} on {:?}", &history[t.from..]);
                                    t.own = with;
                                }
                            }
                            // the database may have ended the transaction
                            _ if may_busy || turso => t.poisoned = true,
                            r => fail!("read-failed", "{what}: {r:?}"),
                        }
                    }
                    None => {
                        // nothing else may happen on this connection before it is done
                        _ = slots[s].ask(Cmd::Do(Do::Read, false));
                        let seen = monitor(&what)?;
                        let new = overlay(&now, &[e]);
                        ensure!(seen == now || (!failed && seen == new), "part-applied", "{what}: {now:?} became {seen:?}");
                        if seen != now {
                            history.push(seen);
                        }
                    }
                }
            }
            _ => match (&r, effect) {
                (Ok(_), None) => fail!("duplicate", "{what}: accepted a key that is in use"),
                (Ok(_), Some(e)) => match &mut model[s].tx {
                    Some(t) => {
                        t.touched = true;
                        t.own.extend(e);
                    }
                    None => history.push(overlay(&now, &e.into_iter().collect::<Vec<_>>())),
                },
                (Err(_), e) if may_busy || e.is_none() => {
                    busy_n += e.is_some() as u32;
                    if let Some(t) = &mut model[s].tx {
                        t.touched = true;
                        t.poisoned = true;
                    }
                }
                (Err(e), _) => fail!("statement-failed", "{what}: {e}"),
            },
        }
        // nobody else sees anything that is not committed
        let seen = monitor(&what)?;
        let want = history.last().unwrap();
        ensure!(seen == *want, "seen", "{what}: others see {seen:?}, committed are {want:?}");
    }
    // everything is given back or abandoned; then every connection of the pool is as new
    let what = format!("{:?} {} of {max}, afterwards", q.kind, q.fl.name());
    drop(slots);
    let mut now = history.last().unwrap().clone();
    let seen = monitor(&what)?;
    ensure!(seen == now, "seen", "{what}: {seen:?} instead of {now:?}");
    if q.kind != Kind::Own {
        let slots: Vec<Slot> = (0..max).map(|s| Slot::new(s + 5, src.clone(), env.rt.clone())).collect();
        for s in &slots {
            let mut r = s.ask(Cmd::Do(Do::Get, false));
            if r.is_ok() {
                r = s.ask(Cmd::Do(Do::Read, false));
                let until = Instant::now() + Duration::from_secs(4);
                while r.is_err() && killed_idle.is_some() && until > Instant::now() {
                    _ = s.ask(Cmd::Do(Do::Put, false));
                    std::thread::sleep(Duration::from_millis(50));
                    r = s.ask(Cmd::Do(Do::Get, false)).and_then(|_| s.ask(Cmd::Do(Do::Read, false)));
                }
            }
            match r {
                Ok(Some(rows)) => ensure!(rows == now, "reads", "{what}: a connection from the pool reads {rows:?} instead of {now:?}"),
                r => fail!("broken-connection", "{what}: {r:?}"),
            }
        }
        for (k, s) in slots.iter().enumerate() {
            let r = s.ask(Cmd::Do(Do::Save(k as u8, 0), false));
            ensure!(r.is_ok(), "left-over", "{what}: saving through a connection from the pool: {r:?}");
            now.insert(id(k + 5, k as u8), NAMES[0].into());
            let seen = monitor(&what)?;
            ensure!(seen == now, "left-over", "{what}: what was saved through a connection from the pool is not there: {seen:?} instead of {now:?}");
            let r = s.ask(Cmd::Do(Do::Begin, false)).and_then(|_| s.ask(Cmd::Do(Do::Delete(k as u8), false)));
            ensure!(r.is_ok(), "left-over", "{what}: a transaction of a connection from the pool: {r:?}");
            let r = s.ask(Cmd::Do(Do::End(TxEnd::Rollback), false));
            ensure!(r.is_ok(), "left-over", "{what}: {r:?}");
        }
        drop(slots);
        let seen = monitor(&what)?;
        ensure!(seen == now, "left-over", "{what}: {seen:?} instead of {now:?}");
    }
    if busy_n > 0 {
        o.label("busy");
    }
    if reused > max as u32 {
        o.label("handed out again");
    }
    o.nontrivial = overlaps > 0 && (commits > 0 || busy_n > 0) || reused > max as u32;
    Ok(())
}
fn q_async(q: &PCase) -> bool {
    q.kind == Kind::Deadpool || (q.kind == Kind::Own && matches!(q.fl, Fl::SqA | Fl::PgA | Fl::TuA))
}

// ---- units of work on several threads at once

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Unit {
    ids: u8,
    read: bool,
    end: TxEnd,
    pause: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TCase {
    fl: Fl,
    kind: Kind,
    max: u8,
    threads: Vec<Vec<Unit>>,
}
fn s_threads() -> BoxedStrategy<TCase> {
    let end = prop_oneof![6 => Just(TxEnd::Commit), 2 => Just(TxEnd::Rollback), 2 => Just(TxEnd::Drop), 1 => Just(TxEnd::Panic)];
    let unit = (1u8..4, any::<bool>(), end, 0u8..4).prop_map(|(ids, read, end, pause)| Unit { ids, read, end, pause });
    (s_source(), 1u8..4, proptest::collection::vec(proptest::collection::vec(unit, 1..4), 2..5))
        .prop_map(|((kind, fl), max, threads)| TCase { fl, kind, max, threads })
        .boxed()
}
/// What a unit saw and how it went: `None` when the database was busy all along.
type Went = std::result::Result<(Vec<Rows>, Option<bool>), String>;
fn unit(src: &Source, rt: &Runtime, base: i64, u: &Unit, pg: bool) -> Went {
    let mut seen = Vec::new();
    let mut last = String::new();
    for attempt in 0..60u64 {
        let mut held = src.get(rt, false).map_err(|e| format!("get: {e}"))?;
        let mut go = |held: &mut Held| -> std::result::Result<std::result::Result<bool, String>, String> {
            let mut body = |c: &C| -> Result<()> {
                for k in 0..u.ids {
                    c.save(&mut IntK { id: base + k as i64, name: "unit".into(), n: None })?;
                    if u.read && k == 0 {
                        seen.push(all(c)?);
                    }
                    std::thread::sleep(Duration::from_micros(u.pause as u64 * 150));
                }
                Ok(())
            };
            match held.h() {
                H::S(c) => {
                    if !pg {
                        C::S(c).execute("PRAGMA busy_timeout = 15").ok();
                    }
                    let t = c.transaction().map_err(|e| format!("begin: {e}"))?;
                    let r = body(&C::TS(&t));
                    if let Err(e) = r {
                        return Ok(Err(e.to_string()));
                    }
                    Ok(match u.end {
                        TxEnd::Commit => t.commit().map(|_| true).map_err(|e| e.to_string()),
                        TxEnd::Rollback => t.rollback().map(|_| false).map_err(|e| e.to_string()),
                        TxEnd::Drop => Ok(false),
                        TxEnd::Panic => {
                            let _t = t;
                            panic!("inside a transaction")
                        }
                    })
                }
                H::A(c) => {
                    if !pg {
                        C::A(rt, c).execute("PRAGMA busy_timeout = 15").ok();
                    }
                    let t = rt.block_on(c.transaction()).map_err(|e| format!("begin: {e}"))?;
                    let r = body(&C::TA(rt, &t));
                    rt.block_on(async {
                        if let Err(e) = r {
                            drop(t);
                            return Ok(Err(e.to_string()));
                        }
                        Ok(match u.end {
                            TxEnd::Commit => t.commit().await.map(|_| true).map_err(|e| e.to_string()),
                            TxEnd::Rollback => t.rollback().await.map(|_| false).map_err(|e| e.to_string()),
                            TxEnd::Drop => Ok(false),
                            TxEnd::Panic => {
                                let _t = t;
                                panic!("inside a transaction")
                            }
                        })
                    })
                }
            }
        };
        let r = quiet_panic(|| {
            let r = go(&mut held);
            let g = rt.enter();
            drop(held);
            drop(g);
            r
        });
        match r {
            None => return Ok((seen, Some(false))),
            Some(Err(e)) => return Err(e),
            Some(Ok(Ok(x))) => return Ok((seen, Some(x))),
            Some(Ok(Err(e))) if pg => return Err(e),
            Some(Ok(Err(e))) => last = e,
        }
        std::thread::sleep(Duration::from_millis(1 + (attempt * 7 + base as u64) % 11));
    }
    _ = last;
    Ok((seen, None))
}
fn run_threads(env: &mut Env, q: &TCase) -> R {
    let db = database(env, q.fl);
    let max = q.max as usize;
    let src = Source::new(q.kind, q.fl, &db.conn_str, max);
    let mut o = Obs::new();
    o.label(format!("{:?} {}", q.kind, q.fl.backend()));
    let rt = env.rt.clone();
    let went: Vec<Vec<Went>> = std::thread::scope(|sc| {
        let hs: Vec<_> = q
            .threads
            .iter()
            .enumerate()
            .map(|(t, units)| {
                let (src, rt) = (&src, rt.clone());
                sc.spawn(move || units.iter().enumerate().map(|(k, u)| unit(src, &rt, (t * 10 + k) as i64 * 10, u, q.fl.is_pg())).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![Err("panicked".into())])).collect()
    });
    let g = env.rt.enter();
    drop(src);
    drop(g);
    let what = format!("{:?} {} of {max}", q.kind, q.fl.name());
    let mut want = Rows::new();
    let mut committed: BTreeMap<i64, u8> = BTreeMap::new();
    let (mut applied, mut gave_up) = (0, 0);
    for (t, (units, went)) in q.threads.iter().zip(&went).enumerate() {
        for (k, (u, w)) in units.iter().zip(went).enumerate() {
            let base = (t * 10 + k) as i64 * 10;
            match w {
                Err(e) => fail!("unit-failed", "{what}: unit {k} of thread {t}: {e}"),
                Ok((_, Some(true))) => {
                    applied += 1;
                    committed.insert(base, u.ids);
                    want.extend((0..u.ids).map(|k| (base + k as i64, "unit".to_string())));
                }
                Ok((_, None)) => gave_up += 1,
                _ => {}
            }
        }
    }
    let seen = match all(&db.c()) {
        Ok(r) => r,
        Err(e) => fail!("monitor", "{what}: {e}"),
    };
    ensure!(seen == want, "contents", "{what}: {seen:?} instead of {want:?}");
    for (t, went) in went.iter().enumerate() {
        for (k, w) in went.iter().enumerate() {
            let me = (t * 10 + k) as i64 * 10;
            for rows in &w.as_ref().unwrap().0 {
                let mut by: BTreeMap<i64, u8> = BTreeMap::new();
                for id in rows.keys() {
                    *by.entry(id / 10 * 10).or_default() += 1;
                }
                ensure!(by.remove(&me) == Some(1), "reads", "{what}: unit {k} of thread {t} does not see its own row alone: {rows:?}");
                for (u, n) in by {
                    ensure!(committed.get(&u) == Some(&n), "reads", "{what}: unit {k} of thread {t} sees {n} rows of unit {u}, which committed {:?}", committed.get(&u));
                }
            }
        }
    }
    if gave_up > 0 {
        o.label("busy");
    }
    o.nontrivial = q.threads.iter().map(|t| t.len()).sum::<usize>() > 2 && applied > 1;
    Ok(o)
}

// ---- one asynchronous connection used by several tasks at once

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SCase {
    fl: Fl,
    tasks: Vec<Vec<u8>>,
    order: Vec<u8>,
}
fn s_shared() -> BoxedStrategy<SCase> {
    let fl = prop_oneof![3 => Just(Fl::SqA), 2 => Just(Fl::PgA), 2 => Just(Fl::TuA)];
    (fl, proptest::collection::vec(proptest::collection::vec(0u8..6, 1..5), 2..5), proptest::collection::vec(any::<u8>(), 0..40))
        .prop_map(|(fl, tasks, order)| SCase { fl, tasks, order })
        .boxed()
}
type Done = std::result::Result<Vec<(AutoA, Option<AutoA>)>, String>;
async fn task(c: &ConnectionAsync, t: usize, ops: &[u8]) -> Done {
    let e = |e: butane_core::Error| e.to_string();
    let mut mine: Vec<(AutoA, Option<AutoA>)> = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        match (op, mine.last_mut()) {
            (0, Some((o, live))) if live.is_some() => {
                DataObjectOpsAsync::<AutoA>::delete(o, c).await.map_err(e)?;
                *live = None;
            }
            (1, Some((o, live))) if live.is_some() => {
                o.n = Some(k as i32);
                DataObjectOpsAsync::<AutoA>::save(o, c).await.map_err(e)?;
                *live = Some(o.clone());
            }
            (2, Some((o, live))) if live.is_some() => {
                let got: AutoA = <AutoA as DataObjectOpsAsync<AutoA>>::get(c, o.id.clone()).await.map_err(e)?;
                if got != *o {
                    return Err(format!("got {got:?} for {o:?}"));
                }
            }
            (3, _) => {
                QueryOpsAsync::load(AutoA::query(), c).await.map_err(e)?;
            }
            _ => {
                let mut o = AutoA { id: Default::default(), name: format!("task {t} object {k}"), n: None };
                DataObjectOpsAsync::<AutoA>::save(&mut o, c).await.map_err(e)?;
                mine.push((o.clone(), Some(o)));
            }
        }
    }
    Ok(mine)
}
fn run_shared(env: &mut Env, q: &SCase) -> R {
    let sch = crate::schema::schema(&["IntK", "AutoA"]);
    let mut db = env.fresh(q.fl, &sch);
    if !db.is_async() {
        infra!("not asynchronous");
    }
    let rt = db.rt.clone();
    let Some(Any::A(c)) = db.any.as_mut() else { unreachable!() };
    let c = &*c;
    let mut polls = 0;
    let done: Vec<Done> = rt.block_on(async {
        let mut fs: Vec<_> = q.tasks.iter().enumerate().map(|(t, ops)| Some(Box::pin(task(c, t, ops)))).collect();
        let mut out: Vec<Option<Done>> = vec![None; fs.len()];
        let mut order = q.order.iter();
        // polled in the given order, then all of them whenever one is woken
        std::future::poll_fn(|cx| {
            for o in order.by_ref() {
                let k = *o as usize % fs.len();
                if let Some(f) = &mut fs[k] {
                    polls += 1;
                    if let Poll::Ready(r) = f.as_mut().poll(cx) {
                        out[k] = Some(r);
                        fs[k] = None;
                    } else if o % 5 == 0 {
                        cx.waker().wake_by_ref();
                        return Poll::Pending;
                    }
                }
            }
            for k in 0..fs.len() {
                if let Some(f) = &mut fs[k] {
                    if let Poll::Ready(r) = f.as_mut().poll(cx) {
                        out[k] = Some(r);
                        fs[k] = None;
                    }
                }
            }
            if fs.iter().all(|f| f.is_none()) {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        })
        .await;
        out.into_iter().map(|r| r.unwrap()).collect()
    });
    let mut o = Obs::new();
    o.label(q.fl.name());
    let mut want: Vec<AutoA> = Vec::new();
    let mut keys: Vec<butane::AutoPk<i64>> = Vec::new();
    for (t, d) in done.into_iter().enumerate() {
        match d {
            Err(e) => fail!("task-failed", "{}: task {t}: {e}", q.fl.name()),
            Ok(v) => {
                keys.extend(v.iter().map(|(o, _)| o.id.clone()));
                want.extend(v.into_iter().filter_map(|(_, l)| l));
            }
        }
    }
    let mut rows = match db.c().all::<AutoA>() {
        Ok(r) => r,
        Err(e) => fail!("monitor", "{}: {e}", q.fl.name()),
    };
    rows.sort_by_key(|o| format!("{:?}", o.id));
    want.sort_by_key(|o| format!("{:?}", o.id));
    ensure!(rows == want, "contents", "{}: {rows:?} instead of {want:?}", q.fl.name());
    o.nontrivial = q.tasks.len() > 1 && keys.len() > 1 && polls > 1;
    Ok(o)
}

pub fn c27(ctx: &Ctx) {
    ctx.explore(
        "pool",
        "up to 40 steps of up to 3 holders of connections from a pool of up to 3 (or connections of their own): taken, given back, transactions begun, ended or abandoned at any point, statements, reads, server processes ended; every result and what another connection sees compared with a model; non-trivial: work overlapped a transaction of another holder and something was committed or refused, or connections were handed out again",
        ctx.cases(1200, 15_000),
        s_pool,
        Env::new,
        run_pool,
    );
    ctx.explore(
        "threads",
        "up to 4 threads, each with up to 3 units of work, through a pool of up to 3 connections or connections of their own; non-trivial: more than 2 units, more than one committed",
        ctx.cases(200, 4_000),
        s_threads,
        Env::new,
        run_threads,
    );
    ctx.explore(
        "shared",
        "up to 4 tasks of up to 4 operations on one asynchronous connection, polled in a generated order; non-trivial: several tasks, several objects created",
        ctx.cases(1000, 20_000),
        s_shared,
        Env::new,
        run_shared,
    );
}
