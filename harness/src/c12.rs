//! C12 sync, async and adapted connections agree.
use crate::db::*;
use crate::engine::*;
use crate::hist::*;
use crate::models::IntK;
use crate::{ensure, fail};
use butane_core::db::{
    BackendConnection, BackendConnectionAsync, Column, ConnectionAsync, ConnectionMethodsAsync,
};
use butane_core::query::{BoolExpr, Expr, QueryOpsAsync};
use butane_core::{DataObjectOpsAsync, DataResult, Error, SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::future::Future;
use std::sync::{Arc, Mutex};
use std::task::Poll;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Step {
    /// Convert to the other form, inside or outside the runtime.
    Flip { inside: bool },
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    None,
    Commit,
    Rollback,
    Drop,
    Panic,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    conv: Vec<Step>,
    /// In a synchronous section (when the connection is asynchronous).
    section: bool,
    /// `None`: not in a transaction; otherwise how the transaction (or section) ends.
    tx: bool,
    end: End,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    segs: Vec<Seg>,
}
fn s_case() -> BoxedStrategy<Case> {
    let end = prop_oneof![3 => Just(End::Commit), 2 => Just(End::Rollback), 2 => Just(End::Drop), 1 => Just(End::Panic)];
    let op = prop_oneof![12 => s_op(), 1 => (0u8..4).prop_map(|how| Op::Bad { how })];
    let conv = proptest::collection::vec(any::<bool>().prop_map(|inside| Step::Flip { inside }), 0..4);
    let seg = (conv, any::<bool>(), any::<bool>(), end, proptest::bool::weighted(0.1), proptest::collection::vec(op, 0..7)).prop_map(
        |(conv, section, tx, end, panic, ops)| {
            let end = match (tx, panic) {
                (true, _) => end,
                (false, true) => End::Panic,
                _ => End::None,
            };
            Seg { conv, section, tx, end, ops }
        },
    );
    (any_fl(), proptest::collection::vec(seg, 1..6)).prop_map(|(fl, segs)| Case { fl, segs }).boxed()
}

type Shared = Arc<Mutex<(Mem, Model, Result<bool, Fail>)>>;
/// Runs the operations of a segment; true when the transaction was spoiled by an error.
fn go(c: &C, mem: &mut Mem, model: &mut Model, q: &Seg, pg: bool, what: &str) -> Result<bool, Fail> {
    for (i, op) in q.ops.iter().enumerate() {
        let t = op_table(op, mem);
        let out = exec(c, mem, op);
        let what = format!("{what} step {i} {op:?}");
        model.step(op, &out, mem, &what)?;
        if q.tx && out == Out::Failed && pg {
            return Ok(true);
        }
        if let Some(t) = t {
            model.check_table(c, t, &what)?;
        }
    }
    Ok(false)
}
fn run(env: &mut Env, q: &Case) -> R {
    let mut db = env.fresh(q.fl, &schema());
    let pg = q.fl.is_pg();
    let mut mem = Mem::default();
    let mut model = Model { turso: q.fl.is_tu(), ..Model::default() };
    let mut o = Obs::new();
    o.label(q.fl.name());
    let (mut flips, mut sections, mut worked) = (0, 0, 0);
    for (si, seg) in q.segs.iter().enumerate() {
        for s in &seg.conv {
            let Step::Flip { inside } = s;
            if let Err(e) = db.flip(*inside) {
                fail!("convert-failed", "{} segment {si}: {e}", q.fl.name());
            }
            flips += 1;
        }
        model.check_all(&db.c(), &format!("{} segment {si}: after conversion {flips}", q.fl.name()))?;
        let before = (mem.clone(), model.clone());
        let section = seg.section && db.is_async();
        let what = format!(
            "{} segment {si} (conversion {flips}{}, {:?})",
            q.fl.name(),
            if section { ", synchronous section" } else { "" },
            seg.end
        );
        let tend = match seg.end {
            End::Commit | End::None => TxEnd::Commit,
            End::Rollback => TxEnd::Rollback,
            End::Drop => TxEnd::Drop,
            End::Panic => TxEnd::Panic,
        };
        let mut doomed = false;
        if section {
            sections += 1;
            let shared: Shared = Arc::new(Mutex::new((mem, model, Ok(false))));
            let (sh, sg, w2) = (shared.clone(), seg.clone(), what.clone());
            let f = move |sc: &mut butane_core::db::SyncAdapter<ConnectionAsync>| -> butane_core::Result<()> {
                let mut g = sh.lock().unwrap();
                let (mem, model, res) = &mut *g;
                if !sg.tx {
                    *res = guarded(|| go(&C::X(sc), mem, model, &sg, pg, &w2));
                    drop(g);
                    if sg.end == End::Panic {
                        panic!("inside a synchronous section");
                    }
                    return Ok(());
                }
                let t = match sc.transaction() {
                    Ok(t) => t,
                    Err(e) => {
                        *res = Err(Fail::new("begin-failed", format!("{w2}: {e}")));
                        return Ok(());
                    }
                };
                *res = guarded(|| go(&C::TS(&t), mem, model, &sg, pg, &w2));
                drop(g);
                match sg.end {
                    End::Commit | End::None => t.commit(),
                    End::Rollback => t.rollback(),
                    End::Drop => {
                        drop(t);
                        Ok(())
                    }
                    End::Panic => panic!("inside a synchronous section"),
                }
            };
            let rt = db.rt.clone();
            let Some(Any::A(conn)) = db.any.as_mut() else { unreachable!() };
            let r = rt.block_on(conn.with_sync(f));
            let g = Arc::try_unwrap(shared).map_err(|_| ()).expect("section ended");
            let g = g.into_inner().unwrap_or_else(|e| e.into_inner());
            (mem, model) = (g.0, g.1);
            doomed = g.2?;
            match (&r, seg.end) {
                (Err(_), End::Panic) => {}
                (Ok(()), End::Panic) => fail!("panic-lost", "{what}: a panic was reported as success"),
                (Err(e), _) if !doomed => fail!("end-failed", "{what}: {e}"),
                _ => {}
            }
        } else if seg.tx {
            let mut inner = Ok(false);
            let r = quiet_panic(|| {
                db.tx(|c| {
                    inner = guarded(|| go(c, &mut mem, &mut model, seg, pg, &what));
                    ((), tend)
                })
            });
            doomed = inner?;
            match r {
                None => ensure!(seg.end == End::Panic, "panic", "{what}: panicked"),
                Some(Err(e)) => fail!("begin-failed", "{what}: {e}"),
                Some(Ok(((), r))) => ensure!(doomed || r.is_ok(), "end-failed", "{what}: {r:?}"),
            }
        } else {
            go(&db.c(), &mut mem, &mut model, seg, pg, &what)?;
        }
        worked += model.changes - before.1.changes;
        let undone = seg.tx && (doomed || seg.end != End::Commit);
        if undone {
            let used = model.used.clone();
            (mem, model) = before;
            model.used = used;
        }
        model.check_all(&db.c(), &format!("after {what}"))?;
        o.label(format!("{}{:?}", if section { "section-" } else { "" }, seg.end));
    }
    o.label(format!("flips-{}", flips.min(6)));
    o.nontrivial = worked >= 3 && (flips > 0 || sections > 0);
    Ok(o)
}

// ---- dropped futures

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum What {
    Execute,
    InsertOnly,
    Upsert,
    Update,
    DeleteWhere,
    Save,
    Load,
    /// A transaction: polls allowed for begin, for an insert in it, and for its end.
    Tx { begin: Option<u8>, insert: Option<u8>, end: Option<u8>, commit: bool },
    Section { polls: Option<u8> },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DStep {
    what: What,
    id: u8,
    v: u8,
    /// The future is dropped when it is not done after this many polls.
    polls: Option<u8>,
    /// Another operation is under way on the same connection.
    busy: bool,
    flips: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DCase {
    fl: Fl,
    steps: Vec<DStep>,
}
fn s_dropped() -> BoxedStrategy<DCase> {
    let p = || proptest::option::weighted(0.6, 0u8..5);
    let what = prop_oneof![
        2 => Just(What::Execute), 2 => Just(What::InsertOnly), 2 => Just(What::Upsert), 2 => Just(What::Update),
        2 => Just(What::DeleteWhere), 2 => Just(What::Save), 1 => Just(What::Load),
        5 => (p(), p(), p(), any::<bool>()).prop_map(|(begin, insert, end, commit)| What::Tx { begin, insert, end, commit }),
        1 => Just(What::Section { polls: None }),
    ];
    let step = (what, 0u8..5, 0u8..5, p(), proptest::bool::weighted(0.4), prop_oneof![6 => Just(0u8), 1 => Just(2u8), 1 => Just(4u8)])
        .prop_map(|(what, id, v, polls, busy, flips)| DStep { what, id, v, polls, busy, flips });
    let fl = prop_oneof![3 => Just(Fl::SqS), 3 => Just(Fl::SqA), 2 => Just(Fl::PgA), 1 => Just(Fl::PgS), 1 => Just(Fl::TuA), 1 => Just(Fl::TuS)];
    (fl, proptest::collection::vec(step, 1..10)).prop_map(|(fl, steps)| DCase { fl, steps }).boxed()
}
/// Polls at most `polls` times, then drops. `None`: not done.
pub async fn upto<F: Future>(f: F, polls: Option<u8>) -> Option<F::Output> {
    let Some(n) = polls else { return Some(f.await) };
    let mut f = Box::pin(f);
    for i in 0..n {
        let r = std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
            Poll::Ready(x) => Poll::Ready(Some(x)),
            Poll::Pending => Poll::Ready(None),
        })
        .await;
        if r.is_some() {
            return r;
        }
        if i > 1 {
            tokio::time::sleep(std::time::Duration::from_micros(200)).await;
        }
    }
    None
}
type Rows = BTreeMap<i64, String>;
const NAMES: [&str; 5] = ["alpha", "betas", "gamma", "delta", "omega"];
async fn rows(c: &ConnectionAsync) -> butane_core::Result<Rows> {
    Ok(QueryOpsAsync::load(IntK::query(), c).await?.into_iter().map(|o| (o.id, o.name)).collect())
}
fn icols() -> [Column; 3] {
    [Column::new("id", SqlType::BigInt), Column::new("name", SqlType::Text), Column::new("n", SqlType::Int)]
}
/// One statement, perhaps abandoned. `None`: abandoned; `Some(ok)`: finished.
async fn one<M: ConnectionMethodsAsync>(c: &M, st: &DStep, polls: Option<u8>) -> Option<butane_core::Result<()>> {
    let id = st.id as i64;
    let name = NAMES[st.v as usize];
    // Buffers lent to the operation are overwritten right after it was abandoned.
    let mut text = name.to_string().into_bytes();
    let scribble = |b: &mut Vec<u8>| b.iter_mut().for_each(|x| *x = b'#');
    let key = SqlVal::BigInt(id);
    let r = match st.what {
        What::Execute => {
            let mut sql = format!("INSERT INTO IntK (id, name, n) VALUES ({id}, '{name}', NULL)");
            let r = upto(c.execute(&sql), polls).await;
            sql.clear();
            sql.push_str("DELETE FROM IntK                                      ");
            std::hint::black_box(&sql);
            r
        }
        What::InsertOnly | What::Upsert | What::Tx { .. } => {
            let s = String::from_utf8(text).unwrap();
            let v = [SqlVal::BigInt(id), SqlVal::Text(s), SqlVal::Null];
            let refs: Vec<_> = v.iter().map(|x| x.as_ref()).collect();
            let cols = icols();
            let r = if st.what == What::Upsert {
                upto(c.insert_or_replace("IntK", &cols, &cols[0], &refs), polls).await
            } else {
                upto(c.insert_only("IntK", &cols, &refs), polls).await
            };
            drop(refs);
            let [_, t, _] = v;
            let SqlVal::Text(t) = t else { unreachable!() };
            text = t.into_bytes();
            r
        }
        What::Update => {
            let s = String::from_utf8(text).unwrap();
            let v = [SqlVal::Text(s)];
            let refs: Vec<_> = v.iter().map(|x| x.as_ref()).collect();
            let cols = icols();
            let r = upto(c.update("IntK", cols[0].clone(), key.as_ref(), &cols[1..2], &refs), polls).await;
            drop(refs);
            let [SqlVal::Text(t)] = v else { unreachable!() };
            text = t.into_bytes();
            r
        }
        What::DeleteWhere => upto(c.delete_where("IntK", BoolExpr::Eq("id", Expr::Val(key))), polls).await.map(|r| r.map(|_| ())),
        What::Save => {
            let mut k = IntK { id, name: name.into(), n: None };
            let r = upto(DataObjectOpsAsync::<IntK>::save(&mut k, c), polls).await;
            text = std::mem::take(&mut k.name).into_bytes();
            r
        }
        _ => upto(QueryOpsAsync::load(IntK::query(), c), polls).await.map(|r| r.map(|_| ())),
    };
    scribble(&mut text);
    std::hint::black_box(&text);
    r
}
fn after(before: &Rows, st: &DStep) -> Option<Rows> {
    let mut m = before.clone();
    let (id, name) = (st.id as i64, NAMES[st.v as usize].to_string());
    match st.what {
        What::Execute | What::InsertOnly | What::Tx { .. } => {
            if m.contains_key(&id) {
                return None;
            }
            m.insert(id, name);
        }
        What::Upsert | What::Save => {
            m.insert(id, name);
        }
        What::Update => {
            if let Some(x) = m.get_mut(&id) {
                *x = name
            }
        }
        What::DeleteWhere => {
            m.remove(&id);
        }
        _ => {}
    }
    Some(m)
}
fn run_dropped(env: &mut Env, q: &DCase) -> R {
    let sch = crate::schema::schema(&["IntK"]);
    let mut db = env.fresh(q.fl, &sch);
    let mut o = Obs::new();
    o.label(q.fl.name());
    let mut cur = Rows::new();
    let mut dropped = 0;
    for (i, st) in q.steps.iter().enumerate() {
        let what = format!("{} step {i} {st:?}", q.fl.name());
        for _ in 0..st.flips + !db.is_async() as u8 {
            if let Err(e) = db.flip(false) {
                fail!("convert-failed", "{what}: {e}");
            }
        }
        let rt = db.rt.clone();
        let Some(Any::A(conn)) = db.any.as_mut() else { unreachable!() };
        let want = after(&cur, st);
        let (may_old, may_new);
        match st.what {
            What::Section { .. } => {
                let r = rt.block_on(conn.with_sync(|c| {
                    butane_core::db::ConnectionMethods::execute(c, "UPDATE IntK SET n = n WHERE id = -5")
                }));
                ensure!(r.is_ok(), "section-failed", "{what}: {r:?}");
                (may_old, may_new) = (true, false);
            }
            What::Tx { begin, insert, end, commit } => {
                let r: Result<(bool, bool), Fail> = rt.block_on(async {
                    let t = match upto(conn.transaction(), begin).await {
                        None => {
                            dropped += 1;
                            return Ok((true, false));
                        }
                        Some(Err(e)) => fail!("begin-failed", "{what}: {e}"),
                        Some(Ok(t)) => t,
                    };
                    let r = one(&t, st, insert).await;
                    if let Some(r) = &r {
                        ensure!(r.is_ok() == want.is_some(), "outcome", "{what}: {r:?}");
                    }
                    let failed = matches!(r, Some(Err(_)));
                    let e = if commit { upto(t.commit(), end).await } else { upto(t.rollback(), end).await };
                    dropped += (r.is_none() || e.is_none()) as u32;
                    if let (Some(Err(e)), true, false) = (&e, r.is_some(), failed) {
                        fail!("end-failed", "{what}: {e}");
                    }
                    let sure_new = commit && e.is_some() && matches!(r, Some(Ok(())));
                    let can_new = commit && want.is_some() && !failed;
                    Ok((!sure_new, can_new))
                });
                (may_old, may_new) = r?;
            }
            _ => {
                let r = rt.block_on(async {
                    let c = &*conn;
                    if !st.busy || q.fl.is_tu() {
                        return (one(c, st, st.polls).await, Ok(()));
                    }
                    let slow: &str = if q.fl.is_pg() {
                        "SELECT pg_sleep(0.004)"
                    } else {
                        "WITH RECURSIVE c(x) AS (SELECT 1 UNION ALL SELECT x+1 FROM c WHERE x<20000) SELECT max(x) FROM c"
                    };
                    let mut slow = Box::pin(c.execute(slow));
                    let first = std::future::poll_fn(|cx| Poll::Ready(slow.as_mut().poll(cx))).await;
                    let r = one(c, st, st.polls).await;
                    let s = match first {
                        Poll::Ready(x) => x,
                        Poll::Pending => slow.await,
                    };
                    (r, s)
                });
                ensure!(r.1.is_ok(), "other-operation", "{what}: the operation under way failed: {:?}", r.1);
                match r.0 {
                    None => {
                        dropped += 1;
                        (may_old, may_new) = (true, want.is_some());
                    }
                    Some(r) => {
                        ensure!(r.is_ok() == want.is_some(), "outcome", "{what}: {r:?}");
                        (may_old, may_new) = (want.is_none(), want.is_some());
                    }
                }
            }
        }
        // the connection works, is in no transaction, and holds one of the two states
        let r: Result<Rows, Fail> = rt.block_on(async {
            let e = |e: Error| Fail::new("unusable", format!("{what}: afterwards: {e}"));
            let now = rows(conn).await.map_err(e)?;
            let t = conn.transaction().await.map_err(e)?;
            t.rollback().await.map_err(e)?;
            let again = rows(conn).await.map_err(e)?;
            ensure!(now == again, "left-open", "{what}: {now:?} became {again:?} by rolling back an empty transaction");
            Ok(now)
        });
        let now = r?;
        let new = want.unwrap_or_else(|| cur.clone());
        let ok = (may_old && now == cur) || (may_new && now == new);
        ensure!(ok, "state", "{what}: from {cur:?} to {now:?}, expected {}{}", if may_old { "no change" } else { "" }, if may_new { format!(" or {new:?}") } else { String::new() });
        cur = now;
    }
    o.nontrivial = dropped > 0;
    if dropped > 2 {
        o.label("several-dropped");
    }
    Ok(o)
}

pub fn c12(ctx: &Ctx) {
    ctx.explore(
        "stacks",
        "up to 5 runs of up to 6 operations, each after up to 3 conversions between the synchronous and the asynchronous form, some inside a synchronous section, in or outside transactions ended by commit, rollback, drop or a panic; non-trivial: at least 3 changes with a conversion or a section",
        ctx.cases(2500, 60_000),
        s_case,
        Env::new,
        run,
    );
    ctx.explore(
        "dropped",
        "up to 9 asynchronous operations or transactions, some abandoned after 0 to 4 polls while another operation is under way, their buffers overwritten at once; non-trivial: at least one was abandoned before it was done",
        ctx.cases(3000, 60_000),
        s_dropped,
        Env::new,
        run_dropped,
    );
}
