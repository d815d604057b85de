//! C11 transactions are all-or-nothing.
use crate::db::*;
use crate::engine::*;
use crate::hist::*;
use crate::{ensure, fail};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum End {
    Commit,
    Rollback,
    Drop,
    Panic,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Seg {
    /// `None`: outside any transaction.
    end: Option<End>,
    ops: Vec<Op>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    /// Look from a second connection (file-backed SQLite and PostgreSQL).
    other: bool,
    segs: Vec<Seg>,
}
fn s_case() -> BoxedStrategy<Case> {
    let end = prop_oneof![
        1 => Just(None),
        3 => Just(Some(End::Commit)),
        2 => Just(Some(End::Rollback)),
        2 => Just(Some(End::Drop)),
        1 => Just(Some(End::Panic)),
    ];
    let op = prop_oneof![12 => s_op(), 1 => (0u8..4).prop_map(|how| Op::Bad { how })];
    let seg = (end, proptest::collection::vec(op, 0..8)).prop_map(|(end, ops)| Seg { end, ops });
    (any_fl(), proptest::bool::weighted(0.3), proptest::collection::vec(seg, 1..6))
        .prop_map(|(fl, other, segs)| Case { fl, other: other && !fl.is_tu(), segs })
        .boxed()
}

fn run(env: &mut Env, q: &Case) -> R {
    let sch = schema();
    let mut db = if q.other && !q.fl.is_pg() {
        let db = env.open(q.fl, true);
        if let Err(e) = db.c().execute(&sch.up[q.fl.backend()]) {
            crate::infra!("schema: {e}");
        }
        db
    } else {
        env.fresh(q.fl, &sch)
    };
    let other = match q.other.then(|| db.reconnect(env)) {
        Some(Ok(d)) => Some(d),
        Some(Err(e)) => crate::infra!("second connection: {e}"),
        None => None,
    };
    let mut mem = Mem::default();
    let mut model = Model { turso: q.fl.is_tu(), ..Model::default() };
    let mut o = Obs::new();
    o.label(q.fl.name());
    let (mut kept, mut undone) = (0, 0);
    for (si, seg) in q.segs.iter().enumerate() {
        let before = (mem.clone(), model.clone());
        let mut doomed = false;
        let mut go = |c: &C, mem: &mut Mem, model: &mut Model, tx: bool| -> Result<(), Fail> {
            for (i, op) in seg.ops.iter().enumerate() {
                let t = op_table(op, mem);
                let out = exec(c, mem, op);
                let what = format!("{} segment {si} ({:?}) step {i} {op:?}", q.fl.name(), seg.end);
                model.step(op, &out, mem, &what)?;
                if tx && out == Out::Failed && q.fl.is_pg() {
                    // PostgreSQL accepts nothing more in this transaction
                    doomed = true;
                    break;
                }
                if let Some(t) = t {
                    model.check_table(c, t, &what)?;
                }
            }
            if let (Some(d), true) = (&other, tx) {
                before.1.check_all(&d.c(), &format!("{} segment {si}: another connection, before the end", q.fl.name())).map_err(|f| Fail::new(format!("visible-early-{}", f.sig), f.msg))?;
            }
            Ok(())
        };
        let Some(end) = seg.end else {
            go(&db.c(), &mut mem, &mut model, false)?;
            continue;
        };
        let tend = match end {
            End::Commit => TxEnd::Commit,
            End::Rollback => TxEnd::Rollback,
            End::Drop => TxEnd::Drop,
            End::Panic => TxEnd::Panic,
        };
        let mut inner = Ok(());
        let r = quiet_panic(|| {
            db.tx(|c| {
                inner = guarded(|| go(c, &mut mem, &mut model, true));
                ((), tend)
            })
        });
        inner?;
        match r {
            None => ensure!(end == End::Panic, "panic", "{} segment {si}: {end:?} panicked", q.fl.name()),
            Some(Err(e)) => fail!("begin-failed", "{} segment {si}: {e}", q.fl.name()),
            Some(Ok(((), r))) => {
                // ending a transaction that had an error may itself report an error
                if !doomed {
                    ensure!(r.is_ok(), "end-failed", "{} segment {si}: {end:?}: {r:?}", q.fl.name());
                }
            }
        }
        let changes = model.changes - before.1.changes;
        if end == End::Commit && !doomed {
            kept += (changes > 0) as u32;
        } else {
            if doomed {
                o.label("failed-statement");
            }
            undone += (changes > 0) as u32;
            let used = model.used.clone();
            (mem, model) = before;
            model.used = used;
        }
        model.check_all(&db.c(), &format!("{} after segment {si} ({end:?}{})", q.fl.name(), if doomed { ", failed" } else { "" }))?;
        if let Some(d) = &other {
            model.check_all(&d.c(), &format!("{} segment {si} ({end:?}): another connection, after the end", q.fl.name()))?;
        }
        o.label(format!("{end:?}"));
    }
    o.nontrivial = undone > 0;
    if kept > 0 && undone > 0 {
        o.label("kept-and-undone");
    }
    if q.other {
        o.label("two-connections");
    }
    Ok(o)
}

pub fn c11(ctx: &Ctx) {
    ctx.explore(
        "segments",
        "up to 5 transactions or runs of plain operations of up to 7 operations each (over 8 model types, with refused saves and failing statements) ended by commit, rollback, drop or a panic; non-trivial: a transaction with changes was undone",
        ctx.cases(4500, 120_000),
        s_case,
        Env::new,
        run,
    );
}
