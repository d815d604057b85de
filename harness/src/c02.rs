//! C02 objects as a keyed store, C25 automatic keys.
use crate::db::*;
use crate::engine::*;
use crate::hist::*;
use crate::models::*;
use crate::{ensure, fail};
use butane_core::AutoPk;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    ops: Vec<Op>,
    /// Run the whole history inside one transaction, committed at the end.
    in_tx: bool,
}
fn history(env: &mut Env, q: &Case) -> R {
    let sch = schema();
    let mut db = env.fresh(q.fl, &sch);
    let mut mem = Mem::default();
    let mut model = Model { turso: q.fl.is_tu(), ..Model::default() };
    let run = |c: &C, mem: &mut Mem, model: &mut Model| -> Result<(), Fail> {
        for (i, op) in q.ops.iter().enumerate() {
            let t = op_table(op, mem);
            let out = exec(c, mem, op);
            let what = format!("{} step {i} {op:?}", q.fl.name());
            model.step(op, &out, mem, &what)?;
            if let Some(t) = t {
                model.check_table(c, t, &what)?;
            }
        }
        model.check_all(c, &format!("{} at the end", q.fl.name()))
    };
    if q.in_tx {
        match db.tx(|c| (run(c, &mut mem, &mut model), TxEnd::Commit)) {
            Ok((r, e)) => {
                r?;
                ensure!(e.is_ok(), "commit-failed", "{}: {e:?}", q.fl.name());
            }
            Err(e) => fail!("begin-failed", "{}: {e}", q.fl.name()),
        }
        model.check_all(&db.c(), &format!("{} after commit", q.fl.name()))?;
    } else {
        run(&db.c(), &mut mem, &mut model)?;
    }
    let mut o = Obs::new();
    o.label(q.fl.name());
    o.nontrivial = model.changes >= 3;
    if model.errors > 0 {
        o.label("refused-save");
    }
    if model.reused > 0 {
        o.label(format!("key-reused-{}", q.fl.backend()));
    }
    if q.in_tx {
        o.label("in-transaction");
    }
    Ok(o)
}
fn s_case(max: usize, op: impl Fn() -> BoxedStrategy<Op> + 'static) -> BoxedStrategy<Case> {
    (any_fl(), proptest::collection::vec(op(), 1..max), proptest::bool::weighted(0.2))
        .prop_map(|(fl, ops, in_tx)| Case {
            fl,
            // a refused statement ends a PostgreSQL transaction
            in_tx: in_tx && !fl.is_pg(),
            ops,
        })
        .boxed()
}
pub fn c02(ctx: &Ctx) {
    ctx.explore(
        "history",
        "histories of up to 24 create/save/edit/copy/get/delete operations over 8 model types, against a map per table; non-trivial: at least 3 changes",
        ctx.cases(5000, 120_000),
        || s_case(24, s_op),
        Env::new,
        history,
    );
    ctx.explore(
        "resave-deleted",
        "an automatic-key object saved, deleted and saved again; every case is non-trivial",
        ctx.cases(60, 600),
        || (any_fl(), any::<Option<i32>>()).boxed(),
        Env::new,
        |env, (fl, n)| {
            let db = env.fresh(*fl, &schema());
            let c = db.c();
            let e = |e: butane_core::Error| Fail::new("operation-failed", e.to_string());
            let mut a = AutoA { id: AutoPk::uninitialized(), name: "x".into(), n: *n };
            c.save(&mut a).map_err(e)?;
            c.delete(&a).map_err(e)?;
            if c.save(&mut a).is_ok() {
                let g: Option<AutoA> = c.try_get(a.id).map_err(e)?;
                ensure!(
                    g.map(|g| g.n == *n).unwrap_or(false),
                    "resave-deleted-auto",
                    "{}: saving a deleted object with an automatic key reports success but stores nothing",
                    fl.name()
                );
            }
            let mut o = Obs::new();
            o.nontrivial = true;
            Ok(o)
        },
    );
}

fn s_auto_op() -> BoxedStrategy<Op> {
    let t = proptest::sample::select(vec![0u8, 5, 5, 6]);
    let n = || proptest::option::of(0i8..4);
    prop_oneof![
        6 => (t.clone(), 0u8..6, n(), proptest::bool::weighted(0.8)).prop_map(|(t, name, n, save)| Op::New { t, k: 0, name, n, save }),
        3 => (0u8..24).prop_map(|s| Op::Save { s }),
        2 => (0u8..24, 0u8..6, n(), any::<bool>()).prop_map(|(s, name, n, save)| Op::Edit { s, name, n, save }),
        2 => (0u8..24).prop_map(|s| Op::Copy { s }),
        2 => (t.clone(), 0u8..12, any::<bool>()).prop_map(|(t, k, keep)| Op::Get { t, k, keep }),
        // often the most recently saved object, which has the highest key
        3 => prop_oneof![0u8..24, 250u8..255].prop_map(|s| Op::Delete { s }),
        1 => (t, 0u8..6, n(), 0u8..8).prop_map(|(t, name, n, how)| Op::DeleteQ { t, name, n, how }),
    ]
    .boxed()
}
pub fn c25(ctx: &Ctx) {
    ctx.explore(
        "history",
        "histories of up to 30 operations on three automatic-key models (one with a unique column, one with no other field), checking every assigned key; non-trivial: at least 3 changes",
        ctx.cases(5000, 150_000),
        || s_case(30, s_auto_op),
        Env::new,
        history,
    );
    ctx.explore(
        "two-connections",
        "two connections of one PostgreSQL database saving in turn; keys never coincide; non-trivial: both saved",
        ctx.cases(150, 5000),
        || proptest::collection::vec((any::<bool>(), 0u8..4), 1..12).boxed(),
        Env::new,
        |env, steps: &Vec<(bool, u8)>| {
            let a = env.fresh(Fl::PgA, &schema());
            let b = match a.reconnect(env) {
                Ok(b) => b,
                Err(e) => crate::infra!("{e}"),
            };
            let mut used = std::collections::BTreeMap::new();
            let mut seen = [false; 2];
            for (w, how) in steps {
                let c = if *w { a.c() } else { b.c() };
                let e = |e: butane_core::Error| Fail::new("operation-failed", e.to_string());
                let mut o = AutoU { id: AutoPk::uninitialized(), name: format!("n{}", if *how == 0 { 0 } else { used.len() + 1 }), n: None };
                let dup = used.values().any(|v| *v == o.name);
                let r = c.save(&mut o);
                if dup {
                    ensure!(r.is_err() && o.id.is_none(), "failed-save-key", "refused object has key {:?}", o.id);
                } else {
                    r.map_err(e)?;
                    let Some(k) = *o.id else { fail!("no-key", "saved object has no key") };
                    ensure!(used.insert(k, o.name.clone()).is_none(), "key-in-use", "key {k} given twice");
                    seen[*w as usize] = true;
                }
                let l: Vec<AutoU> = c.all().map_err(e)?;
                ensure!(l.len() == used.len(), "contents", "{l:?} vs {used:?}");
            }
            let mut o = Obs::new();
            o.nontrivial = seen[0] && seen[1];
            Ok(o)
        },
    );
}
