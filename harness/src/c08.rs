//! C08 foreign keys identify and load their referent.
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::fkey::ForeignKey;
use butane_core::{AutoPk, DataObject, Error, FieldType, SqlType, ToSql};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use uuid::Uuid;

const NK: usize = 4;
const IK: [i64; NK] = [0, 1, -1, i64::MAX];
const SK: [&str; NK] = ["a", "", "it's; --", "Ü\n\"x\""];
fn uk(k: usize) -> Uuid {
    Uuid::from_bytes([k as u8; 16])
}
const RK: [i64; 4] = [1, 2, i64::MIN, 7];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RefSpec {
    req: u8,
    opt: [Option<u8>; 3],
    me: Option<u8>,
    /// per field: from_pk, from &obj, from owned obj
    how: [u8; 5],
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    SaveTarget { t: u8, k: u8 },
    DeleteTarget { t: u8, k: u8 },
    SaveRef { id: u8, spec: RefSpec },
    Resave { id: u8 },
    Repoint { id: u8, field: u8, to: u8 },
    DeleteRef { id: u8 },
    Load { id: u8, field: u8 },
    Compare { a: u8, b: u8 },
    Serde { id: u8 },
    SaveUnsaved { id: u8, owned: bool },
}
fn s_op() -> BoxedStrategy<Op> {
    let k = || 0u8..NK as u8;
    let how = || 0u8..3;
    let ok = || proptest::option::weighted(0.6, 0u8..NK as u8);
    let spec = (k(), [ok(), ok(), ok()], proptest::option::weighted(0.3, k()), [how(), how(), how(), how(), how()])
        .prop_map(|(req, opt, me, how)| RefSpec { req, opt, me, how });
    prop_oneof![
        4 => (0u8..4, k()).prop_map(|(t, k)| Op::SaveTarget { t, k }),
        3 => (0u8..4, k()).prop_map(|(t, k)| Op::DeleteTarget { t, k }),
        5 => (k(), spec).prop_map(|(id, spec)| Op::SaveRef { id, spec }),
        1 => k().prop_map(|id| Op::Resave { id }),
        2 => (k(), 0u8..5, k()).prop_map(|(id, field, to)| Op::Repoint { id, field, to }),
        2 => k().prop_map(|id| Op::DeleteRef { id }),
        4 => (k(), 0u8..5).prop_map(|(id, field)| Op::Load { id, field }),
        2 => (k(), k()).prop_map(|(a, b)| Op::Compare { a, b }),
        1 => k().prop_map(|id| Op::Serde { id }),
        1 => (k(), any::<bool>()).prop_map(|(id, owned)| Op::SaveUnsaved { id, owned }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    /// which targets exist from the start
    have: [u8; 4],
    ops: Vec<Op>,
    in_tx: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct RefRow {
    /// req, s, u, a
    keys: [Option<usize>; 4],
    me: Option<usize>,
    note: String,
}
struct World {
    targets: [[Option<i32>; NK]; 4],
    auto: Vec<i64>,
    rows: BTreeMap<usize, RefRow>,
    n: i32,
    refused: u32,
    loaded: u32,
    stored: u32,
}
impl World {
    fn a_key(&self, k: usize) -> AutoPk<i64> {
        // automatic keys are known by value only once a row had them
        AutoPk::<i64>::from_sql_any(self.auto[k])
    }
    fn save_target(&mut self, c: &C, t: usize, k: usize) -> Result<(), Fail> {
        self.n += 1;
        let n = self.n;
        let r = match t {
            0 => c.save(&mut IntK { id: IK[k], name: format!("i{n}"), n: Some(n) }),
            1 => c.save(&mut StrK { name: SK[k].into(), n: Some(n) }),
            2 => c.save(&mut UuK { key: uk(k), name: format!("u{n}") }),
            _ if self.targets[3][k].is_some() => c.save(&mut AutoA { id: self.a_key(k), name: String::new(), n: Some(n) }),
            _ => c.insert_only(
                "AutoA",
                &[Column::new("id", SqlType::BigInt), Column::new("name", SqlType::Text), Column::new("n", SqlType::Int)],
                &[self.auto[k].to_sql(), String::new().to_sql(), n.to_sql()],
            ),
        };
        if let Err(e) = r {
            fail!("save-failed", "saving target {t}/{k}: {e}");
        }
        self.targets[t][k] = Some(n);
        Ok(())
    }
    fn dangling(&self, r: &RefRow, id: usize) -> bool {
        (0..4).any(|t| r.keys[t].is_some_and(|k| self.targets[t][k].is_none()))
            || r.me.is_some_and(|m| m != id && !self.rows.contains_key(&m))
    }
    fn check(&self, c: &C, what: &str) -> Result<(), Fail> {
        let e = |e: Error| Fail::new("dump", format!("{what}: {e}"));
        let all: Vec<Refs> = c.all().map_err(e)?;
        let mut got: BTreeMap<usize, RefRow> = BTreeMap::new();
        for r in &all {
            got.insert(RK.iter().position(|k| *k == r.id).unwrap_or(99), self.read(r));
        }
        ensure!(got == self.rows && all.len() == got.len(), "rows-wrong", "{what}: stored {got:?}, expected {:?}", self.rows);
        let mut t: [[Option<i32>; NK]; 4] = Default::default();
        for x in c.all::<IntK>().map_err(e)? {
            t[0][IK.iter().position(|k| *k == x.id).unwrap()] = x.n;
        }
        for x in c.all::<StrK>().map_err(e)? {
            t[1][SK.iter().position(|k| *k == x.name).unwrap()] = x.n;
        }
        for x in c.all::<UuK>().map_err(e)? {
            t[2][(0..NK).position(|k| uk(k) == x.key).unwrap()] = Some(x.name[1..].parse().unwrap());
        }
        for x in c.all::<AutoA>().map_err(e)? {
            t[3][self.auto.iter().position(|k| Some(*k) == *x.id).unwrap()] = x.n;
        }
        ensure!(t == self.targets, "targets-wrong", "{what}: referenced tables hold {t:?}, expected {:?}", self.targets);
        Ok(())
    }
    fn read(&self, r: &Refs) -> RefRow {
        RefRow {
            keys: [
                Some(IK.iter().position(|k| *k == r.req.pk()).unwrap_or(99)),
                r.s.as_ref().map(|f| SK.iter().position(|k| *k == f.pk()).unwrap_or(99)),
                r.u.as_ref().map(|f| (0..NK).position(|k| uk(k) == f.pk()).unwrap_or(99)),
                r.a.as_ref().map(|f| self.auto.iter().position(|k| Some(*k) == *f.pk()).unwrap_or(99)),
            ],
            me: r.me.as_ref().map(|f| RK.iter().position(|k| *k == f.pk()).unwrap_or(99)),
            note: r.note.clone(),
        }
    }
    fn make(&mut self, id: usize, s: &RefSpec) -> (Refs, RefRow) {
        self.n += 1;
        let note = format!("note{}", self.n);
        fn fk<T: DataObject>(how: u8, pk: T::PKType, obj: T) -> ForeignKey<T> {
            match how % 3 {
                0 => ForeignKey::from_pk(pk),
                1 => ForeignKey::from(&obj),
                _ => ForeignKey::from(obj),
            }
        }
        let k = s.req as usize % NK;
        let o: Vec<Option<usize>> = s.opt.iter().map(|o| o.map(|k| k as usize % NK)).collect();
        let me = s.me.map(|m| m as usize % 4);
        let r = Refs {
            id: RK[id],
            req: fk(s.how[0], IK[k], IntK { id: IK[k], name: "held".into(), n: None }),
            s: o[0].map(|k| fk(s.how[1], SK[k].into(), StrK { name: SK[k].into(), n: None })),
            u: o[1].map(|k| fk(s.how[2], uk(k), UuK { key: uk(k), name: "held".into() })),
            a: o[2].map(|k| fk(s.how[3], self.a_key(k), AutoA { id: self.a_key(k), name: "held".into(), n: None })),
            me: me.map(|m| {
                fk(s.how[4], RK[m], Refs { id: RK[m], req: ForeignKey::from_pk(0), s: None, u: None, a: None, me: None, note: "held".into() })
            }),
            note: note.clone(),
        };
        (r, RefRow { keys: [Some(k), o[0], o[1], o[2]], me, note })
    }
    fn get(&self, c: &C, id: usize, what: &str) -> Result<Option<Refs>, Fail> {
        match c.try_get::<Refs>(RK[id]) {
            Ok(r) => {
                ensure!(r.is_some() == self.rows.contains_key(&id), "row-missing", "{what}: found {}", r.is_some());
                Ok(r)
            }
            Err(e) => fail!("get-failed", "{what}: {e}"),
        }
    }
    fn save_ref(&mut self, c: &C, id: usize, mut r: Refs, row: RefRow, in_tx: bool, what: &str) -> Result<bool, Fail> {
        let bad = self.dangling(&row, id);
        if bad && in_tx {
            return Ok(false);
        }
        match (c.save(&mut r), bad) {
            (Ok(()), false) => {
                self.rows.insert(id, row);
                self.stored += 1;
            }
            (Err(_), true) => self.refused += 1,
            (Ok(()), true) => fail!("dangling-saved", "{what}: a reference to a missing object was saved"),
            (Err(e), false) => fail!("save-failed", "{what}: {e}"),
        }
        Ok(true)
    }
    fn step(&mut self, c: &C, op: &Op, in_tx: bool, what: &str) -> Result<bool, Fail> {
        match op {
            Op::SaveTarget { t, k } => {
                self.save_target(c, *t as usize % 4, *k as usize % NK)?;
                Ok(true)
            }
            Op::DeleteTarget { t, k } => {
                let (t, k) = (*t as usize % 4, *k as usize % NK);
                let used = self.rows.values().any(|r| r.keys[t] == Some(k));
                if self.targets[t][k].is_none() || (used && in_tx) {
                    return Ok(false);
                }
                let r = match t {
                    0 => c.delete(&IntK { id: IK[k], name: String::new(), n: None }),
                    1 => c.delete(&StrK { name: SK[k].into(), n: None }),
                    2 => c.delete(&UuK { key: uk(k), name: String::new() }),
                    _ => c.delete(&AutoA { id: self.a_key(k), name: String::new(), n: None }),
                };
                if used {
                    ensure!(r.is_err(), "referenced-deleted", "{what}: a referenced object was deleted");
                    self.refused += 1;
                } else {
                    ensure!(r.is_ok(), "delete-failed", "{what}: {r:?}");
                    self.targets[t][k] = None;
                }
                Ok(true)
            }
            Op::SaveRef { id, spec } => {
                let id = *id as usize % 4;
                let (r, row) = self.make(id, spec);
                self.save_ref(c, id, r, row, in_tx, what)
            }
            Op::Resave { id } => {
                let id = *id as usize % 4;
                let Some(r) = self.get(c, id, what)? else { return Ok(false) };
                let row = self.rows[&id].clone();
                self.save_ref(c, id, r, row, in_tx, what)
            }
            Op::Repoint { id, field, to } => {
                let (id, to) = (*id as usize % 4, *to as usize % NK);
                let Some(mut r) = self.get(c, id, what)? else { return Ok(false) };
                let mut row = self.rows[&id].clone();
                match field % 5 {
                    0 => r.req = ForeignKey::from_pk(IK[to]),
                    1 => r.s = Some(ForeignKey::from_pk(SK[to].into())),
                    2 => r.u = Some(ForeignKey::from_pk(uk(to))),
                    3 => r.a = Some(ForeignKey::from_pk(self.a_key(to))),
                    _ => r.me = Some(ForeignKey::from_pk(RK[to])),
                }
                match field % 5 {
                    4 => row.me = Some(to),
                    f => row.keys[f as usize] = Some(to),
                }
                self.save_ref(c, id, r, row, in_tx, what)
            }
            Op::DeleteRef { id } => {
                let id = *id as usize % 4;
                let Some(r) = self.get(c, id, what)? else { return Ok(false) };
                let used = self.rows.iter().any(|(i, r)| *i != id && r.me == Some(id));
                if used && in_tx {
                    return Ok(false);
                }
                let r = c.delete(&r);
                if used {
                    ensure!(r.is_err(), "referenced-deleted", "{what}: a referenced object was deleted");
                    self.refused += 1;
                } else {
                    ensure!(r.is_ok(), "delete-failed", "{what}: {r:?}");
                    self.rows.remove(&id);
                }
                Ok(true)
            }
            Op::Load { id, field } => {
                let id = *id as usize % 4;
                let Some(r) = self.get(c, id, what)? else { return Ok(false) };
                let row = self.rows[&id].clone();
                ensure!(matches!(r.req.get(), Err(Error::ValueNotLoaded)), "loaded-early", "{what}: get before load: {:?}", r.req.get().is_ok());
                fn load<T: DataObject + Clone + Send>(c: &C, f: &ForeignKey<T>, what: &str) -> Result<T, Fail>
                where
                    T::PKType: Sync + Send,
                {
                    ensure!(matches!(f.get(), Err(Error::ValueNotLoaded)), "loaded-early", "{what}: get before load succeeded");
                    let x = match c.fk_load(f) {
                        Ok(x) => x,
                        Err(e) => fail!("load-failed", "{what}: {e}"),
                    };
                    let pk = match f.get() {
                        Ok(g) => g.pk().clone(),
                        Err(e) => fail!("get-after-load", "{what}: {e}"),
                    };
                    ensure!(pk == f.pk() && pk == *x.pk(), "wrong-referent", "{what}: the loaded object has another key");
                    Ok(x)
                }
                let n = |t: usize| row.keys[t].map(|k| self.targets[t][k]);
                let bad = |got: String, want: String| Fail::new("wrong-referent", format!("{what}: loaded {got}, expected {want}"));
                match field % 5 {
                    0 => {
                        let x = load(c, &r.req, what)?;
                        let w = n(0).unwrap();
                        let want = IntK { id: IK[row.keys[0].unwrap()], name: format!("i{}", w.unwrap()), n: w };
                        if x != want {
                            return Err(bad(format!("{x:?}"), format!("{want:?}")));
                        }
                    }
                    1 => {
                        let Some(f) = &r.s else { return Ok(false) };
                        let x = load(c, f, what)?;
                        let want = StrK { name: SK[row.keys[1].unwrap()].into(), n: n(1).unwrap() };
                        if x != want {
                            return Err(bad(format!("{x:?}"), format!("{want:?}")));
                        }
                    }
                    2 => {
                        let Some(f) = &r.u else { return Ok(false) };
                        let x = load(c, f, what)?;
                        let want = UuK { key: uk(row.keys[2].unwrap()), name: format!("u{}", n(2).unwrap().unwrap()) };
                        if x != want {
                            return Err(bad(format!("{x:?}"), format!("{want:?}")));
                        }
                    }
                    3 => {
                        let Some(f) = &r.a else { return Ok(false) };
                        let x = load(c, f, what)?;
                        let want = AutoA { id: self.a_key(row.keys[3].unwrap()), name: String::new(), n: n(3).unwrap() };
                        if x != want {
                            return Err(bad(format!("{x:?}"), format!("{want:?}")));
                        }
                    }
                    _ => {
                        let Some(f) = &r.me else { return Ok(false) };
                        let x = load(c, f, what)?;
                        let want = &self.rows[&row.me.unwrap()];
                        if self.read(&x) != *want {
                            return Err(bad(format!("{x:?}"), format!("{want:?}")));
                        }
                    }
                }
                self.loaded += 1;
                Ok(false)
            }
            Op::Compare { a, b } => {
                let (a, b) = (*a as usize % 4, *b as usize % 4);
                let (Some(ra), Some(rb)) = (self.get(c, a, what)?, self.get(c, b, what)?) else { return Ok(false) };
                let (ka, kb) = (self.rows[&a].clone(), self.rows[&b].clone());
                let _ = c.fk_load(&ra.req);
                ensure!((ra.req == rb.req) == (ka.keys[0] == kb.keys[0]), "fk-equality", "{what}: required key");
                ensure!((ra.req == IK[kb.keys[0].unwrap()]) == (ka.keys[0] == kb.keys[0]), "fk-equality", "{what}: key against value");
                if let Some(o) = self.targets[0][kb.keys[0].unwrap()] {
                    let o = IntK { id: IK[kb.keys[0].unwrap()], name: "other".into(), n: Some(o) };
                    ensure!((ra.req == o) == (ka.keys[0] == kb.keys[0]), "fk-equality", "{what}: key against object");
                }
                if let (Some(x), Some(y)) = (&ra.s, &rb.s) {
                    let _ = c.fk_load(y);
                    ensure!((x == y) == (ka.keys[1] == kb.keys[1]), "fk-equality", "{what}: text key");
                }
                if let (Some(x), Some(y)) = (&ra.u, &rb.u) {
                    ensure!((x == y) == (ka.keys[2] == kb.keys[2]), "fk-equality", "{what}: uuid key");
                }
                if let (Some(x), Some(y)) = (&ra.a, &rb.a) {
                    let _ = c.fk_load(x);
                    ensure!((x == y) == (ka.keys[3] == kb.keys[3]), "fk-equality", "{what}: automatic key");
                }
                Ok(false)
            }
            Op::Serde { id } => {
                let id = *id as usize % 4;
                let Some(r) = self.get(c, id, what)? else { return Ok(false) };
                let _ = c.fk_load(&r.req);
                let j = serde_json::to_value(&r).map_err(|e| Fail::new("serialise", e.to_string()))?;
                ensure!(j["req"] == serde_json::json!(r.req.pk()), "serde-key", "{what}: serialised as {}", j["req"]);
                ensure!(j["s"] == serde_json::json!(r.s.as_ref().map(|f| f.pk())), "serde-key", "{what}: serialised as {}", j["s"]);
                let b: Refs = serde_json::from_value(j).map_err(|e| Fail::new("deserialise", e.to_string()))?;
                ensure!(self.read(&b) == self.rows[&id], "serde-key", "{what}: deserialised {b:?}");
                ensure!(b.req.get().is_err(), "serde-key", "{what}: deserialised as loaded");
                Ok(false)
            }
            Op::SaveUnsaved { id, owned } => {
                let id = *id as usize % 4;
                let (mut r, row) = self.make(id, &RefSpec { req: 0, opt: [None; 3], me: None, how: [0; 5] });
                if self.dangling(&row, id) {
                    return Ok(false);
                }
                let x = AutoA { id: AutoPk::uninitialized(), name: String::new(), n: None };
                // Refused either by an error or by a panic (conversion to SQL cannot fail).
                let res = quiet_panic(|| {
                    r.a = Some(if *owned { ForeignKey::from(x) } else { ForeignKey::from(&x) });
                    c.save(&mut r)
                });
                ensure!(!matches!(res, Some(Ok(()))), "unsaved-referent-saved", "{what}: a reference to an unsaved object was saved");
                Ok(true)
            }
        }
    }
}
trait FromAny: Sized {
    fn from_sql_any(v: i64) -> Self;
}
impl FromAny for AutoPk<i64> {
    fn from_sql_any(v: i64) -> Self {
        butane_core::FromSql::from_sql(butane_core::SqlVal::BigInt(v)).unwrap()
    }
}

fn run(env: &mut Env, q: &Case) -> R {
    let sch = crate::schema::schema(&["IntK", "StrK", "UuK", "AutoA", "Refs"]);
    let mut db = env.fresh(q.fl, &sch);
    let mut w = World { targets: Default::default(), auto: vec![], rows: BTreeMap::new(), n: 0, refused: 0, loaded: 0, stored: 0 };
    {
        let c = db.c();
        for _ in 0..NK {
            let mut a = AutoA { id: AutoPk::uninitialized(), name: String::new(), n: Some(0) };
            c.save(&mut a).map_err(|e| Fail::new("setup", e.to_string()))?;
            w.auto.push(a.id.unwrap());
        }
        w.targets[3] = [Some(0); NK];
        for t in 0..3 {
            for k in 0..NK {
                if q.have[t] >> k & 1 == 1 {
                    w.save_target(&c, t, k)?;
                }
            }
        }
    }
    let go = |c: &C, w: &mut World| -> Result<(), Fail> {
        for (i, op) in q.ops.iter().enumerate() {
            let what = format!("{} step {i} {op:?}", q.fl.name());
            if w.step(c, op, q.in_tx, &what)? {
                w.check(c, &what)?;
            }
        }
        Ok(())
    };
    if q.in_tx {
        match db.tx(|c| (go(c, &mut w), TxEnd::Commit)) {
            Ok((r, e)) => {
                r?;
                ensure!(e.is_ok(), "commit-failed", "{}: {e:?}", q.fl.name());
            }
            Err(e) => fail!("begin-failed", "{}: {e}", q.fl.name()),
        }
        w.check(&db.c(), "after commit")?;
    } else {
        go(&db.c(), &mut w)?;
    }
    let mut o = Obs::new();
    o.label(q.fl.name());
    o.nontrivial = w.stored >= 1 && (w.refused > 0 || w.loaded > 0);
    if w.refused > 0 {
        o.label("refused");
    }
    if w.loaded > 0 {
        o.label("loaded");
    }
    Ok(o)
}

pub fn c08(ctx: &Ctx) {
    ctx.explore(
        "references",
        "histories of up to 24 saves, re-pointings, deletes, loads and comparisons of rows with integer, text, uuid, automatic and self references; non-trivial: a reference was stored and later loaded, or an operation was refused",
        ctx.cases(5000, 150_000),
        || {
            (any_fl(), any::<[u8; 4]>(), proptest::collection::vec(s_op(), 1..24), proptest::bool::weighted(0.25))
                .prop_map(|(fl, have, ops, in_tx)| Case { fl, have, ops, in_tx })
                .boxed()
        },
        Env::new,
        run,
    );
    ctx.explore(
        "values",
        "foreign keys made from keys, references and owned objects compare, convert and serialise as their key; non-trivial: two different keys",
        ctx.cases(5000, 100_000),
        || (any::<i64>(), any::<i64>(), any::<bool>(), ".{0,6}", ".{0,6}", 0u8..3, 0u8..3).boxed(),
        |_| (),
        |_, (a, b, same, s, t, ha, hb)| {
            let b = if *same { *a } else { *b };
            let t = if *same { s } else { t };
            fn mk<T: DataObject + Clone>(o: &T, how: u8) -> ForeignKey<T> {
                match how {
                    0 => ForeignKey::from_pk(o.pk().clone()),
                    1 => ForeignKey::from(o),
                    _ => ForeignKey::from(o.clone()),
                }
            }
            fn chk<T: DataObject + Clone>(x: &T, y: &T, ha: u8, hb: u8) -> Result<(), Fail>
            where
                T::PKType: Serialize + for<'a> Deserialize<'a>,
            {
                let (p, q) = (mk(x, ha), mk(y, hb));
                let eq = x.pk() == y.pk();
                ensure!((p == q) == eq && (q == p) == eq, "fk-equality", "equality of keys {ha}/{hb}");
                ensure!((p == *y.pk()) == eq, "fk-equality", "equality with a key");
                ensure!(p.to_sql() == x.pk().to_sql(), "fk-to-sql", "{:?}", p.to_sql());
                ensure!(p.clone().into_sql() == x.pk().to_sql(), "fk-to-sql", "into_sql");
                ensure!(p.pk() == *x.pk(), "fk-pk", "pk");
                ensure!(<ForeignKey<T> as FieldType>::SQLTYPE == <T::PKType as FieldType>::SQLTYPE, "fk-type", "type");
                ensure!(p.get().is_ok() == (ha == 2), "fk-get", "get on how {ha}");
                let c = p.clone();
                ensure!(c == p && c.get().is_ok() == p.get().is_ok(), "fk-clone", "clone");
                let v = p.to_sql();
                let back = <ForeignKey<T> as butane_core::FromSql>::from_sql(v).map_err(|e| Fail::new("fk-from-sql", e.to_string()))?;
                ensure!(back == p && back.get().is_err(), "fk-from-sql", "from_sql");
                let j = serde_json::to_string(&p).unwrap();
                ensure!(j == serde_json::to_string(x.pk()).unwrap(), "fk-serde", "serialised as {j}");
                let d: ForeignKey<T> = serde_json::from_str(&j).map_err(|e| Fail::new("fk-serde", e.to_string()))?;
                ensure!(d == p && d.get().is_err(), "fk-serde", "deserialised");
                Ok(())
            }
            chk(&IntK { id: *a, name: "x".into(), n: None }, &IntK { id: b, name: "y".into(), n: Some(1) }, *ha, *hb)?;
            chk(&StrK { name: s.clone(), n: None }, &StrK { name: t.clone(), n: Some(1) }, *ha, *hb)?;
            let u = |i: i64| Uuid::from_u64_pair(i as u64, 7);
            chk(&UuK { key: u(*a), name: "x".into() }, &UuK { key: u(b), name: "y".into() }, *ha, *hb)?;
            let o = |i: i64| AutoA { id: AutoPk::from_sql_any(i), name: "x".into(), n: None };
            chk(&o(*a), &o(b), *ha, *hb)?;
            let mut ob = Obs::new();
            ob.nontrivial = *a != b;
            Ok(ob)
        },
    );
}
