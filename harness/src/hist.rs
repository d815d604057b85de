//! Histories of operations on keyed objects: the operation language, its execution on a
//! connection, and the reference model.
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use butane_core::query::{BoolExpr, Expr};
use butane_core::{AutoPk, DataObject, DataResult, SqlVal, ToSql};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

pub const NT: usize = 8;
pub const MODELS: [&str; NT] =
    ["AutoA", "IntK", "StrK", "UuK", "UniqK", "AutoU", "OnlyAuto", "OnlyPk"];
pub const AUTO: [bool; NT] = [true, false, false, false, false, true, true, false];
pub const NAMES: [&str; 6] = ["a", "b", "", "it's; DROP TABLE \"IntK\"; --", "Ünï\n日本", "%_\\"];

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum K {
    I(i64),
    S(String),
    U([u8; 16]),
}
impl K {
    pub fn sql(&self, t: usize) -> SqlVal {
        match self {
            K::I(i) if t == 5 => SqlVal::Int(*i as i32),
            K::I(i) => SqlVal::BigInt(*i),
            K::S(s) => SqlVal::Text(s.clone()),
            K::U(u) => SqlVal::Blob(u.to_vec()),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Row {
    pub key: Option<K>,
    pub name: String,
    pub n: Option<i32>,
    pub plain: i32,
}

/// A model of the keyed-store family.
pub trait Obj: DataObject + Clone + std::fmt::Debug {
    fn make(k: u8, name: &str, n: Option<i32>) -> Self;
    fn edit(&mut self, name: &str, n: Option<i32>);
    fn row(&self) -> Row;
}
fn uu(k: u8) -> [u8; 16] {
    let mut b = [k; 16];
    b[0] = 0;
    b
}
fn ik(k: u8) -> i64 {
    [1, 2, 3, 0, -1, i64::MAX, i64::MIN, 1 << 40][k as usize % 8]
}
/// Keys probed and used by non-automatic tables.
pub fn key_of(t: usize, k: u8) -> K {
    match t {
        2 => K::S(NAMES[k as usize % NAMES.len()].to_string()),
        3 => K::U(uu(k % 6)),
        0 | 5 | 6 => K::I((k % 12) as i64),
        _ => K::I(ik(k)),
    }
}
impl Obj for AutoA {
    fn make(_: u8, name: &str, n: Option<i32>) -> Self {
        AutoA { id: AutoPk::uninitialized(), name: name.into(), n }
    }
    fn edit(&mut self, name: &str, n: Option<i32>) {
        self.name = name.into();
        self.n = n;
    }
    fn row(&self) -> Row {
        Row { key: self.id.map(K::I), name: self.name.clone(), n: self.n, plain: 0 }
    }
}
impl Obj for AutoU {
    fn make(_: u8, name: &str, n: Option<i32>) -> Self {
        AutoU { id: AutoPk::uninitialized(), name: name.into(), n }
    }
    fn edit(&mut self, name: &str, n: Option<i32>) {
        self.name = name.into();
        self.n = n;
    }
    fn row(&self) -> Row {
        Row { key: self.id.map(|i| K::I(i as i64)), name: self.name.clone(), n: self.n, plain: 0 }
    }
}
impl Obj for IntK {
    fn make(k: u8, name: &str, n: Option<i32>) -> Self {
        IntK { id: ik(k), name: name.into(), n }
    }
    fn edit(&mut self, name: &str, n: Option<i32>) {
        self.name = name.into();
        self.n = n;
    }
    fn row(&self) -> Row {
        Row { key: Some(K::I(self.id)), name: self.name.clone(), n: self.n, plain: 0 }
    }
}
impl Obj for StrK {
    fn make(k: u8, _: &str, n: Option<i32>) -> Self {
        StrK { name: NAMES[k as usize % NAMES.len()].into(), n }
    }
    fn edit(&mut self, _: &str, n: Option<i32>) {
        self.n = n;
    }
    fn row(&self) -> Row {
        Row { key: Some(K::S(self.name.clone())), name: String::new(), n: self.n, plain: 0 }
    }
}
impl Obj for UuK {
    fn make(k: u8, name: &str, _: Option<i32>) -> Self {
        UuK { key: Uuid::from_bytes(uu(k % 6)), name: name.into() }
    }
    fn edit(&mut self, name: &str, _: Option<i32>) {
        self.name = name.into();
    }
    fn row(&self) -> Row {
        Row { key: Some(K::U(*self.key.as_bytes())), name: self.name.clone(), n: None, plain: 0 }
    }
}
impl Obj for UniqK {
    fn make(k: u8, name: &str, n: Option<i32>) -> Self {
        UniqK { id: ik(k), name: name.into(), n, plain: k as i32 }
    }
    fn edit(&mut self, name: &str, n: Option<i32>) {
        self.name = name.into();
        self.n = n;
        self.plain += 1;
    }
    fn row(&self) -> Row {
        Row { key: Some(K::I(self.id)), name: self.name.clone(), n: self.n, plain: self.plain }
    }
}
impl Obj for OnlyAuto {
    fn make(_: u8, _: &str, _: Option<i32>) -> Self {
        OnlyAuto { id: AutoPk::uninitialized() }
    }
    fn edit(&mut self, _: &str, _: Option<i32>) {}
    fn row(&self) -> Row {
        Row { key: self.id.map(K::I), name: String::new(), n: None, plain: 0 }
    }
}
impl Obj for OnlyPk {
    fn make(k: u8, _: &str, _: Option<i32>) -> Self {
        OnlyPk { id: ik(k) }
    }
    fn edit(&mut self, _: &str, _: Option<i32>) {}
    fn row(&self) -> Row {
        Row { key: Some(K::I(self.id)), name: String::new(), n: None, plain: 0 }
    }
}

#[derive(Clone, Debug)]
pub enum Any8 {
    A(AutoA),
    B(IntK),
    C(StrK),
    D(UuK),
    E(UniqK),
    F(AutoU),
    G(OnlyAuto),
    H(OnlyPk),
}
macro_rules! each {
    ($e:expr, $x:ident => $b:expr) => {
        match $e {
            Any8::A($x) => $b,
            Any8::B($x) => $b,
            Any8::C($x) => $b,
            Any8::D($x) => $b,
            Any8::E($x) => $b,
            Any8::F($x) => $b,
            Any8::G($x) => $b,
            Any8::H($x) => $b,
        }
    };
}
macro_rules! bytype {
    ($t:expr, $T:ident, $W:ident => $b:expr) => {
        match $t {
            0 => {
                type $T = AutoA;
                #[allow(unused_variables)]
                let $W = Any8::A;
                $b
            }
            1 => {
                type $T = IntK;
                #[allow(unused_variables)]
                let $W = Any8::B;
                $b
            }
            2 => {
                type $T = StrK;
                #[allow(unused_variables)]
                let $W = Any8::C;
                $b
            }
            3 => {
                type $T = UuK;
                #[allow(unused_variables)]
                let $W = Any8::D;
                $b
            }
            4 => {
                type $T = UniqK;
                #[allow(unused_variables)]
                let $W = Any8::E;
                $b
            }
            5 => {
                type $T = AutoU;
                #[allow(unused_variables)]
                let $W = Any8::F;
                $b
            }
            6 => {
                type $T = OnlyAuto;
                #[allow(unused_variables)]
                let $W = Any8::G;
                $b
            }
            _ => {
                type $T = OnlyPk;
                #[allow(unused_variables)]
                let $W = Any8::H;
                $b
            }
        }
    };
}
impl Any8 {
    pub fn row(&self) -> Row {
        each!(self, x => x.row())
    }
    pub fn t(&self) -> usize {
        match self {
            Any8::A(_) => 0,
            Any8::B(_) => 1,
            Any8::C(_) => 2,
            Any8::D(_) => 3,
            Any8::E(_) => 4,
            Any8::F(_) => 5,
            Any8::G(_) => 6,
            Any8::H(_) => 7,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    New { t: u8, k: u8, name: u8, n: Option<i8>, save: bool },
    Save { s: u8 },
    Edit { s: u8, name: u8, n: Option<i8>, save: bool },
    Copy { s: u8 },
    Get { t: u8, k: u8, keep: bool },
    Delete { s: u8 },
    /// Delete objects by a condition on the name (or number, or everything).
    DeleteQ { t: u8, name: u8, n: Option<i8>, how: u8 },
    Load { t: u8 },
    /// Raw SQL that fails.
    Bad { how: u8 },
}
pub fn s_op() -> BoxedStrategy<Op> {
    let t = 0u8..NT as u8;
    let nm = 0u8..NAMES.len() as u8;
    let n = || proptest::option::weighted(0.7, 0i8..4);
    prop_oneof![
        6 => (t.clone(), 0u8..8, nm.clone(), n(), proptest::bool::weighted(0.8)).prop_map(|(t, k, name, n, save)| Op::New { t, k, name, n, save }),
        3 => (0u8..24).prop_map(|s| Op::Save { s }),
        4 => (0u8..24, nm.clone(), n(), proptest::bool::weighted(0.7)).prop_map(|(s, name, n, save)| Op::Edit { s, name, n, save }),
        1 => (0u8..24).prop_map(|s| Op::Copy { s }),
        4 => (t.clone(), 0u8..12, any::<bool>()).prop_map(|(t, k, keep)| Op::Get { t, k, keep }),
        3 => (0u8..24).prop_map(|s| Op::Delete { s }),
        1 => (t.clone(), nm, n(), 0u8..8).prop_map(|(t, name, n, how)| Op::DeleteQ { t, name, n, how }),
        1 => t.prop_map(|t| Op::Load { t }),
    ]
    .boxed()
}

/// What an operation reported.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Out {
    Skip,
    Done,
    Key(Option<K>),
    Failed,
    Found(Option<Row>),
    Rows(Vec<Row>),
    Count(usize),
}

/// In-memory objects of a history.
#[derive(Default, Clone)]
pub struct Mem {
    pub slots: Vec<Any8>,
    /// Last error text, for messages.
    pub err: String,
    /// Slots whose save may not be repeated (their automatic key is of a removed row).
    pub stale: BTreeSet<usize>,
}
impl Mem {
    pub fn slot(&self, s: u8) -> Option<usize> {
        (!self.slots.is_empty()).then(|| s as usize % self.slots.len())
    }
}
fn keep_err<T>(mem: &mut Mem, r: butane_core::Result<T>, f: impl FnOnce(T) -> Out) -> Out {
    match r {
        Ok(x) => f(x),
        Err(e) => {
            mem.err = format!("{e}");
            Out::Failed
        }
    }
}
fn save_slot(c: &C, mem: &mut Mem, i: usize) -> Out {
    if mem.stale.contains(&i) {
        return Out::Skip;
    }
    let r = each!(&mut mem.slots[i], o => c.save(o));
    let key = mem.slots[i].row().key;
    keep_err(mem, r, |()| Out::Key(key))
}
pub fn cond(t: usize, name: u8, n: Option<i8>, how: u8) -> BoolExpr {
    let nm = NAMES[name as usize % NAMES.len()];
    match (t, how % 4) {
        (6 | 7, _) | (_, 3) => match key_of(t, name) {
            k => BoolExpr::Eq(if matches!(t, 2) { "name" } else if t == 3 { "key" } else { "id" }, Expr::Val(k.sql(t))),
        },
        (3, _) | (0..=5, 0) => BoolExpr::Eq("name", Expr::Val(nm.to_sql())),
        (_, 1) => BoolExpr::Lt("n", Expr::Val(SqlVal::Int(n.unwrap_or(9) as i32))),
        _ => match n {
            Some(n) => BoolExpr::Eq("n", Expr::Val(SqlVal::Int(n as i32))),
            None => BoolExpr::Eq("n", Expr::Val(SqlVal::Null)),
        },
    }
}
pub fn cond_true(t: usize, r: &Row, name: u8, n: Option<i8>, how: u8) -> bool {
    let nm = NAMES[name as usize % NAMES.len()];
    match (t, how % 4) {
        (6 | 7, _) | (_, 3) => r.key == Some(key_of(t, name)),
        (2, 0) => r.key == Some(K::S(nm.into())),
        (3, _) | (0..=5, 0) => r.name == nm,
        (_, 1) => r.n.map(|x| x < n.unwrap_or(9) as i32).unwrap_or(false),
        _ => r.n == n.map(|x| x as i32),
    }
}
/// All rows of a table, sorted by key.
pub fn dump(c: &C, t: usize) -> butane_core::Result<Vec<Row>> {
    let mut v: Vec<Row> = bytype!(t, T, W => c.all::<T>()?.iter().map(|o| o.row()).collect());
    v.sort_by(|a, b| a.key.cmp(&b.key));
    Ok(v)
}
pub fn exec(c: &C, mem: &mut Mem, op: &Op) -> Out {
    match op {
        Op::New { t, k, name, n, save } => {
            let t = *t as usize % NT;
            let nm = NAMES[*name as usize % NAMES.len()];
            let o = bytype!(t, T, W => W(T::make(*k, nm, n.map(|x| x as i32))));
            mem.slots.push(o);
            if *save {
                let i = mem.slots.len() - 1;
                save_slot(c, mem, i)
            } else {
                Out::Done
            }
        }
        Op::Save { s } => match mem.slot(*s) {
            None => Out::Skip,
            Some(i) => save_slot(c, mem, i),
        },
        Op::Edit { s, name, n, save } => match mem.slot(*s) {
            None => Out::Skip,
            Some(i) => {
                let nm = NAMES[*name as usize % NAMES.len()];
                each!(&mut mem.slots[i], o => o.edit(nm, n.map(|x| x as i32)));
                if *save {
                    save_slot(c, mem, i)
                } else {
                    Out::Done
                }
            }
        },
        Op::Copy { s } => match mem.slot(*s) {
            None => Out::Skip,
            Some(i) => {
                let o = mem.slots[i].clone();
                mem.slots.push(o);
                if mem.stale.contains(&i) {
                    mem.stale.insert(mem.slots.len() - 1);
                }
                Out::Done
            }
        },
        Op::Get { t, k, keep } => {
            let t = *t as usize % NT;
            let key = key_of(t, *k).sql(t);
            let (r, g) = bytype!(t, T, W => {
                let key = <<T as DataObject>::PKType as butane_core::FromSql>::from_sql(key).unwrap();
                let g = match c.get::<T>(key.clone()) {
                    Ok(x) => Ok(Some(x.row())),
                    Err(butane_core::Error::NoSuchObject) => Ok(None),
                    Err(e) => Err(e),
                };
                (c.try_get::<T>(key).map(|o| o.map(W)), g)
            });
            match (r, g) {
                (Ok(o), Ok(g)) => {
                    let row = o.as_ref().map(|o| o.row());
                    if row != g {
                        mem.err = format!("get found {g:?}, try_get found {row:?}");
                        return Out::Failed;
                    }
                    if let (Some(o), true) = (o, *keep) {
                        mem.slots.push(o);
                    }
                    Out::Found(row)
                }
                (Err(e), _) | (_, Err(e)) => {
                    mem.err = e.to_string();
                    Out::Failed
                }
            }
        }
        Op::Delete { s } => match mem.slot(*s) {
            None => Out::Skip,
            Some(i) if mem.slots[i].row().key.is_none() => Out::Skip,
            Some(i) => {
                let r = each!(&mem.slots[i], o => c.delete(o));
                keep_err(mem, r, |()| Out::Done)
            }
        },
        Op::DeleteQ { t, name, n, how } => {
            let t = *t as usize % NT;
            let r = bytype!(t, T, W => {
                let q = T::query();
                let q = if *how == 7 { q } else { q.filter(cond(t, *name, *n, *how)) };
                c.delete_q(q)
            });
            keep_err(mem, r, Out::Count)
        }
        Op::Load { t } => {
            let r = dump(c, *t as usize % NT);
            keep_err(mem, r, Out::Rows)
        }
        Op::Bad { how } => {
            let r = c.execute(match how % 4 {
                0 => "SELECT * FROM no_such_table",
                1 => "INSERT INTO \"IntK\" (id) VALUES (77)",
                2 => "THIS IS NOT SQL",
                _ => "INSERT INTO \"UniqK\" (id, name, n, plain) VALUES (77, 'x', 1, NULL)",
            });
            keep_err(mem, r, |()| Out::Done)
        }
    }
}

/// The reference: tables as maps, and what the in-memory objects should hold.
#[derive(Clone, Default)]
pub struct Model {
    pub tabs: [BTreeMap<K, Row>; NT],
    pub slots: Vec<(usize, Row)>,
    pub stale: BTreeSet<usize>,
    pub turso: bool,
    /// Automatic keys handed out so far.
    pub used: [BTreeSet<i64>; NT],
    pub reused: u32,
    pub errors: u32,
    pub changes: u32,
}
impl Model {
    fn conflict(&self, t: usize, r: &Row) -> bool {
        match t {
            4 => self.tabs[4].values().any(|x| {
                x.key != r.key && (x.name == r.name || (x.n.is_some() && x.n == r.n))
            }),
            5 => self.tabs[5].values().any(|x| (r.key.is_none() || x.key != r.key) && x.name == r.name),
            _ => false,
        }
    }
    fn save(&mut self, i: usize, out: &Out, what: &str) -> Result<(), Fail> {
        let (t, row) = self.slots[i].clone();
        if self.stale.contains(&i) {
            ensure!(*out == Out::Skip, "harness", "stale slot saved");
            return Ok(());
        }
        if self.conflict(t, &row) {
            self.errors += 1;
            ensure!(*out == Out::Failed, "conflict-accepted", "{what}: {} {row:?} conflicts but {out:?}", MODELS[t]);
            return Ok(());
        }
        let Out::Key(key) = out else {
            fail!("save-failed", "{what}: saving {} {row:?} gave {out:?}", MODELS[t])
        };
        match (&row.key, key) {
            (Some(a), Some(b)) => ensure!(a == b, "key-changed", "{what}: {} key {a:?} became {b:?}", MODELS[t]),
            (_, None) => fail!("no-key", "{what}: {} {row:?} has no key after a successful save", MODELS[t]),
            (None, Some(k)) => {
                ensure!(!self.tabs[t].contains_key(k), "key-in-use", "{what}: new {} got key {k:?}, which {:?} has", MODELS[t], self.tabs[t][k]);
                if let K::I(i) = k {
                    if !self.used[t].insert(*i) {
                        self.reused += 1;
                    }
                }
                self.slots[i].1.key = Some(k.clone());
            }
        }
        let r = self.slots[i].1.clone();
        self.tabs[t].insert(r.key.clone().unwrap(), r);
        self.changes += 1;
        Ok(())
    }
    /// Marks in-memory objects whose automatic key is of no stored row.
    pub fn restale(&mut self, mem: &mut Mem) {
        self.stale.clear();
        for (i, (t, r)) in self.slots.iter().enumerate() {
            if AUTO[*t] {
                if let Some(k) = &r.key {
                    if !self.tabs[*t].contains_key(k) {
                        self.stale.insert(i);
                    }
                }
            }
        }
        mem.stale = self.stale.clone();
    }
    /// Checks an outcome and advances.
    pub fn step(&mut self, op: &Op, out: &Out, mem: &mut Mem, what: &str) -> Result<(), Fail> {
        let what = &if *out == Out::Failed { format!("{what} ({})", mem.err) } else { what.to_string() };
        match op {
            Op::New { t, k, name, n, save } => {
                let t = *t as usize % NT;
                let nm = NAMES[*name as usize % NAMES.len()];
                let row = bytype!(t, T, W => T::make(*k, nm, n.map(|x| x as i32)).row());
                self.slots.push((t, row));
                if *save {
                    self.save(self.slots.len() - 1, out, what)?;
                }
            }
            Op::Save { s } => {
                if !self.slots.is_empty() {
                    self.save(*s as usize % self.slots.len(), out, what)?;
                }
            }
            Op::Edit { s, name, n, save } => {
                if !self.slots.is_empty() {
                    let i = *s as usize % self.slots.len();
                    let (t, r) = &mut self.slots[i];
                    let nm = NAMES[*name as usize % NAMES.len()];
                    let n = n.map(|x| x as i32);
                    match *t {
                        0 | 1 | 5 => {
                            r.name = nm.into();
                            r.n = n;
                        }
                        2 => r.n = n,
                        3 => r.name = nm.into(),
                        4 => {
                            r.name = nm.into();
                            r.n = n;
                            r.plain += 1;
                        }
                        _ => {}
                    }
                    if *save {
                        self.save(i, out, what)?;
                    }
                }
            }
            Op::Copy { s } => {
                if !self.slots.is_empty() {
                    let i = *s as usize % self.slots.len();
                    let x = self.slots[i].clone();
                    self.slots.push(x);
                }
            }
            Op::Get { t, k, keep } => {
                let t = *t as usize % NT;
                let want = self.tabs[t].get(&key_of(t, *k)).cloned();
                ensure!(*out == Out::Found(want.clone()), "get-wrong", "{what}: {} get of {:?}: {out:?}, stored {want:?}", MODELS[t], key_of(t, *k));
                if let (Some(w), true) = (want, *keep) {
                    self.slots.push((t, w));
                }
            }
            Op::Delete { s } => {
                if !self.slots.is_empty() {
                    let i = *s as usize % self.slots.len();
                    let (t, r) = self.slots[i].clone();
                    if let Some(k) = r.key {
                        ensure!(*out == Out::Done, "delete-failed", "{what}: {out:?}");
                        self.tabs[t].remove(&k);
                        self.changes += 1;
                    }
                }
            }
            Op::DeleteQ { t, name, n, how } => {
                let t = *t as usize % NT;
                let before = self.tabs[t].len();
                self.tabs[t].retain(|_, r| *how != 7 && !cond_true(t, r, *name, *n, *how));
                let gone = before - self.tabs[t].len();
                // turso counts rows of indexes too (known finding of C05)
                let lenient = self.turso && matches!(t, 2..=5) && gone > 0 && matches!(out, Out::Count(n) if *n >= gone);
                ensure!(lenient || *out == Out::Count(gone), "delete-count", "{what}: {out:?}, expected {gone}");
                self.changes += (gone > 0) as u32;
            }
            Op::Load { t } => {
                let t = *t as usize % NT;
                let want: Vec<Row> = self.tabs[t].values().cloned().collect();
                ensure!(*out == Out::Rows(want.clone()), "load-wrong", "{what}: {} {out:?}, stored {want:?}", MODELS[t]);
            }
            Op::Bad { .. } => {
                ensure!(*out == Out::Failed, "bad-accepted", "{what}: {out:?}");
                self.errors += 1;
            }
        }
        self.restale(mem);
        for (i, (s, (t, r))) in mem.slots.iter().zip(&self.slots).enumerate() {
            ensure!(s.t() == *t && s.row() == *r, "object-changed", "{what}: in-memory object {i} is {:?}, expected {r:?}", s.row());
        }
        Ok(())
    }
    pub fn check_table(&self, c: &C, t: usize, what: &str) -> Result<(), Fail> {
        let want: Vec<Row> = self.tabs[t].values().cloned().collect();
        match dump(c, t) {
            Ok(v) => ensure!(v == want, "contents", "{what}: {} holds {v:?}, expected {want:?}", MODELS[t]),
            Err(e) => fail!("load-failed", "{what}: loading {}: {e}", MODELS[t]),
        }
        Ok(())
    }
    pub fn check_all(&self, c: &C, what: &str) -> Result<(), Fail> {
        (0..NT).try_for_each(|t| self.check_table(c, t, what))
    }
}
pub fn op_table(op: &Op, mem: &Mem) -> Option<usize> {
    match op {
        Op::New { t, .. } | Op::DeleteQ { t, .. } => Some(*t as usize % NT),
        Op::Save { s } | Op::Edit { s, .. } | Op::Delete { s } => mem.slot(*s).map(|i| mem.slots[i].t()),
        _ => None,
    }
}
pub fn schema() -> std::sync::Arc<crate::schema::Schema> {
    crate::schema::schema(&MODELS)
}
