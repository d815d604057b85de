//! C07 many-to-many links belong to their owner.
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use crate::{ensure, fail};
use butane_core::db::Column;
use butane_core::many::Many;
use butane_core::query::{BoolExpr, Expr, OrderDirection};
use butane_core::{AutoPk, DataObject, Error, SqlType, SqlVal, ToSql};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

const NT: usize = 4;
const TAGS: [&str; NT] = ["x", "y", "it's", "%"];
const KEYS: [&str; 3] = ["k", "it's", ""];
const TABLES: [&str; 5] =
    ["Owner_first_Many", "Owner_second_Many", "Owner_nums_Many", "StrOwner_nums_Many", "AutoKeyed_tags_Many"];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    New { kind: u8, k: u8, adds: Vec<u8>, save: bool },
    Save { s: u8 },
    Fetch { s: u8, by_query: bool },
    CloneAs { s: u8, k: u8 },
    CopyField { from: u8, to: u8, f: u8 },
    Add { s: u8, f: u8, t: u8 },
    AddUnsaved { s: u8, f: u8 },
    Remove { s: u8, f: u8, t: u8 },
    Set { s: u8, f: u8, ts: Vec<u8> },
    Clear { s: u8, f: u8 },
    Load { s: u8, f: u8 },
    LoadOrdered { s: u8, f: u8, desc: bool },
    Get { s: u8, f: u8 },
    SaveField { s: u8, f: u8 },
    DeleteTarget { num: bool, t: u8 },
    DeleteOwner { s: u8 },
}
fn s_op() -> BoxedStrategy<Op> {
    let s = || prop_oneof![3 => 0u8..3, 1 => 3u8..6];
    let f = || 0u8..3;
    let t = || prop_oneof![3 => 0u8..2, 1 => 2u8..NT as u8];
    prop_oneof![
        3 => (0u8..3, 0u8..3, proptest::collection::vec(t(), 0..3), any::<bool>()).prop_map(|(kind, k, adds, save)| Op::New { kind, k, adds, save }),
        4 => s().prop_map(|s| Op::Save { s }),
        2 => (s(), any::<bool>()).prop_map(|(s, by_query)| Op::Fetch { s, by_query }),
        1 => (s(), 0u8..3).prop_map(|(s, k)| Op::CloneAs { s, k }),
        1 => (s(), s(), f()).prop_map(|(from, to, f)| Op::CopyField { from, to, f }),
        5 => (s(), f(), t()).prop_map(|(s, f, t)| Op::Add { s, f, t }),
        1 => (s(), f()).prop_map(|(s, f)| Op::AddUnsaved { s, f }),
        3 => (s(), f(), t()).prop_map(|(s, f, t)| Op::Remove { s, f, t }),
        2 => (s(), f(), proptest::collection::vec(t(), 0..4)).prop_map(|(s, f, ts)| Op::Set { s, f, ts }),
        1 => (s(), f()).prop_map(|(s, f)| Op::Clear { s, f }),
        3 => (s(), f()).prop_map(|(s, f)| Op::Load { s, f }),
        2 => (s(), f(), any::<bool>()).prop_map(|(s, f, desc)| Op::LoadOrdered { s, f, desc }),
        1 => (s(), f()).prop_map(|(s, f)| Op::Get { s, f }),
        2 => (s(), f()).prop_map(|(s, f)| Op::SaveField { s, f }),
        1 => (any::<bool>(), t()).prop_map(|(num, t)| Op::DeleteTarget { num, t }),
        1 => s().prop_map(|s| Op::DeleteOwner { s }),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    ops: Vec<Op>,
    in_tx: bool,
}

#[derive(Clone)]
enum H {
    O(Owner),
    S(StrOwner),
    A(AutoOwner),
}
type Bag = BTreeMap<usize, usize>;
#[derive(Clone, Default)]
struct Fs {
    /// the link table and owner this field reads from
    bound: Option<(usize, String)>,
    new: Vec<usize>,
    removed: Vec<usize>,
    cache: Option<Vec<usize>>,
}
#[derive(Clone)]
struct Slot {
    h: H,
    fs: Vec<Fs>,
}
/// Runs `$b` with `$m` the many-to-many field `$f` of the handle.
macro_rules! fld {
    ($h:expr, $f:expr, $m:ident => $b:expr) => {
        match ($h, $f) {
            (H::O(o), 0) => { let $m = &mut o.first; $b }
            (H::O(o), 1) => { let $m = &mut o.second; $b }
            (H::O(o), _) => { let $m = &mut o.nums; $b }
            (H::S(o), _) => { let $m = &mut o.nums; $b }
            (H::A(o), _) => { let $m = &mut o.tags; $b }
        }
    };
}
trait Target: DataObject + Clone {
    fn at(w: &World, i: usize) -> Self;
    fn idx(&self, w: &World) -> usize;
}
impl Target for Tag {
    fn at(w: &World, i: usize) -> Self {
        w.tags[i].clone()
    }
    fn idx(&self, w: &World) -> usize {
        w.tags.iter().position(|t| t.tag == self.tag).unwrap_or(99)
    }
}
impl Target for Num {
    fn at(w: &World, i: usize) -> Self {
        w.nums[i].clone()
    }
    fn idx(&self, w: &World) -> usize {
        w.nums.iter().position(|t| t.id == self.id).unwrap_or(99)
    }
}
#[derive(Default)]
struct World {
    tags: Vec<Tag>,
    nums: Vec<Num>,
    tag_there: [bool; NT],
    num_there: [bool; NT],
    links: BTreeMap<(usize, String), Bag>,
    owners: [Vec<String>; 3],
    slots: Vec<Slot>,
    saves: u32,
    retried: u32,
    removed: u32,
    shared: bool,
}
fn ks(v: &SqlVal) -> String {
    match v {
        SqlVal::Int(i) => i.to_string(),
        SqlVal::BigInt(i) => i.to_string(),
        SqlVal::Text(t) => format!("t:{t}"),
        o => format!("{o:?}"),
    }
}
impl Slot {
    fn kind(&self) -> usize {
        match self.h {
            H::O(_) => 0,
            H::S(_) => 1,
            H::A(_) => 2,
        }
    }
    fn key(&self) -> Option<String> {
        match &self.h {
            H::O(o) => Some(ks(&o.id.to_sql())),
            H::S(o) => Some(ks(&o.key.to_sql())),
            H::A(o) => o.id.is_some().then(|| ks(&o.id.to_sql())),
        }
    }
    fn nf(&self) -> usize {
        self.fs.len()
    }
}
fn gid(kind: usize, f: usize) -> usize {
    match kind {
        0 => f,
        1 => 3,
        _ => 4,
    }
}
fn is_num(g: usize) -> bool {
    g == 2 || g == 3
}
fn bag_add(b: &mut Bag, v: &[usize]) {
    for i in v {
        *b.entry(*i).or_default() += 1;
    }
}
fn dump(c: &C, w: &World, g: usize) -> Result<BTreeMap<String, Bag>, Fail> {
    let ot = if g == 3 { SqlType::Text } else { SqlType::BigInt };
    let ht = if is_num(g) { SqlType::BigInt } else { SqlType::Text };
    let rows = c
        .query(TABLES[g], &[Column::new("owner", ot), Column::new("has", ht)], None, None, None, None)
        .map_err(|e| Fail::new("dump", e.to_string()))?;
    let mut out: BTreeMap<String, Bag> = BTreeMap::new();
    for r in rows {
        let k = ks(&r[1]);
        let i = if is_num(g) {
            w.nums.iter().position(|n| ks(&n.id.to_sql()) == k)
        } else {
            w.tags.iter().position(|n| ks(&n.tag.to_sql()) == k)
        };
        *out.entry(ks(&r[0])).or_default().entry(i.unwrap_or(99)).or_default() += 1;
    }
    Ok(out)
}
impl World {
    fn there(&self, g: usize, t: usize) -> bool {
        if is_num(g) { self.num_there[t] } else { self.tag_there[t] }
    }
    fn bag(&self, b: &(usize, String)) -> Bag {
        self.links.get(b).cloned().unwrap_or_default()
    }
    fn want(&self, g: usize) -> BTreeMap<String, Bag> {
        self.links
            .iter()
            .filter(|((t, _), b)| *t == g && !b.is_empty())
            .map(|((_, o), b)| (o.clone(), b.clone()))
            .collect()
    }
    fn check_tables(&mut self, c: &C, what: &str) -> Result<(), Fail> {
        for g in 0..5 {
            let (got, want) = (dump(c, self, g)?, self.want(g));
            ensure!(got == want, "links-wrong", "{what}: {} holds {got:?}, expected {want:?}", TABLES[g]);
            self.shared |= want.values().flat_map(|b| b.keys()).any(|t| want.values().filter(|b| b.contains_key(t)).count() > 1);
        }
        Ok(())
    }
    fn restore(&mut self, c: &C) -> Result<(), Fail> {
        for i in 0..NT {
            let e = |e: Error| Fail::new("restore", e.to_string());
            if !self.tag_there[i] {
                c.save(&mut self.tags[i]).map_err(e)?;
                self.tag_there[i] = true;
            }
            if !self.num_there[i] {
                c.insert_only("Num", &[Column::new("id", SqlType::BigInt), Column::new("v", SqlType::Int)], &[self.nums[i].id.to_sql(), self.nums[i].v.to_sql()]).map_err(e)?;
                self.num_there[i] = true;
            }
        }
        Ok(())
    }
    /// What the field contains according to the saved links and its unsaved changes, and whether
    /// that is a list without repetitions.
    fn visible(&self, g: usize, f: &Fs) -> (Vec<usize>, bool) {
        let saved = self.bag(f.bound.as_ref().unwrap());
        let mut v: Vec<usize> = saved.keys().copied().collect();
        v.retain(|t| !f.removed.contains(t));
        v.extend(f.new.iter().filter(|t| self.there(g, **t)));
        v.sort();
        let n = v.len();
        v.dedup();
        (v.clone(), v.len() == n)
    }
    /// The effect of a successful save of one field.
    fn saved(&mut self, s: usize, f: usize) {
        let b = self.slots[s].fs[f].bound.clone().unwrap();
        let fs = &mut self.slots[s].fs[f];
        let (new, removed) = (std::mem::take(&mut fs.new), std::mem::take(&mut fs.removed));
        let bag = self.links.entry(b).or_default();
        for r in &removed {
            self.removed += bag.remove(r).is_some() as u32;
        }
        bag_add(bag, &new);
        self.saves += !(new.is_empty() && removed.is_empty()) as u32;
    }
    fn bind_all(&mut self, s: usize) {
        let (kind, key) = (self.slots[s].kind(), self.slots[s].key().unwrap());
        for f in 0..self.slots[s].nf() {
            let want = Some((gid(kind, f), key.clone()));
            let fs = &mut self.slots[s].fs[f];
            if fs.bound != want {
                fs.bound = want;
                fs.cache = None;
            }
        }
    }
    /// Fields whose save would be refused.
    fn blocked(&self, s: usize, f: usize, owner_there: bool) -> bool {
        let fs = &self.slots[s].fs[f];
        let g = gid(self.slots[s].kind(), f);
        fs.new.iter().any(|t| !owner_there || !self.there(g, *t))
    }
    /// After a refused save: every field holds its links plus some of the additions and minus
    /// some of the removals.
    fn between(&self, c: &C, s: usize, fields: &[usize], what: &str) -> Result<(), Fail> {
        let mut old: BTreeMap<(usize, String), (Bag, Bag)> = BTreeMap::new();
        for f in fields {
            let fs = &self.slots[s].fs[*f];
            let b = fs.bound.clone().unwrap();
            let mut lo = self.bag(&b);
            let mut hi = lo.clone();
            bag_add(&mut hi, &fs.new);
            lo.retain(|k, _| !fs.removed.contains(k));
            old.insert(b, (lo, hi));
        }
        for g in 0..5 {
            let got = dump(c, self, g)?;
            let want = self.want(g);
            for o in got.keys().chain(want.keys()) {
                let gb = got.get(o).cloned().unwrap_or_default();
                let k = (g, o.clone());
                match old.get(&k) {
                    None => ensure!(gb == self.bag(&k), "links-wrong", "{what}: {} of {o} became {gb:?}", TABLES[g]),
                    Some((lo, hi)) => {
                        let ok = lo.iter().all(|(t, n)| gb.get(t).unwrap_or(&0) >= n)
                            && gb.iter().all(|(t, n)| hi.get(t).unwrap_or(&0) >= n);
                        ensure!(ok, "links-wrong", "{what}: {} of {o} became {gb:?}, outside {lo:?}..{hi:?}", TABLES[g]);
                    }
                }
            }
        }
        Ok(())
    }
    fn save_slot(&mut self, c: &C, s: usize, in_tx: bool, what: &str) -> R0 {
        let kind = self.slots[s].kind();
        let key = self.slots[s].key();
        if kind == 2 && key.as_ref().is_some_and(|k| !self.owners[2].contains(k)) {
            return Ok(false); // C02's finding: saving a deleted automatic-key object
        }
        let nf = self.slots[s].nf();
        let blocked = (0..nf).any(|f| self.blocked(s, f, true));
        if blocked && in_tx {
            return Ok(false);
        }
        let r = do_save(c, &mut self.slots[s].h);
        // the row itself is there now, whatever became of the links
        let key = self.slots[s].key();
        let Some(key) = key else { fail!("no-key", "{what}: {r:?} and no key") };
        if !self.owners[kind].contains(&key) {
            self.owners[kind].push(key.clone());
        }
        if blocked {
            ensure!(r.is_err(), "dangling-link-saved", "{what}: saved links to a missing object");
            self.bind_all(s);
            let all: Vec<usize> = (0..nf).collect();
            self.between(c, s, &all, what)?;
            self.restore(c)?;
            self.retried += 1;
            if let Err(e) = do_save(c, &mut self.slots[s].h) {
                fail!("retry-failed", "{what}: retrying the save: {e}");
            }
        } else if let Err(e) = r {
            fail!("save-failed", "{what}: {e}");
        }
        self.bind_all(s);
        for f in 0..nf {
            self.saved(s, f);
        }
        Ok(true)
    }
    fn step(&mut self, c: &C, op: &Op, in_tx: bool, what: &str) -> R0 {
        let n = self.slots.len();
        let sl = |s: &u8| if n == 0 { None } else { Some(*s as usize % n) };
        macro_rules! slot {
            ($s:expr) => {
                match sl($s) {
                    Some(i) => i,
                    None => return Ok(false),
                }
            };
        }
        match op {
            Op::New { kind, k, adds, save } => {
                if n >= 6 {
                    return Ok(false);
                }
                let k = *k as usize % 3;
                let h = match kind % 3 {
                    0 => H::O(Owner { id: k as i64, name: "n".into(), first: Many::new(), second: Many::new(), nums: Many::new() }),
                    1 => H::S(StrOwner { key: KEYS[k].into(), nums: Many::new() }),
                    _ => H::A(AutoOwner { id: AutoPk::uninitialized(), name: "a".into(), tags: Many::new() }),
                };
                let nf = if kind % 3 == 0 { 3 } else { 1 };
                self.slots.push(Slot { h, fs: vec![Fs::default(); nf] });
                for t in adds {
                    self.step(c, &Op::Add { s: n as u8, f: *t, t: *t }, in_tx, what)?;
                }
                if *save {
                    self.save_slot(c, n, in_tx, what)?;
                }
                Ok(true)
            }
            Op::Save { s } => {
                let s = slot!(s);
                self.save_slot(c, s, in_tx, what)
            }
            Op::Fetch { s, by_query } => {
                let s = slot!(s);
                let (kind, Some(key)) = (self.slots[s].kind(), self.slots[s].key()) else { return Ok(false) };
                if n >= 6 || !self.owners[kind].contains(&key) {
                    return Ok(false);
                }
                fn go<T: DataObject>(c: &C, k: impl ToSql, q: bool) -> butane_core::Result<T>
                where
                    T::PKType: Sync,
                {
                    if q {
                        let v = c.load(T::query().filter(BoolExpr::Eq(T::PKCOL, Expr::Val(k.to_sql()))))?;
                        v.into_iter().next().ok_or(Error::NoSuchObject)
                    } else {
                        c.get::<T>(k)
                    }
                }
                let h = match &self.slots[s].h {
                    H::O(o) => go(c, o.id, *by_query).map(H::O),
                    H::S(o) => go(c, o.key.clone(), *by_query).map(H::S),
                    H::A(o) => go(c, o.id, *by_query).map(H::A),
                };
                let h = match h {
                    Ok(h) => h,
                    Err(e) => fail!("fetch-failed", "{what}: {e}"),
                };
                let fs = (0..self.slots[s].nf())
                    .map(|f| Fs { bound: Some((gid(kind, f), key.clone())), ..Fs::default() })
                    .collect();
                self.slots.push(Slot { h, fs });
                Ok(true)
            }
            Op::CloneAs { s, k } => {
                let s = slot!(s);
                if n >= 6 {
                    return Ok(false);
                }
                let mut x = self.slots[s].clone();
                match &mut x.h {
                    H::O(o) => o.id = *k as i64 % 3,
                    H::S(o) => o.key = KEYS[*k as usize % 3].into(),
                    H::A(o) => o.id = AutoPk::uninitialized(),
                }
                self.slots.push(x);
                Ok(true)
            }
            Op::CopyField { from, to, f } => {
                let (from, to) = (slot!(from), slot!(to));
                let (ff, tf) = (*f as usize % self.slots[from].nf(), (*f as usize / 2) % self.slots[to].nf());
                let (gf, gt) = (gid(self.slots[from].kind(), ff), gid(self.slots[to].kind(), tf));
                // the same kind of owner key, so that reading before the save is meaningful
                if is_num(gf) != is_num(gt) || (gf == 3) != (gt == 3) {
                    return Ok(false);
                }
                if is_num(gf) {
                    let m: Many<Num> = match &self.slots[from].h {
                        H::O(o) => o.nums.clone(),
                        H::S(o) => o.nums.clone(),
                        _ => unreachable!(),
                    };
                    match &mut self.slots[to].h {
                        H::O(o) => o.nums = m,
                        H::S(o) => o.nums = m,
                        _ => unreachable!(),
                    }
                } else {
                    let m: Many<Tag> = match (&self.slots[from].h, ff) {
                        (H::O(o), 0) => o.first.clone(),
                        (H::O(o), _) => o.second.clone(),
                        (H::A(o), _) => o.tags.clone(),
                        _ => unreachable!(),
                    };
                    match (&mut self.slots[to].h, tf) {
                        (H::O(o), 0) => o.first = m,
                        (H::O(o), _) => o.second = m,
                        (H::A(o), _) => o.tags = m,
                        _ => unreachable!(),
                    }
                }
                self.slots[to].fs[tf] = self.slots[from].fs[ff].clone();
                Ok(true)
            }
            Op::Add { s, f, t } => {
                let s = slot!(s);
                let (f, t) = (*f as usize % self.slots[s].nf(), *t as usize % NT);
                let mut h = self.slots[s].h.clone();
                let r = fld!(&mut h, f, m => add(self, m, t));
                self.slots[s].h = h;
                ensure!(r.is_ok(), "add-refused", "{what}: {r:?}");
                self.slots[s].fs[f].cache = None;
                self.slots[s].fs[f].new.push(t);
                Ok(true)
            }
            Op::AddUnsaved { s, f } => {
                let s = slot!(s);
                let f = *f as usize % self.slots[s].nf();
                let m = match (&mut self.slots[s].h, f) {
                    (H::O(o), 2) => &mut o.nums,
                    (H::S(o), _) => &mut o.nums,
                    _ => return Ok(false),
                };
                m.remove(&Num { id: AutoPk::uninitialized(), v: 1 });
                match m.add(&Num { id: AutoPk::uninitialized(), v: 1 }) {
                    Err(Error::ValueNotSaved) => Ok(true),
                    r => fail!("unsaved-accepted", "{what}: adding an unsaved object gave {r:?}"),
                }
            }
            Op::Remove { s, f, t } => {
                let s = slot!(s);
                let (f, t) = (*f as usize % self.slots[s].nf(), *t as usize % NT);
                let mut h = self.slots[s].h.clone();
                fld!(&mut h, f, m => remove(self, m, t));
                self.slots[s].h = h;
                self.slots[s].fs[f].cache = None;
                self.slots[s].fs[f].new.retain(|x| *x != t);
                self.slots[s].fs[f].removed.push(t);
                Ok(true)
            }
            Op::Set { .. } | Op::Clear { .. } | Op::SaveField { .. } => {
                let (s, f) = match op {
                    Op::Set { s, f, .. } | Op::Clear { s, f } | Op::SaveField { s, f } => (slot!(s), *f as usize),
                    _ => unreachable!(),
                };
                let f = f % self.slots[s].nf();
                let bound = self.slots[s].fs[f].bound.clone();
                let ts: Vec<usize> = match op {
                    Op::Set { ts, .. } => ts.iter().map(|t| *t as usize % NT).collect(),
                    _ => vec![],
                };
                let mut after = self.slots[s].fs[f].clone();
                match op {
                    Op::Set { .. } => (after.new, after.removed) = (ts.clone(), vec![]),
                    Op::Clear { .. } => (after.new, after.removed) = (vec![], vec![]),
                    _ => {}
                }
                let g = gid(self.slots[s].kind(), f);
                let owner_there = bound.as_ref().is_none_or(|b| {
                    self.owners[match b.0 {
                        3 => 1,
                        4 => 2,
                        _ => 0,
                    }]
                    .contains(&b.1)
                });
                let targets_there = after.new.iter().all(|t| self.there(g, *t));
                let blocked = !after.new.is_empty() && !(owner_there && targets_there);
                if blocked && (in_tx || !owner_there) {
                    return Ok(false);
                }
                if bound.is_none() && in_tx {
                    return Ok(false);
                }
                let mut h = self.slots[s].h.clone();
                let r = fld!(&mut h, f, m => match op {
                    Op::Set { .. } => set(self, c, m, &ts),
                    Op::Clear { .. } => c.many_delete(m),
                    _ => c.many_save(m),
                });
                self.slots[s].h = h;
                let Some(bound) = bound else {
                    match r {
                        Err(Error::NotInitialized) => return Ok(true),
                        r => fail!("not-initialized", "{what}: on a field of an unsaved object: {r:?}"),
                    }
                };
                if !matches!(op, Op::SaveField { .. }) {
                    self.links.remove(&bound);
                    self.slots[s].fs[f] = after;
                    self.removed += 1;
                }
                if blocked {
                    ensure!(r.is_err(), "dangling-link-saved", "{what}: saved links to a missing object");
                    self.between(c, s, &[f], what)?;
                    self.restore(c)?;
                    self.retried += 1;
                    let mut h = self.slots[s].h.clone();
                    let r = fld!(&mut h, f, m => c.many_save(m));
                    self.slots[s].h = h;
                    if let Err(e) = r {
                        fail!("retry-failed", "{what}: retrying: {e}");
                    }
                    self.saved(s, f);
                    if !matches!(op, Op::SaveField { .. }) {
                        // what a failed replacement leaves loaded is not specified
                        let (mut h, fs) = (self.slots[s].h.clone(), self.slots[s].fs[f].clone());
                        fld!(&mut h, f, m => { remove(self, m, 0); });
                        self.slots[s].h = h;
                        self.slots[s].fs[f] = {
                            let new = fs.new.iter().copied().filter(|x| *x != 0).collect();
                            Fs { cache: None, new, removed: vec![0], ..fs }
                        };
                    }
                    return Ok(true);
                }
                if let Err(e) = r {
                    fail!("operation-failed", "{what}: {e}");
                }
                self.saved(s, f);
                match op {
                    Op::Set { .. } => {
                        let mut v = ts;
                        v.sort();
                        self.slots[s].fs[f].cache = Some(v);
                    }
                    Op::Clear { .. } => self.slots[s].fs[f].cache = Some(vec![]),
                    _ => {}
                }
                Ok(true)
            }
            Op::Load { .. } | Op::LoadOrdered { .. } | Op::Get { .. } => {
                let (s, f) = match op {
                    Op::Load { s, f } | Op::LoadOrdered { s, f, .. } | Op::Get { s, f } => (slot!(s), *f as usize),
                    _ => unreachable!(),
                };
                let f = f % self.slots[s].nf();
                let g = gid(self.slots[s].kind(), f);
                let mut h = self.slots[s].h.clone();
                let r = fld!(&mut h, f, m => match op {
                    Op::Load { .. } => c.many_load(m).map(|v| v.iter().map(|x| x.idx(self)).collect::<Vec<_>>()),
                    Op::LoadOrdered { desc, .. } => c
                        .many_load_ordered(m, if *desc { OrderDirection::Descending } else { OrderDirection::Ascending })
                        .map(|v| v.iter().map(|x| x.idx(self)).collect()),
                    _ => m.get().map(|v| v.map(|x| x.idx(self)).collect()),
                });
                self.slots[s].h = h;
                let fs = self.slots[s].fs[f].clone();
                if let Op::Get { .. } = op {
                    match (&fs.cache, &r) {
                        (None, Err(Error::ValueNotLoaded)) => return Ok(true),
                        (Some(_), Ok(_)) => {}
                        _ => fail!("get-wrong", "{what}: {r:?}, expected {:?}", fs.cache),
                    }
                }
                let got = match r {
                    Ok(v) => v,
                    Err(e) => fail!("load-failed", "{what}: {e}"),
                };
                let (want, distinct) = match (&fs.bound, &fs.cache) {
                    (_, Some(v)) => (v.clone(), true),
                    (None, _) => (vec![], true),
                    _ => self.visible(g, &fs),
                };
                let mut sorted = got.clone();
                sorted.sort();
                let mut w = want.clone();
                if !distinct || fs.cache.is_some() {
                    sorted.dedup();
                    w.dedup();
                }
                ensure!(sorted == w, "field-wrong", "{what}: the field shows {got:?}, expected {want:?}");
                if let Op::LoadOrdered { desc, .. } = op {
                    // 0-3 are created in key order for nums; tags sort by their text
                    let rank = |i: &usize| if is_num(g) { i.to_string() } else { TAGS[*i].to_string() };
                    let bytes = |a: &usize, b: &usize| rank(a).cmp(&rank(b));
                    // (an object deleted since it was loaded has no place in the order)
                    let got: Vec<usize> = got.iter().copied().filter(|t| self.there(g, *t)).collect();
                    let mut o = got.clone();
                    o.sort_by(bytes);
                    if *desc {
                        o.reverse();
                    }
                    ensure!(got == o, "order-wrong", "{what}: loaded in the order {got:?}, expected {o:?}");
                }
                if fs.bound.is_some() && fs.cache.is_none() {
                    self.slots[s].fs[f].cache = Some(w);
                }
                Ok(true)
            }
            Op::DeleteTarget { num, t } => {
                let t = *t as usize % NT;
                let there = if *num { self.num_there[t] } else { self.tag_there[t] };
                let linked = self.links.iter().any(|((g, _), b)| is_num(*g) == *num && b.contains_key(&t));
                if !there || (linked && in_tx) {
                    return Ok(false);
                }
                let r = if *num { c.delete(&self.nums[t]) } else { c.delete(&self.tags[t]) };
                if linked {
                    ensure!(r.is_err(), "linked-deleted", "{what}: a linked object was deleted");
                } else {
                    ensure!(r.is_ok(), "delete-failed", "{what}: {r:?}");
                    if *num {
                        self.num_there[t] = false
                    } else {
                        self.tag_there[t] = false
                    }
                }
                Ok(true)
            }
            Op::DeleteOwner { s } => {
                let s = slot!(s);
                let kind = self.slots[s].kind();
                let Some(key) = self.slots[s].key() else { return Ok(false) };
                if !self.owners[kind].contains(&key) {
                    return Ok(false);
                }
                let linked = (0..self.slots[s].nf()).any(|f| !self.bag(&(gid(kind, f), key.clone())).is_empty());
                if linked && in_tx {
                    return Ok(false);
                }
                let r = match &self.slots[s].h {
                    H::O(o) => c.delete(o),
                    H::S(o) => c.delete(o),
                    H::A(o) => c.delete(o),
                };
                if linked {
                    ensure!(r.is_err(), "linked-deleted", "{what}: an owner with links was deleted");
                } else {
                    ensure!(r.is_ok(), "delete-failed", "{what}: {r:?}");
                    self.owners[kind].retain(|k| *k != key);
                }
                Ok(true)
            }
        }
    }
}
type R0 = Result<bool, Fail>;
fn do_save(c: &C, h: &mut H) -> butane_core::Result<()> {
    match h {
        H::O(o) => c.save(o),
        H::S(o) => c.save(o),
        H::A(o) => c.save(o),
    }
}
fn add<T: Target>(w: &World, m: &mut Many<T>, t: usize) -> butane_core::Result<()> {
    m.add(&T::at(w, t))
}
fn remove<T: Target>(w: &World, m: &mut Many<T>, t: usize) {
    m.remove(&T::at(w, t))
}
fn set<T: Target>(w: &World, c: &C, m: &mut Many<T>, ts: &[usize]) -> butane_core::Result<()> {
    c.many_set(m, ts.iter().map(|t| T::at(w, *t)).collect())
}

fn run(env: &mut Env, q: &Case) -> R {
    let mut db = env.fresh(q.fl, &crate::schema::schema(&["Tag", "Num", "Owner", "StrOwner", "AutoOwner"]));
    let mut w = World { tag_there: [true; NT], num_there: [true; NT], ..World::default() };
    {
        let c = db.c();
        for i in 0..NT {
            let mut t = Tag { tag: TAGS[i].into(), w: None };
            let mut n = Num { id: AutoPk::uninitialized(), v: i as i32 };
            c.save(&mut t).and_then(|()| c.save(&mut n)).map_err(|e| Fail::new("setup", e.to_string()))?;
            w.tags.push(t);
            w.nums.push(n);
        }
    }
    let run = |c: &C, w: &mut World| -> Result<(), Fail> {
        for (i, op) in q.ops.iter().enumerate() {
            let what = format!("{} step {i} {op:?}", q.fl.name());
            if w.step(c, op, q.in_tx, &what)? {
                w.check_tables(c, &what)?;
            }
        }
        Ok(())
    };
    if q.in_tx {
        match db.tx(|c| (run(c, &mut w), TxEnd::Commit)) {
            Ok((r, e)) => {
                r?;
                ensure!(e.is_ok(), "commit-failed", "{}: {e:?}", q.fl.name());
            }
            Err(e) => fail!("begin-failed", "{}: {e}", q.fl.name()),
        }
        w.check_tables(&db.c(), "after commit")?;
    } else {
        run(&db.c(), &mut w)?;
    }
    let mut o = Obs::new();
    o.label(q.fl.name());
    o.nontrivial = w.saves >= 2 && w.removed >= 1;
    if w.retried > 0 {
        o.label("refused-then-retried");
    }
    if w.shared {
        o.label("object-linked-by-several-owners");
    }
    Ok(o)
}

pub fn c07(ctx: &Ctx) {
    ctx.explore(
        "links",
        "histories of up to 35 operations on up to 6 handles of three owner types (five many-to-many fields, shared targets), every link table compared after each step; non-trivial: at least two saves of changed links and one removal that removed something",
        ctx.cases(5000, 150_000),
        || {
            (any_fl(), proptest::collection::vec(s_op(), 1..36), proptest::bool::weighted(0.25))
                .prop_map(|(fl, ops, in_tx)| Case { fl, ops, in_tx })
                .boxed()
        },
        Env::new,
        run,
    );
    ctx.explore(
        "large",
        "an owner linked to 20-250 of 260 string-keyed targets: loads before and after saving, ordered loads, removal of many links at once, replacement; non-trivial: more than 127 links added or removed at once",
        ctx.cases(100, 1500),
        || {
            (any_fl(), 20usize..250, 0usize..250, 1usize..300, any::<[bool; 4]>())
                .prop_map(|(fl, n, rm, stride, f)| LCase { fl, n, rm, stride, f })
                .boxed()
        },
        Env::new,
        large,
    );
}
const LN: usize = 260;
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LCase {
    fl: Fl,
    n: usize,
    rm: usize,
    stride: usize,
    f: [bool; 4],
}
fn large(env: &mut Env, q: &LCase) -> R {
    let mut db = env.fresh(q.fl, &crate::schema::schema(&["Tag", "Num", "Owner", "StrOwner", "AutoOwner"]));
    let tags: Vec<Tag> = (0..LN).map(|i| Tag { tag: format!("t{i:03}"), w: Some(i as i32) }).collect();
    // Tags of one owner, which another owner must not see.
    let mut other = Owner { id: 1, name: "other".into(), first: Many::new(), second: Many::new(), nums: Many::new() };
    let setup = db.tx(|c| {
        let r = (|| {
            for t in &tags {
                c.save(&mut t.clone())?;
            }
            other.first.add(&tags[0])?;
            c.save(&mut other)
        })();
        (r, TxEnd::Commit)
    });
    if !matches!(&setup, Ok((Ok(()), Ok(())))) {
        crate::infra!("{}: {setup:?}", q.fl.name());
    }
    let c = db.c();
    let what = q.fl.name();
    let err = |step: &str, e: Error| Fail::new(format!("large-{step}"), format!("{what}: {step} ({} links, {} removed): {e}", q.n, q.rm));
    let same = |step: &str, mut got: Vec<Tag>, mut want: Vec<usize>, ordered: Option<bool>| -> Result<(), Fail> {
        if ordered.is_none() {
            got.sort_by(|a, b| a.tag.cmp(&b.tag));
        }
        want.sort();
        if ordered == Some(true) {
            want.reverse();
        }
        let got: Vec<String> = got.into_iter().map(|t| t.tag).collect();
        let want: Vec<String> = want.into_iter().map(|i| tags[i].tag.clone()).collect();
        ensure!(got == want, format!("large-wrong-{step}"), "{what}: {step} gave {got:?}, expected {want:?}");
        Ok(())
    };
    // Strides have no factor in common with LN, so these are distinct.
    let stride = [7, 11, 17, 19, 23, 29][q.stride % 6];
    let mut ids: Vec<usize> = (0..q.n).map(|i| i * stride % LN).collect();
    let mut o = Owner { id: 2, name: "o".into(), first: Many::new(), second: Many::new(), nums: Many::new() };
    c.save(&mut o).map_err(|e| err("first-save", e))?;
    for i in &ids {
        o.first.add(&tags[*i]).map_err(|e| err("add", e))?;
    }
    if q.f[0] {
        let got = c.many_load(&o.first).map_err(|e| err("load-unsaved", e))?;
        same("load-unsaved", got, ids.clone(), None)?;
    }
    if q.f[1] {
        let got = c.many_load_ordered(&o.first, order(q.f[2])).map_err(|e| err("order-unsaved", e))?;
        same("order-unsaved", got, ids.clone(), Some(q.f[2]))?;
    }
    c.save(&mut o).map_err(|e| err("save", e))?;
    let mut o: Owner = c.get(2i64).map_err(|e| err("get", e))?;
    let got = c.many_load(&o.first).map_err(|e| err("load", e))?;
    same("load", got, ids.clone(), None)?;
    let got = c.many_load_ordered(&o.first, order(q.f[2])).map_err(|e| err("order-loaded", e))?;
    same("order-loaded", got, ids.clone(), Some(q.f[2]))?;
    let rm: Vec<usize> = ids.drain(..q.rm.min(ids.len())).collect();
    for i in &rm {
        o.first.remove(&tags[*i]);
    }
    if q.f[3] {
        let got = c.many_load(&o.first).map_err(|e| err("load-removed", e))?;
        same("load-removed", got, ids.clone(), None)?;
    }
    c.save(&mut o).map_err(|e| err("save-removed", e))?;
    let o2: Owner = c.get(2i64).map_err(|e| err("get", e))?;
    let got = c.many_load_ordered(&o2.first, order(!q.f[2])).map_err(|e| err("order", e))?;
    same("order", got, ids.clone(), Some(!q.f[2]))?;
    let to: Vec<Tag> = rm.iter().map(|i| tags[*i].clone()).collect();
    c.many_set(&mut o.first, to).map_err(|e| err("set", e))?;
    let o2: Owner = c.get(2i64).map_err(|e| err("get", e))?;
    let got = c.many_load(&o2.first).map_err(|e| err("load-set", e))?;
    same("load-set", got, rm.clone(), None)?;
    let oth: Owner = c.get(1i64).map_err(|e| err("get", e))?;
    let got = c.many_load(&oth.first).map_err(|e| err("load-other", e))?;
    same("load-other", got, vec![0], None)?;
    let mut obs = Obs::new();
    obs.label(what);
    obs.nontrivial_if(q.n > 127 || rm.len() > 127);
    Ok(obs)
}
fn order(desc: bool) -> OrderDirection {
    if desc { OrderDirection::Descending } else { OrderDirection::Ascending }
}
