//! C23: the command-line tool. Histories of commands, run as the real program, between edits of the
//! models, with a model of the chain of migrations, the database and its rows.
use crate::c14::check_schema;
use crate::c20::{differ, embedded, view};
use crate::db::*;
use crate::engine::*;
use crate::mig::*;
use crate::{ensure, fail, infra};
use butane_core::db::Column;
use butane_core::migrations::*;
use butane_core::{SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

const NAMES: [&str; 14] =
    ["init", "add x", "it's", "é", "", "a\"#b", "current", "a/b", "/", "..", "zz", "x.table", "\\", "LONG"];
const BACKENDS: [&str; 4] = ["sqlite", "pg", "turso", "oracle"];

/// The migration a command is to name.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum Sel {
    Chain(u8),
    /// Of the ones not applied, or applied before the last one.
    Ahead(u8),
    Behind(u8),
    Detached(u8),
    Unknown,
    Current,
    Empty,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    /// Tables that are no longer in the models are deleted by `delete table`,
    Delete,
    /// by `clean` before the build.
    Clean,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Build(Vec<Edit>, How, bool),
    Make(u8),
    Migrate(Option<Sel>),
    Unmigrate(Option<Sel>),
    Describe(Sel),
    List,
    Detach,
    Collapse(u8),
    Embed,
    Add(u8),
    Remove(u8),
    Backends,
    Regenerate,
    ClearData,
    Clean,
    DeleteUnknown,
    Init(u8),
    Fill(u8, u8),
    /// The next command cannot write to the database.
    Fault(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    pg: bool,
    init: bool,
    /// Names the directory by `-p`, its `.butane` directory, or not at all.
    path: u8,
    first: Vec<Edit>,
    ops: Vec<Op>,
}
fn s_sel() -> BoxedStrategy<Sel> {
    prop_oneof![
        4 => any::<u8>().prop_map(Sel::Chain), 3 => any::<u8>().prop_map(Sel::Ahead),
        3 => any::<u8>().prop_map(Sel::Behind), 1 => any::<u8>().prop_map(Sel::Detached),
        1 => Just(Sel::Unknown), 1 => Just(Sel::Current), 1 => Just(Sel::Empty),
    ]
    .boxed()
}
fn s_op() -> BoxedStrategy<Vec<Op>> {
    let edits = || proptest::collection::vec(s_edit(), 2..6);
    let how = || prop_oneof![Just(How::Delete), Just(How::Clean)];
    let name = || prop_oneof![6 => 0u8..7, 1 => 0..NAMES.len() as u8];
    let one = |s: BoxedStrategy<Op>| s.prop_map(|o| vec![o]).boxed();
    prop_oneof![
        // a change and its migration
        10 => (edits(), how(), any::<bool>(), name(), any::<bool>()).prop_map(|(e, h, r, n, m)| {
            let mut v = vec![Op::Build(e, h, r), Op::Make(n)];
            if m {
                v.push(Op::Migrate(None));
            }
            v
        }),
        3 => any::<u8>().prop_map(|n| vec![Op::Unmigrate(Some(Sel::Behind(n)))]),
        2 => one((proptest::collection::vec(s_edit(), 0..3), how(), any::<bool>())
            .prop_map(|(e, h, r)| Op::Build(e, h, r)).boxed()),
        1 => one(name().prop_map(Op::Make).boxed()),
        6 => one(proptest::option::weighted(0.5, s_sel()).prop_map(Op::Migrate).boxed()),
        5 => one(proptest::option::weighted(0.6, s_sel()).prop_map(Op::Unmigrate).boxed()),
        2 => one(s_sel().prop_map(Op::Describe).boxed()),
        1 => one(Just(Op::List).boxed()),
        3 => one(Just(Op::Detach).boxed()),
        2 => one(name().prop_map(Op::Collapse).boxed()),
        2 => one(Just(Op::Embed).boxed()),
        3 => one((0u8..4).prop_map(Op::Add).boxed()),
        3 => one((0u8..12).prop_map(Op::Remove).boxed()),
        1 => one(Just(Op::Backends).boxed()),
        3 => one(Just(Op::Regenerate).boxed()),
        1 => one(Just(Op::ClearData).boxed()),
        2 => any::<u8>().prop_map(|n| vec![Op::Fill(3, n), Op::ClearData]),
        2 => (proptest::collection::vec((edits(), how(), any::<bool>()), 2..4), any::<u8>(), any::<bool>()).prop_map(
            |(v, n, up)| {
                let mut out: Vec<Op> =
                    v.into_iter().flat_map(|(e, h, r)| [Op::Build(e, h, r), Op::Make(0)]).collect();
                out.push(Op::Migrate(if up { Some(Sel::Ahead(n)) } else { None }));
                out.push(Op::Unmigrate(Some(Sel::Behind(n))));
                out
            }
        ),
        1 => one(Just(Op::Clean).boxed()),
        1 => one(Just(Op::DeleteUnknown).boxed()),
        1 => one((0u8..5).prop_map(Op::Init).boxed()),
        5 => one((1u8..4, any::<u8>()).prop_map(|(n, s)| Op::Fill(n, s)).boxed()),
        1 => any::<u8>().prop_map(|n| vec![Op::Fill(2, n), Op::Fault(n), Op::ClearData]),
        1 => any::<u8>().prop_map(|n| vec![Op::Fault(n), Op::Migrate(None)]),
        1 => any::<u8>().prop_map(|n| vec![Op::Fault(n), Op::Unmigrate(None)]),
        1 => any::<u8>().prop_map(|n| vec![Op::Fault(n), Op::Collapse(0)]),
    ]
    .boxed()
}
fn s_case(max: usize) -> BoxedStrategy<Case> {
    let first = (proptest::collection::vec(s_add_table(), 1..5), proptest::collection::vec(s_edit(), 0..4))
        .prop_map(|(mut a, b)| {
            a.extend(b);
            a
        });
    let first = prop_oneof![9 => first, 1 => Just(vec![])];
    (
        proptest::bool::weighted(0.35),
        proptest::bool::weighted(0.95),
        0u8..3,
        first,
        proptest::collection::vec(s_op(), 5..max),
    )
        .prop_map(|(pg, init, path, first, ops)| Case { pg, init, path, first, ops: ops.concat() })
        .boxed()
}

#[derive(Clone)]
struct Mig {
    name: String,
    desc: crate::c17::Desc,
    to: Flat,
}
struct World<'e> {
    env: &'e Env,
    fl: Fl,
    cs: String,
    root: PathBuf,
    path: u8,
    db: Option<Db>,
    // what is expected
    spec: bool,
    st: State,
    /// What the last build left, unless it has been cleaned away.
    current: Option<State>,
    chain: Vec<Mig>,
    detached: Vec<Mig>,
    backends: Vec<String>,
    applied: usize,
    embedded: bool,
    rows: Rows,
}
struct Out {
    code: i32,
    stdout: String,
    stderr: String,
}
type Tree = BTreeMap<PathBuf, Vec<u8>>;

fn tree(root: &Path, dir: &Path, out: &mut Tree) {
    let Ok(rd) = std::fs::read_dir(dir) else { return };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() {
            tree(root, &p, out);
        } else if p.file_name().is_some_and(|n| n != "lock" && n != ".gitignore") && !p.starts_with(root.join("db")) {
            out.insert(p.strip_prefix(root).unwrap().to_path_buf(), std::fs::read(&p).unwrap_or_default());
        }
    }
}

impl World<'_> {
    fn base(&self) -> PathBuf {
        self.root.join(".butane")
    }
    fn fs(&self) -> FsMigrations {
        from_root(self.base().join("migrations"))
    }
    fn built(&self) -> bool {
        self.base().join("migrations").is_dir()
    }
    fn cli(&self, args: &[&str]) -> Out {
        let exe = std::env::current_exe().unwrap().with_file_name("butanecli");
        let mut c = std::process::Command::new(exe);
        c.current_dir(&self.root).stdin(std::process::Stdio::null());
        match self.path {
            0 => {
                c.arg("-p").arg(&self.root);
            }
            1 => {
                c.arg("-p").arg(self.base());
            }
            _ => {}
        }
        match c.args(args).output() {
            Ok(o) => Out {
                code: o.status.code().unwrap_or(-1),
                stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
                stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
            },
            Err(e) => infra!("the command-line tool cannot be run: {e}"),
        }
    }
    fn db(&mut self) -> &mut Db {
        if self.db.is_none() {
            let cs = self.db_str();
            match self.env.connect(self.fl, &cs) {
                Ok(d) => self.db = Some(d),
                Err(e) => infra!("connect: {e}"),
            }
        }
        self.db.as_mut().unwrap()
    }
    fn db_str(&self) -> String {
        if self.fl.is_pg() { self.cs.clone() } else { self.root.join("db/t.db").to_string_lossy().into_owned() }
    }
    fn tree(&self) -> Tree {
        let mut t = Tree::new();
        tree(&self.root, &self.root, &mut t);
        t
    }
    fn state(&self, k: usize) -> Flat {
        if k == 0 { Flat::default() } else { self.chain[k - 1].to.clone() }
    }
    fn pick(&self, s: Sel) -> String {
        let n = self.chain.len();
        let at = |i: usize| self.chain[i].name.clone();
        match s {
            Sel::Ahead(k) if self.applied < n => at(self.applied + k as usize % (n - self.applied)),
            Sel::Behind(k) if self.applied > 0 => at(k as usize % self.applied),
            Sel::Chain(k) | Sel::Ahead(k) | Sel::Behind(k) if n > 0 => at(k as usize % n),
            Sel::Detached(k) if !self.detached.is_empty() => {
                self.detached[k as usize % self.detached.len()].name.clone()
            }
            Sel::Current => "current".into(),
            Sel::Empty => String::new(),
            _ => "nope".into(),
        }
    }
    fn at(&self, name: &str) -> Option<usize> {
        self.chain.iter().position(|m| m.name == name)
    }
    /// Everything is as expected.
    fn check(&mut self, what: &str) -> Result<(), Fail> {
        if self.built() {
            let mut fs = self.fs();
            let v = view(&fs, what)?;
            let all = fs.all_migrations().unwrap();
            let (got, want): (Vec<String>, Vec<&str>) = (
                all.iter().map(|m| m.name().to_string()).collect(),
                self.chain.iter().map(|m| m.name.as_str()).collect(),
            );
            ensure!(got == want, "chain", "{what}: the migrations are {got:?}, expected {want:?}");
            for (m, w) in all.iter().zip(&self.chain) {
                let d = crate::c17::describe(&m.db().unwrap());
                ensure!(d == w.desc, "content", "{what}: {} describes {d:?}, expected {:?}", w.name, w.desc);
                let b = m.sql_backends().unwrap_or_default();
                ensure!(b == self.backends, "backends", "{what}: {} is for {b:?}, expected {:?}", w.name, self.backends);
                for b in &BACKENDS[..3] {
                    let has = (m.up_sql(b).unwrap().is_some(), m.down_sql(b).unwrap().is_some());
                    let want = self.backends.iter().any(|x| x == b);
                    ensure!(has == (want, want), "statements", "{what}: {} has statements for {b}: {has:?}", w.name);
                }
            }
            let det: BTreeSet<String> = match fs.detached_migration_paths() {
                Ok(d) => d.iter().map(|p| Path::new(p).file_name().unwrap().to_string_lossy().into_owned()).collect(),
                Err(e) => fail!("detached", "{what}: {e}"),
            };
            let want: BTreeSet<String> = self.detached.iter().map(|m| m.name.clone()).collect();
            ensure!(det == want, "detached", "{what}: detached are {det:?}, expected {want:?}");
            if let Some(c) = &self.current {
                match fs.current().db() {
                    Ok(d) => {
                        let (d, w) = (crate::c17::describe(&d), crate::c17::describe(&c.adb()));
                        ensure!(d == w, "current", "{what}: the current models are {d:?}, expected {w:?}");
                    }
                    Err(e) => fail!("current", "{what}: {e}"),
                }
            }
            if self.embedded {
                let (_, e) = embedded(&self.root)?;
                if let Some(d) = differ(&v, &view(&e, what)?) {
                    fail!("embedding", "{what}: on disk and embedded differ: {d}");
                }
            }
        }
        self.check_db(what)
    }
    fn check_db(&mut self, what: &str) -> Result<(), Fail> {
        let want: BTreeSet<String> = self.chain[..self.applied].iter().map(|m| m.name.clone()).collect();
        let flat = self.state(self.applied);
        let (env, rows) = (self.env, self.rows.clone());
        let db = self.db();
        let got = recorded(db, what)?;
        ensure!(got == want, "record", "{what}: recorded as applied are {got:?}, expected {want:?}");
        check_schema(env, db, &flat, &[], what)?;
        rows.check(&flat, &db.c(), what)
    }
    /// The next migration or, going down, the last one, may be refused.
    fn reasons(&self, down: bool) -> Vec<&'static str> {
        let k = self.applied;
        let (from, to) =
            if down { (self.state(k), self.state(k - 1)) } else { (self.state(k), self.state(k + 1)) };
        let mut r = may_refuse(self.fl, &from, &to, &self.rows);
        if !self.backends.iter().any(|b| b == self.fl.backend()) {
            r.push("no statements for the backend");
        }
        r
    }
    fn step(&mut self, down: bool) {
        let k = self.applied;
        let to = if down { k - 1 } else { k + 1 };
        self.rows = self.rows.migrated(&self.state(k), &self.state(to));
        self.applied = to;
    }
    /// Goes to the migration as a command should have done, or as far as it may.
    fn go(&mut self, target: usize, out: &Out, fault: bool, what: &str, o: &mut Obs) -> Result<(), Fail> {
        let got = recorded(self.db(), what)?.len();
        let down = target < self.applied;
        if out.code == 0 {
            ensure!(
                !(fault && target != self.applied),
                "fault-ignored",
                "{what}: succeeds although nothing can be recorded"
            );
            while self.applied != target {
                if self.reasons(down).contains(&"no statements for the backend") {
                    fail!("no-statements", "{what}: succeeds without statements for the backend");
                }
                self.step(down);
            }
            return Ok(());
        }
        ensure!(out.code == 1, "crash", "{what}: exit code {}: {}", out.code, out.stderr);
        // as far as it got
        while self.applied != got && self.applied != target && (got < self.applied) == down {
            ensure!(!fault, "fault-ignored", "{what}: carries on although nothing can be recorded");
            self.step(down);
        }
        ensure!(self.applied != target, "refused", "{what}: done, and reports {}", out.stderr);
        let r = self.reasons(down);
        if r.is_empty() && !fault {
            fail!("refused", "{what}: {} (at migration {} of {:?})", out.stderr, self.applied, self.names());
        }
        o.label("migration refused");
        Ok(())
    }
    fn names(&self) -> Vec<&str> {
        self.chain.iter().map(|m| m.name.as_str()).collect()
    }
}
fn recorded(db: &Db, what: &str) -> Result<BTreeSet<String>, Fail> {
    let c = db.c();
    match c.has_table("butane_migrations") {
        Ok(false) => return Ok(BTreeSet::new()),
        Ok(true) => {}
        Err(e) => fail!("has-table", "{what}: {e}"),
    }
    match c.query("butane_migrations", &[Column::new("name", SqlType::Text)], None, None, None, None) {
        Ok(r) => {
            let names = r.iter().map(|r| match &r[0] {
                SqlVal::Text(t) => t.clone(),
                v => format!("{v:?}"),
            });
            Ok(names.collect())
        }
        Err(e) => fail!("record-unreadable", "{what}: {e}"),
    }
}
/// What `describe` should print, but for details.
fn described(from: &Flat, to: &Flat) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for (t, old) in &from.0 {
        match to.0.get(t) {
            None => {
                out.insert(format!("Remove table {t}"));
            }
            Some(new) => {
                for c in old {
                    match new.iter().find(|n| n.name == c.name) {
                        None => {
                            out.insert(format!("Remove column {t}.{}", c.name));
                        }
                        Some(n) if n != c => {
                            out.insert(format!("Change column {t}.{}", c.name));
                        }
                        _ => {}
                    }
                }
                for n in new.iter().filter(|n| !old.iter().any(|c| c.name == n.name)) {
                    out.insert(format!("New column {t}.{}", n.name));
                }
            }
        }
    }
    for t in to.0.keys().filter(|t| !from.0.contains_key(*t)) {
        out.insert(format!("New table {t}"));
    }
    if out.is_empty() {
        out.insert("No changes".into());
    }
    out
}
fn headings(s: &str) -> BTreeSet<String> {
    s.lines()
        .filter(|l| !l.starts_with(' '))
        .map(|l| if l.starts_with("New column") { l.split(": ").next().unwrap() } else { l }.to_string())
        .collect()
}
/// The table's name as the database knows it, quoted.
fn quoted(w: &World, t: &str) -> String {
    if !w.fl.is_pg() {
        return format!("\"{t}\"");
    }
    let sql = "SELECT quote_ident(relname) FROM pg_class WHERE relkind = 'r' AND relnamespace = 'public'::regnamespace AND lower(relname) = lower($1)";
    match w.env.rt.block_on(w.env.admin().query_one(sql, &[&t])) {
        Ok(r) => r.get(0),
        Err(e) => infra!("table {t}: {e:?}"),
    }
}

fn run(env: &mut Env, q: &Case) -> R {
    let mut o = Obs::new();
    let fl = if q.pg { Fl::PgS } else { Fl::SqS };
    o.label(fl.backend());
    if q.pg {
        env.pg_reset();
    }
    let root = fresh_path("cli");
    for d in ["", "src", "db", ".butane"] {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    let _own = Scratch(root.clone());
    let mut w = World {
        cs: if q.pg { env.pg_conn_str() } else { String::new() },
        env,
        fl,
        root,
        path: q.path,
        db: None,
        spec: false,
        st: State::default(),
        current: None,
        chain: vec![],
        detached: vec![],
        backends: vec![],
        applied: 0,
        embedded: false,
        rows: Rows::default(),
    };
    let mut ops = Vec::new();
    if q.init {
        ops.push(Op::Init(0));
    }
    if !q.first.is_empty() {
        ops.push(Op::Build(q.first.clone(), How::Clean, false));
        ops.push(Op::Make(0));
    }
    ops.extend(q.ops.clone());
    let (mut done, mut kinds) = (0, std::collections::HashSet::new());
    let mut fault = None;
    for (i, op) in ops.iter().enumerate() {
        let what = format!("{} after operation {i} ({op:?})", fl.backend());
        let effects = one(&mut w, op, fault.take(), &mut fault, &what, &mut o)?;
        if effects {
            done += 1;
            kinds.insert(std::mem::discriminant(op));
        }
        w.check(&what)?;
    }
    anew(w, &mut o)?;
    o.nontrivial_if(done >= 4 && kinds.len() >= 3);
    Ok(o)
}
/// Carries out one operation; true if it changed something.
fn one(w: &mut World, op: &Op, fault: Option<u8>, next: &mut Option<u8>, what: &str, o: &mut Obs) -> Result<bool, Fail> {
    let before = w.tree();
    // the directory is as it was and an error is reported
    let refused = |w: &World, out: &Out, why: &str, o: &mut Obs| -> Result<bool, Fail> {
        ensure!(out.code != 0, "not-refused", "{what}: succeeds although {why}: {}{}", out.stdout, out.stderr);
        ensure!(out.code == 1, "crash", "{what}: exit code {} although {why}: {}", out.code, out.stderr);
        ensure!(!out.stderr.trim().is_empty(), "silent", "{what}: fails without a message");
        let after = w.tree();
        ensure!(before == after, "refused-but", "{what}: is refused ({}), but changes {}", out.stderr, delta(&before, &after));
        o.label("refused");
        Ok(false)
    };
    let same = |w: &World, out: &Out| -> Result<bool, Fail> {
        ensure!(out.code == 0, "failed", "{what}: exit code {}: {}", out.code, out.stderr);
        let after = w.tree();
        ensure!(before == after, "changed", "{what}: changes {}", delta(&before, &after));
        Ok(false)
    };
    let ok = |out: &Out| -> Result<bool, Fail> {
        ensure!(out.code == 0, "failed", "{what}: exit code {}: {}{}", out.code, out.stdout, out.stderr);
        Ok(true)
    };
    let long = "n".repeat(240);
    let name_of = |n: u8| match NAMES[n as usize % NAMES.len()] {
        "LONG" => long.clone(),
        s => s.to_string(),
    };
    let bad_name = |n: &str| n.contains('/') || n.len() > 230;
    let made = |w: &World, old: &[String], out: &Out, name: &str| -> Result<String, Fail> {
        let all = match w.fs().all_migrations() {
            Ok(a) => a,
            Err(e) => fail!("chain", "{what}: {e}"),
        };
        let last = all.last().map(|m| m.name().to_string()).unwrap_or_default();
        ensure!(
            !old.contains(&last) && last.ends_with(&format!("_{name}")) && out.stdout.contains(&last),
            "name",
            "{what}: the last migration is {last:?}; printed: {}",
            out.stdout
        );
        Ok(last)
    };
    let known: Vec<String> = w.chain.iter().chain(&w.detached).map(|m| m.name.clone()).collect();
    let built = w.built();
    let recordable = fault.is_some() && w.db().c().has_table("butane_migrations").unwrap_or(false);
    match op {
        Op::Build(edits, how, reverse) => {
            let mut n = w.st.clone();
            for e in edits {
                n.edit(e);
            }
            if *how == How::Clean && w.current.is_some() {
                let out = w.cli(&["clean"]);
                ok(&out)?;
            }
            let mut fs = w.fs();
            let cur = fs.current();
            for t in n.tables_unresolved(*reverse) {
                cur.add_modified_table(&t).unwrap();
            }
            // once there is a model
            if n.0.is_empty() {
                let _ = cur.db();
            }
            if *how == How::Delete {
                let names = n.flat();
                let (stale, _): (Vec<_>, Vec<_>) =
                    w.current.iter().flat_map(|s| s.flat().0.into_keys()).partition(|t| !names.0.contains_key(t));
                for t in stale {
                    let out = w.cli(&["delete", "table", t]);
                    ok(&out)?;
                    o.label("delete table");
                }
            }
            w.st = n.clone();
            w.current = Some(n);
            Ok(true)
        }
        Op::Make(n) => {
            let n = name_of(*n);
            let out = w.cli(&["makemigration", &n]);
            if !built {
                return refused(w, &out, "nothing has been built", o);
            }
            let st = w.current.clone().unwrap_or_default();
            let (to, from) = (st.flat(), w.state(w.chain.len()));
            if bad_name(&n) && !(to.same(&from) && out.code == 0) {
                return refused(w, &out, "the name is none of a directory", o);
            }
            if w.chain.is_empty() && !w.spec {
                return refused(w, &out, "there is no backend", o);
            }
            if to.same(&from) {
                o.label("no changes");
                return same(w, &out);
            }
            ok(&out)?;
            let name = made(w, &known, &out, &n)?;
            if w.chain.is_empty() {
                w.backends = vec![w.fl.backend().to_string()];
            }
            w.chain.push(Mig { name, desc: crate::c17::describe(&st.adb()), to });
            Ok(true)
        }
        Op::Migrate(s) => {
            let name = s.map(|s| w.pick(s));
            let mut args = vec!["migrate"];
            args.extend(name.as_deref());
            let at = name.as_ref().map(|n| w.at(n));
            set_fault(w, recordable, "butane_migrations");
            let out = w.cli(&args);
            clear_fault(w, recordable, "butane_migrations");
            if !w.spec || !built {
                return refused(w, &out, "there is no connection or nothing has been built", o);
            }
            let target = match at {
                None => w.chain.len(),
                Some(Some(k)) if k < w.applied => {
                    // nothing to be done
                    o.label("migrate to an applied one");
                    ensure!(out.code == 0 || out.code == 1, "crash", "{what}: exit code {}: {}", out.code, out.stderr);
                    return Ok(false);
                }
                Some(Some(k)) => k + 1,
                Some(None) => return refused(w, &out, "there is no such migration to apply", o),
            };
            let start = w.applied;
            w.go(target, &out, recordable, what, o)?;
            if target < w.chain.len() && target != start {
                o.label("migrate to a target");
            }
            unchanged_tree(w, &before, what)?;
            Ok(start != w.applied)
        }
        Op::Unmigrate(s) => {
            let name = s.map(|s| w.pick(s));
            let mut args = vec![if w.path == 1 { "rollback" } else { "unmigrate" }];
            args.extend(name.as_deref());
            let at = name.as_ref().map(|n| w.at(n));
            set_fault(w, recordable, "butane_migrations");
            let out = w.cli(&args);
            clear_fault(w, recordable, "butane_migrations");
            if !w.spec || !built || w.applied == 0 {
                return refused(w, &out, "there is nothing to roll back", o);
            }
            let target = match at {
                None => w.applied - 1,
                Some(Some(k)) if k + 1 < w.applied => k + 1,
                Some(_) => return refused(w, &out, "there is no such migration to roll back to", o),
            };
            let start = w.applied;
            w.go(target, &out, recordable, what, o)?;
            if target + 1 < start {
                o.label("roll back to a target");
            }
            unchanged_tree(w, &before, what)?;
            Ok(start != w.applied)
        }
        Op::Describe(s) => {
            let name = w.pick(*s);
            let out = w.cli(&[if w.path == 1 { "describe-migration" } else { "describe-migration" }, &name]);
            if !built {
                return refused(w, &out, "nothing has been built", o);
            }
            let (from, to) = if name == "current" {
                (w.state(w.chain.len()), w.current.clone().unwrap_or_default().flat())
            } else if let Some(k) = w.at(&name) {
                (w.state(k), w.state(k + 1))
            } else if w.detached.iter().any(|m| m.name == name) {
                o.label("describe detached");
                return same(w, &out);
            } else {
                return refused(w, &out, "there is no such migration", o);
            };
            same(w, &out)?;
            let (got, want) = (headings(&out.stdout), described(&from, &to));
            ensure!(got == want, "description", "{what}: prints {got:?}, expected {want:?}");
            Ok(false)
        }
        Op::List => {
            let out = w.cli(&["list"]);
            if !w.spec || !built {
                return refused(w, &out, "there is no connection or nothing has been built", o);
            }
            same(w, &out)?;
            let want: String = w
                .chain
                .iter()
                .enumerate()
                .map(|(i, m)| format!("Migration '{}' ({}applied)\n", m.name, if i < w.applied { "" } else { "not " }))
                .collect();
            ensure!(out.stdout == want, "list", "{what}: prints {:?}, expected {want:?}", out.stdout);
            Ok(false)
        }
        Op::Detach => {
            let out = w.cli(&["detach-migration"]);
            if !built || w.chain.len() < 2 || (w.spec && w.applied == w.chain.len()) {
                return refused(w, &out, "there is no migration to detach", o);
            }
            ok(&out)?;
            let m = w.chain.pop().unwrap();
            w.detached.push(m);
            o.label("detach");
            Ok(true)
        }
        Op::Collapse(n) => {
            let n = name_of(*n);
            set_fault(w, recordable, "butane_migrations");
            let out = w.cli(&["collapse", &n]);
            clear_fault(w, recordable, "butane_migrations");
            if !built || !w.spec || w.chain.len() < 2 || w.applied == 0 {
                return refused(w, &out, "there is nothing to collapse", o);
            }
            if bad_name(&n) {
                return refused(w, &out, "the name is none of a directory", o);
            }
            if recordable {
                return refused(w, &out, "the database cannot be changed", o);
            }
            let m = w.chain[w.applied - 1].clone();
            if m.to.0.is_empty() {
                return refused(w, &out, "there are no tables to create", o);
            }
            ok(&out)?;
            let name = made(w, &known, &out, &n)?;
            w.chain = vec![Mig { name, ..m }];
            w.detached.clear();
            w.applied = 1;
            o.label("collapse");
            Ok(true)
        }
        Op::Embed => {
            let out = w.cli(&["embed"]);
            if !built {
                return refused(w, &out, "nothing has been built", o);
            }
            ok(&out)?;
            w.embedded = true;
            o.label("embedded");
            Ok(true)
        }
        Op::Add(b) => {
            let b = BACKENDS[*b as usize % 4];
            let out = w.cli(&["backend", "add", b]);
            if !built || w.chain.is_empty() || b == "oracle" || w.backends.iter().any(|x| x == b) {
                return refused(w, &out, "the backend cannot be added", o);
            }
            ok(&out)?;
            w.backends.push(b.into());
            o.label("backend added");
            Ok(true)
        }
        Op::Remove(b) => {
            let b = match *b as usize {
                i if i >= 4 && !w.backends.is_empty() => w.backends[i % w.backends.len()].clone(),
                i => BACKENDS[i % 4].to_string(),
            };
            let b = b.as_str();
            let out = w.cli(&["backend", "remove", b]);
            if !built || w.chain.is_empty() || w.backends.len() == 1 || !w.backends.iter().any(|x| x == b) {
                return refused(w, &out, "the backend cannot be removed", o);
            }
            ok(&out)?;
            w.backends.retain(|x| x != b);
            o.label("backend removed");
            Ok(true)
        }
        Op::Backends => {
            let out = w.cli(&["backend", "list"]);
            if !built || w.chain.is_empty() {
                return refused(w, &out, "there are no migrations", o);
            }
            same(w, &out)?;
            let got: Vec<&str> = out.stdout.lines().collect();
            ensure!(got == w.backends, "backend-list", "{what}: prints {got:?}, expected {:?}", w.backends);
            Ok(false)
        }
        Op::Regenerate => {
            let out = w.cli(&["regenerate"]);
            if !built || w.chain.is_empty() {
                return refused(w, &out, "there are no migrations", o);
            }
            ok(&out)?;
            o.label("regenerate");
            Ok(true)
        }
        Op::ClearData => {
            let flat = w.state(w.applied);
            // a table whose rows cannot be deleted
            let full: Vec<&str> = w.rows.0.iter().filter(|r| !r.1.is_empty()).map(|r| *r.0).collect();
            let broken = fault.filter(|_| !full.is_empty()).map(|n| full[n as usize % full.len()]);
            if let Some(t) = broken {
                set_fault(w, true, t);
            }
            let out = w.cli(&["clear", "data"]);
            if let Some(t) = broken {
                clear_fault(w, true, t);
            }
            if !w.spec || !built || w.applied == 0 {
                return refused(w, &out, "no migration is applied", o);
            }
            if broken.is_some() {
                return refused(w, &out, "the rows of a table cannot be deleted", o);
            }
            ok(&out)?;
            if flat.0.keys().any(|t| w.rows.0.get(t).is_some_and(|r| !r.is_empty())) {
                o.label("data cleared");
            }
            w.rows = Rows::default();
            unchanged_tree(w, &before, what)?;
            Ok(true)
        }
        Op::Clean => {
            let had = w.current.is_some();
            let out = w.cli(&["clean"]);
            if !built {
                return refused(w, &out, "nothing has been built", o);
            }
            if had {
                ok(&out)?;
            }
            w.current = None;
            Ok(had)
        }
        Op::DeleteUnknown => {
            let out = w.cli(&["delete", "table", "no_such_table"]);
            refused(w, &out, "there is no such table", o)
        }
        Op::Init(k) => {
            let (b, cs) = (w.fl.backend(), w.db_str());
            let bad = w.root.join("none/t.db").to_string_lossy().into_owned();
            let out = match k {
                1 => w.cli(&["init", b, &cs, "--no-connect"]),
                2 => return refused(w, &w.cli(&["init", "oracle", &cs]), "there is no such backend", o),
                3 => return refused(w, &w.cli(&["init", "sqlite", &bad]), "the database cannot be opened", o),
                _ => w.cli(&["init", b, &cs]),
            };
            ok(&out)?;
            w.spec = true;
            Ok(true)
        }
        Op::Fill(n, seed) => {
            if w.rows.unknown() || w.applied == 0 {
                return Ok(false);
            }
            let flat = w.state(w.applied);
            let mut rows = w.rows.clone();
            let k = rows.fill(&flat, &w.db().c(), *n, *seed, what)?;
            w.rows = rows;
            if k > 0 {
                o.label("rows");
            }
            Ok(false)
        }
        Op::Fault(n) => {
            *next = Some(*n);
            Ok(false)
        }
    }
}
fn unchanged_tree(w: &World, before: &Tree, what: &str) -> Result<(), Fail> {
    let after = w.tree();
    ensure!(*before == after, "changed", "{what}: changes {}", delta(before, &after));
    Ok(())
}
fn delta(a: &Tree, b: &Tree) -> String {
    let mut out = Vec::new();
    for k in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
        match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) if x != y => out.push(format!("{}: {:?}", k.display(), String::from_utf8_lossy(y))),
            (Some(_), None) => out.push(format!("{} is gone", k.display())),
            (None, Some(_)) => out.push(format!("{} is new", k.display())),
            _ => {}
        }
    }
    out.truncate(6);
    out.join("; ")
}
fn set_fault(w: &mut World, on: bool, table: &str) {
    if !on {
        return;
    }
    let t = quoted(w, table);
    let r = if w.fl.is_pg() {
        let sql = format!("CREATE OR REPLACE FUNCTION zz_no() RETURNS trigger AS $$ BEGIN RAISE EXCEPTION 'no'; END $$ LANGUAGE plpgsql;
            CREATE TRIGGER zz_no BEFORE DELETE OR INSERT ON {t} FOR EACH ROW EXECUTE FUNCTION zz_no();");
        w.env.rt.block_on(w.env.admin().batch_execute(&sql)).map_err(|e| format!("{e:?}"))
    } else {
        w.db().c().execute(&format!("CREATE TRIGGER zz_no BEFORE DELETE ON {t} BEGIN SELECT RAISE(ABORT, 'no'); END;
            CREATE TRIGGER zz_no2 BEFORE INSERT ON {t} BEGIN SELECT RAISE(ABORT, 'no'); END;")).map_err(|e| e.to_string())
    };
    if let Err(e) = r {
        infra!("trigger on {table}: {e}");
    }
}
fn clear_fault(w: &mut World, on: bool, table: &str) {
    if !on {
        return;
    }
    let t = quoted(w, table);
    let r = if w.fl.is_pg() {
        let sql = format!("DROP TRIGGER IF EXISTS zz_no ON {t}; DROP FUNCTION zz_no();");
        w.env.rt.block_on(w.env.admin().batch_execute(&sql)).map_err(|e| format!("{e:?}"))
    } else {
        w.db().c().execute("DROP TRIGGER IF EXISTS zz_no; DROP TRIGGER IF EXISTS zz_no2;").map_err(|e| e.to_string())
    };
    if let Err(e) = r {
        infra!("trigger on {table}: {e}");
    }
}
/// The migrations as they ended up build and undo the schema, on each of their backends.
fn anew(mut w: World, o: &mut Obs) -> Result<(), Fail> {
    if !w.built() || w.chain.is_empty() {
        return Ok(());
    }
    w.db = None;
    let fs = w.fs();
    let mut steps = Vec::new();
    for (i, m) in fs.all_migrations().unwrap().iter().enumerate() {
        let mut mm = MemMigrations::new().new_migration(&m.name());
        if let Err(e) = copy_migration(m, &mut mm) {
            fail!("copy", "{}: {e}", m.name());
        }
        steps.push(Step { name: m.name().to_string(), m: mm, from: w.state(i), to: w.state(i + 1) });
    }
    let none = Rows::default();
    for b in &w.backends {
        let fl = match b.as_str() {
            "pg" => Fl::PgS,
            "turso" => Fl::TuS,
            _ => Fl::SqS,
        };
        let n = steps
            .iter()
            .position(|s| {
                !may_refuse(fl, &s.from, &s.to, &none).is_empty() || !may_refuse(fl, &s.to, &s.from, &none).is_empty()
            })
            .unwrap_or(steps.len());
        let what = format!("a new {b} database with the first {n} of {:?}", w.names());
        let set = prefix(&steps, n);
        let mut db = w.env.open(fl, false);
        if let Err(e) = db.migrate(&set) {
            fail!("anew", "{what}: {e}");
        }
        check_schema(w.env, &db, &w.state(n), &steps[..n], &what)?;
        if let Err(e) = db.unmigrate(&set) {
            fail!("anew", "{what}, rolled back: {e}");
        }
        check_schema(w.env, &db, &Flat::default(), &steps[..n], &format!("{what}, rolled back"))?;
        if n > 1 {
            o.label(format!("chain anew on {b}"));
        }
    }
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    ctx.assume("the command-line tool is built from its own main.rs and run as a separate program in scratch directories");
    ctx.explore(
        "history",
        "at least four operations of at least three kinds changed the directory or the database",
        ctx.cases(700, 20000),
        || s_case(13),
        Env::new,
        run,
    );
}
