//! C10 data is never interpreted as SQL: the same history with hostile and with plain data.
use crate::db::*;
use crate::engine::*;
use crate::mig::{introspect, schema_diff};
use crate::models::*;
use crate::vals::*;
use crate::{ensure, fail, infra};
use butane_core::db::Column;
use butane_core::fkey::ForeignKey;
use butane_core::many::Many;
use butane_core::migrations::adb::{AColumn, ATable, DeferredSqlType, TypeIdentifier, ADB};
use butane_core::migrations::{MemMigrations, Migrations, MigrationsMut};
use butane_core::query::{BoolExpr, Expr, OrderDirection};
use butane_core::{DataResult, Result as BResult, SqlType, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn s_hostile() -> BoxedStrategy<String> {
    let frag = proptest::sample::select(vec![
        "'", "''", "'''", "\"", "\"\"", "`", "[", "]", ";", "; ", "--", "-- ", "/*", "*/", "$1", "$2", "$0", "?", "?1", "?2", "??", ":a", "@a", "\\", "\\\\", "\\'", "E'", "e'\\'",
        "$$", "$a$", "U&'", "X'41'", "%", "_", "%%", "\n", "\r\n", "\t", " ", "(", ")", "((", ",", "=", "<>", "||", "{}", "{0}", "{", "}}", "#", "\u{2019}", "\u{2bc}", "\u{ff07}", "é", "日",
        "\u{1F600}", "\u{FEFF}", "\u{7f}", "\u{1}", "a", "b", "A", "0", "1", "NULL", "null", "TRUE", " OR 1=1", "' OR '1'='1", " OR ''='", " UNION SELECT 1", "') ; DELETE FROM \"Sentinel\"; --",
        "'; DELETE FROM Sentinel; --", "'; DROP TABLE \"Sentinel\"; --", "\"; DROP TABLE \"Sentinel\"; --", "x'; INSERT INTO Sentinel VALUES (9, 'x'); --", "1); DELETE FROM Sentinel; --",
        "COMMIT;", "; ROLLBACK;", "BEGIN", "Sentinel", "StrK.name", "\"name\"", "owner", "has", "CURRENT_TIMESTAMP", "now()", "abs(1)", "last_insert_rowid()", "like 'a%'", " ESCAPE '\\'",
        "ON CONFLICT", "RETURNING *", "k00", "k01",
    ]);
    prop_oneof![
        8 => proptest::collection::vec(frag, 1..5).prop_map(|v| v.concat()),
        2 => s_str().prop_map(|s| s.replace('\0', "'")),
    ]
    .boxed()
}
fn clean_json(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    match v {
        Number(n) if n.as_i64().is_none() => Number((n.as_f64().unwrap_or(0.0) as i32).into()),
        String(s) => String(s.replace('\0', "'")),
        Array(a) => Array(a.into_iter().map(clean_json).collect()),
        Object(m) => Object(m.into_iter().map(|(k, v)| (k.replace('\0', "'"), clean_json(v))).collect()),
        v => v,
    }
}
fn s_hjson() -> BoxedStrategy<serde_json::Value> {
    prop_oneof![
        2 => s_hostile().prop_map(|s| serde_json::json!(s)),
        2 => (s_hostile(), s_hostile()).prop_map(|(k, v)| serde_json::json!({ k: v })),
        1 => proptest::collection::vec(s_hostile(), 0..3).prop_map(|v| serde_json::json!(v)),
        2 => s_json().prop_map(clean_json),
    ]
    .boxed()
}
fn s_hblob() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => s_hostile().prop_map(String::into_bytes), 1 => s_blob()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    SaveK(u8, Option<i32>),
    SaveTag(u8, Option<i32>),
    SaveBlob(u8, i32),
    SaveInt(i64, u8),
    /// id, body, alt, raw, js, on, tags
    SaveNote(i64, u8, Option<u8>, u8, u8, Option<u8>, Vec<u8>),
    DelK(u8),
    DelTag(u8),
    DelBlob(u8),
    GetK(u8),
    GetBlob(u8),
    /// Which column, which operator, operands.
    Find(u8, u8, u8, u8),
    /// The same, deleting.
    DelWhere(u8, u8, u8, u8),
    Like(u8, String),
    TagsHave(u8, u8),
    On(u8, u8),
    AddTag(i64, u8),
    RemoveTag(i64, u8),
    /// Write a column of the rows with this body.
    Raw(u8, u8),
    Sorted(bool, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    text: Vec<String>,
    blob: Vec<Vec<u8>>,
    json: Vec<serde_json::Value>,
    ops: Vec<Op>,
    in_tx: bool,
}
fn s_case() -> BoxedStrategy<Case> {
    use proptest::collection::vec;
    use proptest::option::of;
    let k = || 0u8..8;
    let op = prop_oneof![
        4 => (k(), of(0i32..3)).prop_map(|(a, n)| Op::SaveK(a, n)),
        3 => (k(), of(0i32..3)).prop_map(|(a, n)| Op::SaveTag(a, n)),
        2 => (k(), 0i32..3).prop_map(|(a, n)| Op::SaveBlob(a, n)),
        3 => (0i64..3, k()).prop_map(|(a, n)| Op::SaveInt(a, n)),
        6 => (0i64..4, k(), of(k()), k(), k(), of(k()), vec(k(), 0..3)).prop_map(|(i, a, b, c, d, e, t)| Op::SaveNote(i, a, b, c, d, e, t)),
        1 => k().prop_map(Op::DelK),
        1 => k().prop_map(Op::DelTag),
        1 => k().prop_map(Op::DelBlob),
        1 => k().prop_map(Op::GetK),
        1 => k().prop_map(Op::GetBlob),
        6 => (0u8..7, any::<u8>(), k(), k()).prop_map(|(a, b, c, d)| Op::Find(a, b, c, d)),
        2 => (0u8..7, any::<u8>(), k(), k()).prop_map(|(a, b, c, d)| Op::DelWhere(a, b, c, d)),
        2 => (0u8..3, s_hostile()).prop_map(|(a, p)| Op::Like(a, p)),
        1 => (k(), 0u8..3).prop_map(|(a, b)| Op::TagsHave(a, b)),
        1 => (k(), 0u8..3).prop_map(|(a, b)| Op::On(a, b)),
        1 => (0i64..4, k()).prop_map(|(a, b)| Op::AddTag(a, b)),
        1 => (0i64..4, k()).prop_map(|(a, b)| Op::RemoveTag(a, b)),
        1 => (k(), k()).prop_map(|(a, b)| Op::Raw(a, b)),
        1 => (any::<bool>(), 0u8..4).prop_map(|(a, b)| Op::Sorted(a, b)),
    ];
    (any_fl(), vec(s_hostile(), 3..7), vec(s_hblob(), 2..4), vec(s_hjson(), 2..4), vec(op, 4..22), proptest::bool::weighted(0.3))
        .prop_map(|(fl, text, blob, json, ops, in_tx)| Case { fl, text, blob, json, ops, in_tx })
        .boxed()
}
struct Pool {
    text: Vec<String>,
    blob: Vec<Vec<u8>>,
    json: Vec<serde_json::Value>,
}
impl Pool {
    fn t(&self, i: u8) -> String {
        self.text[i as usize % self.text.len()].clone()
    }
    fn b(&self, i: u8) -> Vec<u8> {
        self.blob[i as usize % self.blob.len()].clone()
    }
    fn j(&self, i: u8) -> serde_json::Value {
        self.json[i as usize % self.json.len()].clone()
    }
    fn ti(&self, s: &str) -> String {
        self.text.iter().position(|t| t == s).map(|i| format!("t{i}")).unwrap_or_else(|| format!("unknown text {s:?}"))
    }
    fn bi(&self, s: &[u8]) -> String {
        self.blob.iter().position(|t| t == s).map(|i| format!("b{i}")).unwrap_or_else(|| format!("unknown bytes {s:?}"))
    }
    fn ji(&self, s: &serde_json::Value) -> String {
        self.json.iter().position(|t| t == s).map(|i| format!("j{i}")).unwrap_or_else(|| format!("unknown JSON {s}"))
    }
    fn strk(&self, k: &StrK) -> String {
        format!("({} {:?})", self.ti(&k.name), k.n)
    }
    fn note(&self, n: &Note) -> String {
        format!(
            "({} {} {:?} {} {} {:?})",
            n.id,
            self.ti(&n.body),
            n.alt.as_ref().map(|a| self.ti(a)),
            self.bi(&n.raw),
            self.ji(&n.js),
            n.on.as_ref().map(|k| self.ti(&k.pk()))
        )
    }
}
fn set<T>(r: BResult<Vec<T>>, f: impl Fn(&T) -> String, sorted: bool) -> BResult<String> {
    let mut v: Vec<String> = r?.iter().map(f).collect();
    if !sorted {
        v.sort();
    }
    Ok(v.join(" "))
}
fn text_cond(col: &'static str, op: u8, p: &Pool, a: u8, b: u8, nullable: bool) -> BoolExpr {
    let v = |i| SqlVal::Text(p.t(i));
    let e = |i| Expr::Val(v(i));
    match op % 9 {
        0 | 1 => BoolExpr::Eq(col, e(a)),
        2 => BoolExpr::Ne(col, e(a)),
        3 if !nullable => BoolExpr::In(col, vec![v(a), v(b)]),
        4 => BoolExpr::Lt(col, e(a)),
        5 => BoolExpr::Ge(col, e(a)),
        6 => BoolExpr::Or(Box::new(BoolExpr::Eq(col, e(a))), Box::new(BoolExpr::Eq(col, e(b)))),
        7 => BoolExpr::Not(Box::new(BoolExpr::Eq(col, e(a)))),
        _ => BoolExpr::And(Box::new(BoolExpr::Gt(col, e(a))), Box::new(BoolExpr::Le(col, e(b)))),
    }
}
/// What the operation gives, with every text, blob and JSON value replaced by its number.
fn exec(c: &C, p: &Pool, op: &Op, hostile: bool) -> BResult<String> {
    let done = |r: BResult<()>| r.map(|()| "done".to_string());
    Ok(match op {
        Op::SaveK(a, n) => done(c.save(&mut StrK { name: p.t(*a), n: *n }))?,
        Op::SaveTag(a, n) => done(c.save(&mut Tag { tag: p.t(*a), w: *n }))?,
        Op::SaveBlob(a, n) => done(c.save(&mut BlobK { key: p.b(*a), n: *n }))?,
        Op::SaveInt(id, a) => done(c.save(&mut IntK { id: *id, name: p.t(*a), n: None }))?,
        Op::SaveNote(id, body, alt, raw, js, on, tags) => {
            // references to what is not there are refused, or not checked, alike
            let on = match on {
                Some(k) => c.try_get::<StrK>(p.t(*k))?.map(ForeignKey::from),
                None => None,
            };
            let mut n = Note { id: *id, body: p.t(*body), alt: alt.map(|a| p.t(a)), raw: p.b(*raw), js: p.j(*js), on, tags: Many::new() };
            for t in tags {
                if let Some(t) = c.try_get::<Tag>(p.t(*t))? {
                    n.tags.add(&t)?;
                }
            }
            done(c.save(&mut n))?
        }
        Op::DelK(a) => {
            if c.load(Note::query().filter(BoolExpr::Eq("on", Expr::Val(SqlVal::Text(p.t(*a))))))?.is_empty() {
                done(c.delete(&StrK { name: p.t(*a), n: None }))?
            } else {
                String::new()
            }
        }
        Op::DelTag(a) => {
            let used = c.load(Note::query().filter(Note::fields().tags().containspk(p.t(*a))))?;
            if used.is_empty() {
                done(c.delete(&Tag { tag: p.t(*a), w: None }))?
            } else {
                used.len().to_string()
            }
        }
        Op::DelBlob(a) => done(c.delete(&BlobK { key: p.b(*a), n: 0 }))?,
        Op::GetK(a) => c.try_get::<StrK>(p.t(*a))?.map(|k| p.strk(&k)).unwrap_or_default(),
        Op::GetBlob(a) => c.try_get::<BlobK>(p.b(*a))?.map(|k| format!("{} {}", p.bi(&k.key), k.n)).unwrap_or_default(),
        Op::Find(col, op, a, b) => match col % 7 {
            0 => set(c.load(StrK::query().filter(text_cond("name", *op, p, *a, *b, false))), |k| p.strk(k), false)?,
            1 => set(c.load(IntK::query().filter(text_cond("name", *op, p, *a, *b, false))), |k| format!("({} {})", k.id, p.ti(&k.name)), false)?,
            2 => set(c.load(Note::query().filter(text_cond("body", *op, p, *a, *b, false))), |k| p.note(k), false)?,
            3 => set(c.load(Note::query().filter(text_cond("alt", *op, p, *a, *b, true))), |k| p.note(k), false)?,
            4 => {
                let e = match op % 3 {
                    0 => BoolExpr::Eq("raw", Expr::Val(SqlVal::Blob(p.b(*a)))),
                    1 => BoolExpr::Ne("raw", Expr::Val(SqlVal::Blob(p.b(*a)))),
                    _ => BoolExpr::In("raw", vec![SqlVal::Blob(p.b(*a)), SqlVal::Blob(p.b(*b))]),
                };
                set(c.load(Note::query().filter(e)), |k| p.note(k), false)?
            }
            5 => {
                let e = match op % 3 {
                    0 => BoolExpr::Eq("js", Expr::Val(SqlVal::Json(p.j(*a)))),
                    1 => BoolExpr::Ne("js", Expr::Val(SqlVal::Json(p.j(*a)))),
                    _ => BoolExpr::In("js", vec![SqlVal::Json(p.j(*a)), SqlVal::Json(p.j(*b))]),
                };
                set(c.load(Note::query().filter(e)), |k| p.note(k), false)?
            }
            _ => set(c.load(Note::query().filter(text_cond("on", *op, p, *a, *b, true))), |k| p.note(k), false)?,
        },
        Op::DelWhere(col, op, a, b) => {
            let n = match col % 3 {
                0 => c.delete_q(IntK::query().filter(text_cond("name", *op, p, *a, *b, false)))?,
                1 => {
                    let e = text_cond("body", *op, p, *a, *b, false);
                    let n = c.load(Note::query().filter(e.clone()))?;
                    for mut n in n {
                        c.many_set(&mut n.tags, vec![])?;
                    }
                    c.delete_q(Note::query().filter(e))?
                }
                _ => c.delete_where("IntK", text_cond("name", *op, p, *a, *b, false))?,
            };
            n.to_string()
        }
        Op::Like(how, pat) => {
            // no wildcard and no escape: only the very text is like the pattern, up to ASCII letter case
            let pat: String = pat.chars().filter(|c| !matches!(c, '%' | '_' | '\\')).collect();
            if !hostile {
                return Ok(String::new());
            }
            let e = |n| BoolExpr::Like(n, Expr::Val(SqlVal::Text(match how {
                0 => pat.clone(),
                1 => format!("{pat}%"),
                _ => format!("%{pat}"),
            })));
            for k in c.load(StrK::query().filter(e("name")))? {
                let (f, g) = (k.name.to_ascii_lowercase(), pat.to_ascii_lowercase());
                let ok = match how {
                    0 => f == g,
                    1 => f.starts_with(&g),
                    _ => f.ends_with(&g),
                };
                if !ok {
                    return Ok(format!("{:?} is not like {pat:?}", k.name));
                }
            }
            String::new()
        }
        Op::TagsHave(a, how) => {
            let e = match how {
                0 => Note::fields().tags().containspk(p.t(*a)),
                1 => Note::fields().tags().contains(Tag::fields().tag().eq(&p.t(*a))),
                _ => Note::fields().tags().contains(Tag::fields().tag().is_in(vec![p.t(*a), p.t(a + 1)])),
            };
            let mut v: Vec<i64> = c.load(Note::query().filter(e))?.iter().map(|n| n.id).collect();
            v.sort();
            v.dedup();
            format!("{v:?}")
        }
        Op::On(a, how) => {
            let k = StrK { name: p.t(*a), n: None };
            let e = match how {
                0 => BoolExpr::Eq("on", Expr::Val(SqlVal::Text(p.t(*a)))),
                1 => BoolExpr::Subquery { col: "on", tbl2: "StrK".into(), tbl2_col: "name", expr: Box::new(StrK::fields().name().eq(&k.name)) },
                _ => Note::fields().on().eq(&Some(ForeignKey::<StrK>::from(&k))),
            };
            set(c.load(Note::query().filter(e)), |k| p.note(k), false)?
        }
        Op::AddTag(id, t) => match (c.try_get::<Note>(*id)?, c.try_get::<Tag>(p.t(*t))?) {
            (Some(mut n), Some(t)) => {
                c.many_load(&n.tags)?;
                n.tags.add(&t)?;
                done(c.save(&mut n))?
            }
            _ => String::new(),
        },
        Op::RemoveTag(id, t) => match c.try_get::<Note>(*id)? {
            Some(mut n) => {
                c.many_load(&n.tags)?;
                n.tags.remove(&Tag { tag: p.t(*t), w: None });
                done(c.save(&mut n))?
            }
            _ => String::new(),
        },
        Op::Raw(a, b) => {
            let cols = [Column::new("n", SqlType::Int)];
            done(c.update("StrK", Column::new("name", SqlType::Text), &SqlVal::Text(p.t(*a)), &cols, &[SqlVal::Int(*b as i32)]))?
        }
        Op::Sorted(desc, lim) => {
            let f = StrK::query();
            let mut q = if *desc { f.order("name", OrderDirection::Descending) } else { f.order("name", OrderDirection::Ascending) };
            if *lim > 0 {
                q = q.limit(*lim as i32);
            }
            set(c.load(q), |k| p.strk(k), true)?
        }
    })
}
fn dump(c: &C, p: &Pool) -> BResult<String> {
    let mut out = String::new();
    out += &set(c.all::<StrK>(), |k| p.strk(k), false)?;
    out += &set(c.all::<Tag>(), |k| format!("[{} {:?}]", p.ti(&k.tag), k.w), false)?;
    out += &set(c.all::<IntK>(), |k| format!("<{} {}>", k.id, p.ti(&k.name)), false)?;
    out += &set(c.all::<BlobK>(), |k| format!("<{} {}>", p.bi(&k.key), k.n), false)?;
    let mut notes = c.all::<Note>()?;
    notes.sort_by_key(|n| n.id);
    for n in &notes {
        out += &p.note(n);
        out += &set(c.many_load(&n.tags), |k| p.ti(&k.tag), false)?;
    }
    Ok(out)
}
fn pools(q: &Case) -> (Pool, Pool) {
    let mut text: Vec<String> = Vec::new();
    for t in &q.text {
        if !text.contains(t) {
            text.push(t.clone());
        }
    }
    let mut blob = q.blob.clone();
    blob.sort();
    blob.dedup();
    let mut json: Vec<serde_json::Value> = Vec::new();
    for t in &q.json {
        if !json.contains(t) {
            json.push(t.clone());
        }
    }
    // plain texts in the same order
    let mut order: Vec<usize> = (0..text.len()).collect();
    order.sort_by(|a, b| text[*a].as_bytes().cmp(text[*b].as_bytes()));
    let mut plain = vec![String::new(); text.len()];
    for (rank, i) in order.iter().enumerate() {
        plain[*i] = format!("k{rank:02}");
    }
    let b = (0..blob.len()).map(|i| vec![b'k', i as u8 + 48]).collect();
    let j = (0..json.len()).map(|i| serde_json::json!({ "k": i })).collect();
    (Pool { text, blob, json }, Pool { text: plain, blob: b, json: j })
}
fn run(env: &mut (Env, Env), q: &Case) -> R {
    let names = ["StrK", "Tag", "IntK", "BlobK", "Note"];
    let sch = crate::schema::schema(&names);
    let (hp, pp) = pools(q);
    let w = q.fl.name();
    let mut o = Obs::new();
    o.label(w);
    let mut hd = env.0.fresh(q.fl, &sch);
    let mut pd = env.1.fresh(q.fl, &sch);
    let before = introspect(&env.0, &hd)?;
    for d in [&hd, &pd] {
        if let Err(e) = d.c().save(&mut Sentinel { id: 1, v: "safe".into() }) {
            infra!("{w}: sentinel: {e}");
        }
    }
    // with plain data first: its outcomes are what the hostile ones are held against
    let play = |c: &C, p: &Pool, hostile: bool| -> Vec<Result<String, String>> {
        let mut out = Vec::new();
        for op in &q.ops {
            let r = exec(c, p, op, hostile);
            let stop = r.is_err() && q.in_tx && q.fl.is_pg();
            out.push(r.map_err(|e| format!("{e}")));
            if stop {
                break;
            }
        }
        out
    };
    let both = |d: &mut Db, p: &Pool, hostile: bool| -> Result<(Vec<Result<String, String>>, bool), Fail> {
        if q.in_tx {
            match d.tx(|c| (play(c, p, hostile), TxEnd::Commit)) {
                Ok((v, r)) => Ok((v, r.is_ok())),
                Err(e) => fail!("begin-failed", "{w}: {e}"),
            }
        } else {
            Ok((play(&d.c(), p, hostile), true))
        }
    };
    let (want, wc) = both(&mut pd, &pp, false)?;
    let (got, gc) = both(&mut hd, &hp, true)?;
    let texts = format!("texts {:?}, blobs {:?}, JSON {:?}", hp.text, hp.blob, hp.json);
    let mut effects = 0;
    for (i, (g, e)) in got.iter().zip(&want).enumerate() {
        let what = format!("{w} step {i} {:?} with {texts}", q.ops[i]);
        match (g, e) {
            (Ok(g), Ok(e)) => {
                ensure!(g == e, "other-result", "{what}: {g}; with plain data: {e}");
                effects += (!g.is_empty()) as u32;
            }
            (Err(g), Err(_)) => {
                let _ = g;
                o.label("refused alike");
            }
            (g, e) => fail!("other-outcome", "{what}: {g:?}; with plain data: {e:?}"),
        }
    }
    ensure!(got.len() == want.len() && gc == wc, "other-outcome", "{w}: {} steps and {gc}, with plain data {} and {wc}", got.len(), want.len());
    match (dump(&hd.c(), &hp), dump(&pd.c(), &pp)) {
        (Ok(g), Ok(e)) => ensure!(g == e, "other-contents", "{w} after {:?} with {texts}: {g}; with plain data: {e}", q.ops),
        (g, e) => fail!("other-contents", "{w} after {:?} with {texts}: {g:?}; with plain data: {e:?}", q.ops),
    }
    sentinel(&hd, &texts)?;
    let after = introspect(&env.0, &hd)?;
    if let Some(d) = schema_diff(&before, &after) {
        fail!("schema-changed", "{w} after {:?} with {texts}: {d}", q.ops);
    }
    o.nontrivial_if(effects > 3);
    Ok(o)
}
fn sentinel(d: &Db, what: &str) -> Result<(), Fail> {
    match d.c().all::<Sentinel>() {
        Ok(s) => ensure!(s == vec![Sentinel { id: 1, v: "safe".into() }], "sentinel", "{what}: the sentinel table holds {s:?}"),
        Err(e) => fail!("sentinel", "{what}: the sentinel table: {e}"),
    }
    Ok(())
}

// ---- migrations: defaults and names

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Dv {
    Text(String),
    Json(serde_json::Value),
    Blob(Vec<u8>),
}
impl Dv {
    fn val(&self) -> SqlVal {
        match self {
            Dv::Text(s) => SqlVal::Text(s.clone()),
            Dv::Json(s) => SqlVal::Json(s.clone()),
            Dv::Blob(s) => SqlVal::Blob(s.clone()),
        }
    }
    fn ty(&self) -> SqlType {
        match self {
            Dv::Text(_) => SqlType::Text,
            Dv::Json(_) => SqlType::Json,
            Dv::Blob(_) => SqlType::Blob,
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    fl: Fl,
    /// Default, nullable, in the new table instead of the old.
    cols: Vec<(Dv, bool, bool)>,
    names: Vec<String>,
    rows: Vec<i64>,
    /// Also change another column of the old table.
    rebuild: bool,
    undo: bool,
}
fn s_mcase() -> BoxedStrategy<MCase> {
    use proptest::collection::vec;
    let d = || {
        prop_oneof![
            3 => s_hostile().prop_map(Dv::Text),
            2 => s_hjson().prop_map(Dv::Json),
            1 => s_hblob().prop_map(Dv::Blob),
        ]
    };
    (any_fl(), vec((d(), any::<bool>(), any::<bool>()), 1..5), vec(s_hostile(), 3), vec(0i64..5, 0..4), any::<bool>(), any::<bool>())
        .prop_map(|(fl, cols, names, rows, rebuild, undo)| MCase { fl, cols, names, rows, rebuild, undo })
        .boxed()
}
const COLS: [&str; 4] = ["ca", "cb", "cc", "cd"];
fn col(name: &str, ty: SqlType, nullable: bool, pk: bool, default: Option<SqlVal>) -> AColumn {
    AColumn::new(name.to_string(), DeferredSqlType::KnownId(TypeIdentifier::Ty(ty)), nullable, pk, false, false, default, None)
}
fn run_mig(env: &mut Env, q: &MCase) -> R {
    let w = q.fl.name();
    let mut o = Obs::new();
    o.label(w);
    let mut db = env.open(q.fl, false);
    if q.fl.is_pg() {
        env.pg_reset();
    }
    let table = |name: &str, cols: Vec<AColumn>| {
        let mut t = ATable::new(name.to_string());
        for c in cols {
            t.add_column(c);
        }
        t
    };
    let adb = |tables: Vec<ATable>| {
        let mut a = ADB::new();
        for t in tables {
            a.replace_table(t);
        }
        a
    };
    let id = || col("id", SqlType::BigInt, false, true, None);
    let sen = || table("Sentinel", vec![id(), col("v", SqlType::Text, false, false, None)]);
    let z = |ty| col("z", ty, true, false, None);
    let with = |which: bool| -> Vec<AColumn> {
        q.cols.iter().zip(COLS).filter(|(c, _)| c.2 == which).map(|(c, n)| col(n, c.0.ty(), c.1, false, Some(c.0.val()))).collect()
    };
    let host = |zt| {
        let mut v = vec![id(), z(zt)];
        v.extend(with(false));
        table("host", v)
    };
    let made = || {
        let mut v = vec![id()];
        v.extend(with(true));
        table("made", v)
    };
    let mut stages = vec![adb(vec![sen(), table("host", vec![id(), z(SqlType::Int)])]), adb(vec![sen(), host(SqlType::Int), made()])];
    if q.rebuild {
        stages.push(adb(vec![sen(), host(SqlType::BigInt), made()]));
    }
    let mut ms = MemMigrations::new();
    let be = crate::schema::backends();
    let ids: std::collections::BTreeSet<i64> = q.rows.iter().copied().collect();
    let name = |i: usize| format!("{}{i}", q.names[i]);
    let what = format!("{w} {q:?}");
    for (i, s) in stages.into_iter().enumerate() {
        let latest = ms.latest();
        match ms.create_migration_to(&be, &name(i), latest.as_ref(), s) {
            Ok(true) => {}
            e => fail!("no-migration", "{what}: migration {i}: {e:?}"),
        }
        if let Err(e) = db.migrate(&ms) {
            use butane_core::migrations::Migration;
            fail!("migrate-failed", "{what}: migration {i}: {e}: {:?}", ms.latest().unwrap().up_sql(q.fl.backend()));
        }
        if i == 0 {
            if let Err(e) = db.c().insert_only("Sentinel", &[Column::new("id", SqlType::BigInt), Column::new("v", SqlType::Text)], &[SqlVal::BigInt(1), SqlVal::Text("safe".into())]) {
                infra!("{what}: {e}");
            }
            for id in &ids {
                if let Err(e) = db.c().insert_only("host", &[Column::new("id", SqlType::BigInt)], &[SqlVal::BigInt(*id)]) {
                    infra!("{what}: {e}");
                }
            }
        }
        sentinel(&db, &format!("{what} after migration {i}"))?;
        if i > 0 {
            let cs: Vec<(&(Dv, bool, bool), &str)> = q.cols.iter().zip(COLS).filter(|(c, _)| !c.2).collect();
            let mut cols = vec![Column::new("id", SqlType::BigInt)];
            cols.extend(cs.iter().map(|(c, n)| Column::new(n, c.0.ty())));
            let mut want: Vec<Vec<SqlVal>> = ids
                .iter()
                .map(|id| std::iter::once(SqlVal::BigInt(*id)).chain(cs.iter().map(|(c, _)| c.0.val())).collect())
                .collect();
            want.sort_by_key(|r| r[0].bigint().unwrap());
            match db.c().query("host", &cols, None, None, None, None) {
                Ok(mut g) => {
                    g.sort_by_key(|r| r[0].bigint().unwrap());
                    ensure!(g == want, "wrong-default", "{what} after migration {i}: rows are {g:?}, expected {want:?}");
                }
                Err(e) => fail!("load-failed", "{what} after migration {i}: {e}"),
            }
        }
    }
    // a new row, leaving the columns with defaults out, where the database keeps them
    for (t, which) in [("host", false), ("made", true)] {
        let cs: Vec<(&(Dv, bool, bool), &str)> = q.cols.iter().zip(COLS).filter(|(c, _)| c.2 == which).collect();
        if db.c().insert_only(t, &[Column::new("id", SqlType::BigInt)], &[SqlVal::BigInt(77)]).is_ok() {
            let cols: Vec<Column> = cs.iter().map(|(c, n)| Column::new(n, c.0.ty())).collect();
            if cols.is_empty() {
                continue;
            }
            match db.c().query(t, &cols, Some(BoolExpr::Eq("id", Expr::Val(SqlVal::BigInt(77)))), None, None, None) {
                Ok(g) => {
                    let ok = g.len() == 1 && g[0].iter().zip(&cs).all(|(v, (c, _))| *v == c.0.val() || (c.1 && *v == SqlVal::Null));
                    ensure!(ok, "wrong-default", "{what}: a new row of {t} has {g:?}");
                    o.label(format!("default used {t}"));
                }
                Err(e) => fail!("load-failed", "{what}: {t}: {e}"),
            }
        } else {
            o.label(format!("no default {t}"));
        }
    }
    sentinel(&db, &format!("{what} after an insert"))?;
    // the names are kept as they are
    let m2 = {
        let mut m = MemMigrations::new();
        for mig in ms.all_migrations().unwrap_or_default() {
            m.add_migration(mig).unwrap();
        }
        m
    };
    match db.with_sync(move |c| Ok((c.last_applied(&m2)?, c.unapplied(&m2)?))) {
        Ok((l, u)) => {
            let last = name(if q.rebuild { 2 } else { 1 });
            ensure!(l.as_deref() == Some(last.as_str()) && u.is_empty(), "wrong-name", "{what}: last applied {l:?}, unapplied {u:?}");
        }
        Err(e) => fail!("wrong-name", "{what}: {e}"),
    }
    if q.undo {
        if let Err(e) = db.unmigrate(&ms) {
            fail!("unmigrate-failed", "{what}: {e}");
        }
        for t in ["host", "made", "Sentinel"] {
            match db.c().has_table(t) {
                Ok(false) => {}
                r => fail!("undone-wrongly", "{what}: table {t} after undoing everything: {r:?}"),
            }
        }
        o.label("undone");
    }
    o.nontrivial_if(!ids.is_empty() && q.cols.iter().any(|c| !c.2));
    Ok(o)
}

pub fn c10(ctx: &Ctx) {
    ctx.explore(
        "twin",
        "a history of up to 21 operations (saves, gets, deletes, conditions, patterns, references, links) on texts, bytes and JSON made of SQL fragments, played again with plain ones in the same order; non-trivial: more than three operations with an effect",
        ctx.cases(2600, 60_000),
        s_case,
        |wk| (Env::tagged(wk, "h"), Env::tagged(wk, "p")),
        run,
    );
    ctx.explore(
        "migrations",
        "columns added with defaults made of SQL fragments, by migrations so named, kept by a later change of the table and undone; non-trivial: there are rows to get a default",
        ctx.cases(1500, 30_000),
        s_mcase,
        Env::new,
        run_mig,
    );
    ctx.assume("NUL characters, which PostgreSQL and Turso refuse, are not generated");
}
