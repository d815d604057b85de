//! C26 derived field types: stored, loaded, compared, defaulted, used as keys.
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use crate::vals::*;
use crate::{ensure, fail, infra};
use butane_core::codegen;
use butane_core::db::Column;
use butane_core::fkey::ForeignKey;
use butane_core::many::Many;
use butane_core::migrations::{MemMigrations, Migration, Migrations, MigrationsMut};
use butane_core::query::{BoolExpr, Expr};
use butane_core::{DataObject, DataResult, Error, SqlType, SqlVal, ToSql};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use uuid::Uuid;

const COLORS: [(Color, &str); 6] = [
    (Color::Red, "Red"),
    (Color::Green, "Green"),
    (Color::DarkBlue, "DarkBlue"),
    (Color::red, "red"),
    (Color::r#type, "type"),
    (Color::Élan, "Élan"),
];
fn color_name(c: Color) -> &'static str {
    match c {
        Color::Red => "Red",
        Color::Green => "Green",
        Color::DarkBlue => "DarkBlue",
        Color::red => "red",
        Color::r#type => "type",
        Color::Élan => "Élan",
    }
}

// ---- values

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DVal {
    color: u8,
    name: String,
    cents: i64,
    level: i16,
    small: u8,
    wide: u32,
    single: u32,
    ratio: u64,
    bytes: Vec<u8>,
    ident: [u8; 16],
    on: bool,
    day: i64,
    when: i64,
    stamp: i64,
    any: serde_json::Value,
    doc: Doc,
    pair: Pair,
    maybe: Option<String>,
    shape: Shape,
}
fn clean(s: String) -> String {
    s.replace('\0', "0")
}
/// Without NUL characters and numbers whose spelling matters.
fn clean_json(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::*;
    match v {
        Number(n) if n.as_i64().is_none() => Number((n.as_f64().unwrap_or(0.0) as i32).into()),
        String(s) => String(clean(s)),
        Array(a) => Array(a.into_iter().map(clean_json).collect()),
        Object(m) => Object(m.into_iter().map(|(k, v)| (clean(k), clean_json(v))).collect()),
        v => v,
    }
}
fn s_shape() -> BoxedStrategy<Shape> {
    prop_oneof![
        1 => Just(Shape::Dot),
        1 => s_u32().prop_map(Shape::Circle),
        1 => (s_i32(), s_i32()).prop_map(|(w, h)| Shape::Rect { w, h }),
    ]
    .boxed()
}
fn s_dval() -> BoxedStrategy<DVal> {
    use proptest::collection::{btree_map, vec};
    let text = || s_str().prop_map(clean).boxed();
    const DAY: i64 = 86_400_000_000;
    let day = || s_date().prop_map(|d| d.clamp(-719_162, 2_932_896));
    let ts = || s_ts().prop_map(|t| t.clamp(-719_162 * DAY, 2_932_896 * DAY));
    let fin64 = s_f64().prop_map(|b| if f64::from_bits(b).is_nan() { 0 } else { b });
    let fin32 = s_f32().prop_map(|b| if f32::from_bits(b).is_nan() { 0 } else { b });
    (
        (any::<u8>(), text(), s_i64(), s_i16(), s_u8(), s_u32(), fin32, fin64),
        (s_blob(), any::<[u8; 16]>(), any::<bool>(), day(), ts(), ts(), s_json().prop_map(clean_json)),
        (s_i64(), proptest::option::of(text()), vec(s_i32(), 0..3), btree_map(text(), s_shape(), 0..3)),
        (s_i32(), text(), proptest::option::of(text()), s_shape()),
    )
        .prop_map(|(a, b, d, e)| DVal {
            color: a.0,
            name: a.1,
            cents: a.2,
            level: a.3,
            small: a.4,
            wide: a.5,
            single: a.6,
            ratio: a.7,
            bytes: b.0,
            ident: b.1,
            on: b.2,
            day: b.3,
            when: b.4,
            stamp: b.5,
            any: b.6,
            doc: Doc { a: d.0, b: d.1, c: d.2, d: d.3 },
            pair: Pair(e.0, e.1),
            maybe: e.2,
            shape: e.3,
        })
        .boxed()
}
fn derived(id: i64, v: &DVal) -> Derived {
    Derived {
        id,
        color: COLORS[v.color as usize % 6].0,
        name: Name(v.name.clone()),
        cents: Cents(v.cents),
        level: Level(v.level),
        small: Small(v.small),
        wide: Wide(v.wide),
        single: Single(f32::from_bits(v.single)),
        ratio: Ratio(f64::from_bits(v.ratio)),
        bytes: Bytes(v.bytes.clone()),
        ident: Ident(Uuid::from_bytes(v.ident)),
        on: On(v.on),
        day: Day(to_date(v.day)),
        when: When(to_ts(v.when)),
        stamp: Stamp(to_ts(v.stamp).and_utc()),
        any: Any(v.any.clone()),
        doc: v.doc.clone(),
        pair: v.pair.clone(),
        maybe: Maybe(v.maybe.clone()),
        mark: Mark,
        shape: v.shape.clone(),
    }
}
macro_rules! columns {
    ($m:ident) => {
        $m! {
            0 eq color, 1 ord name, 2 ord cents, 3 ord level, 4 ord small, 5 ord wide, 6 ord single, 7 ord ratio,
            8 eq bytes, 9 eq ident, 10 eq on, 11 ord day, 12 ord when, 13 ord stamp, 14 eq any, 15 eq doc, 16 eq pair,
            17 eq maybe, 18 eq mark, 19 eq shape
        }
    };
}
const NCOL: u8 = 20;
fn oderived(id: i64, v: &DVal, nulls: u32) -> ODerived {
    let d = derived(id, v);
    macro_rules! mk {
        ($($i:literal $k:ident $f:ident),*) => {
            ODerived { id, $($f: (nulls >> $i & 1 == 0).then_some(d.$f)),* }
        };
    }
    columns!(mk)
}

// ---- conditions

type Pred<T> = Box<dyn Fn(&T) -> bool>;
#[allow(unused_assignments)]
fn cond(col: u8, op: u8, x: &Derived, y: &Derived) -> (BoolExpr, Pred<Derived>, &'static str) {
    let f = Derived::fields();
    macro_rules! eq {
        ($f:ident, $op:expr) => {{
            let (v, w) = (x.$f.clone(), y.$f.clone());
            match $op % 3 {
                0 => (f.$f().eq(&v), Box::new(move |d: &Derived| d.$f == v) as Pred<Derived>, concat!(stringify!($f), " ==")),
                1 => (f.$f().ne(&v), Box::new(move |d: &Derived| d.$f != v) as Pred<Derived>, concat!(stringify!($f), " !=")),
                _ => (
                    f.$f().is_in(vec![v.clone(), w.clone()]),
                    Box::new(move |d: &Derived| d.$f == v || d.$f == w) as Pred<Derived>,
                    concat!(stringify!($f), " in"),
                ),
            }
        }};
    }
    macro_rules! ord {
        ($f:ident, $op:expr) => {{
            let v = x.$f.clone();
            match $op % 7 {
                3 => (f.$f().lt(&v), Box::new(move |d: &Derived| d.$f < v) as Pred<Derived>, concat!(stringify!($f), " <")),
                4 => (f.$f().gt(&v), Box::new(move |d: &Derived| d.$f > v) as Pred<Derived>, concat!(stringify!($f), " >")),
                5 => (f.$f().le(&v), Box::new(move |d: &Derived| d.$f <= v) as Pred<Derived>, concat!(stringify!($f), " <=")),
                6 => (f.$f().ge(&v), Box::new(move |d: &Derived| d.$f >= v) as Pred<Derived>, concat!(stringify!($f), " >=")),
                o => eq!($f, o),
            }
        }};
    }
    macro_rules! all {
        ($($i:literal $k:ident $f:ident),*) => {
            match col % NCOL { $($i => $k!($f, op),)* _ => unreachable!() }
        };
    }
    columns!(all)
}
fn ocond(col: u8, op: u8, x: &ODerived) -> (BoolExpr, Pred<ODerived>, &'static str) {
    let f = ODerived::fields();
    macro_rules! eq {
        ($f:ident, $op:expr) => {{
            let v = x.$f.clone();
            match $op % 2 {
                0 => (f.$f().eq(&v), Box::new(move |d: &ODerived| d.$f == v) as Pred<ODerived>, concat!(stringify!($f), " ==")),
                _ => (
                    f.$f().ne(&v),
                    Box::new(move |d: &ODerived| d.$f != v && (v.is_none() || d.$f.is_some())) as Pred<ODerived>,
                    concat!(stringify!($f), " !="),
                ),
            }
        }};
    }
    macro_rules! ord {
        ($f:ident, $op:expr) => {{
            let op = $op % 4;
            match (&x.$f, op) {
                (Some(v), 2) => {
                    let v = v.clone();
                    (f.$f().lt(&v), Box::new(move |d: &ODerived| d.$f.as_ref().is_some_and(|d| *d < v)) as Pred<ODerived>, concat!(stringify!($f), " <"))
                }
                (Some(v), 3) => {
                    let v = v.clone();
                    (f.$f().ge(&v), Box::new(move |d: &ODerived| d.$f.as_ref().is_some_and(|d| *d >= v)) as Pred<ODerived>, concat!(stringify!($f), " >="))
                }
                _ => eq!($f, op),
            }
        }};
    }
    macro_rules! all {
        ($($i:literal $k:ident $f:ident),*) => {
            match col % NCOL { $($i => $k!($f, op),)* _ => unreachable!() }
        };
    }
    columns!(all)
}
/// What the column should hold, by the meaning of the type.
fn inner(col: u8, d: &Derived) -> (&'static str, SqlVal) {
    use SqlVal::*;
    let j = |v: serde_json::Value| Json(v);
    match col % NCOL {
        0 => ("color", Text(color_name(d.color).into())),
        1 => ("name", Text(d.name.0.clone())),
        2 => ("cents", BigInt(d.cents.0)),
        3 => ("level", Int(d.level.0 as i32)),
        4 => ("small", Int(d.small.0 as i32)),
        5 => ("wide", BigInt(d.wide.0 as i64)),
        6 => ("single", Real(d.single.0 as f64)),
        7 => ("ratio", Real(d.ratio.0)),
        8 => ("bytes", Blob(d.bytes.0.clone())),
        9 => ("ident", Blob(d.ident.0.as_bytes().to_vec())),
        10 => ("on", Bool(d.on.0)),
        11 => ("day", Date(d.day.0)),
        12 => ("when", Timestamp(d.when.0)),
        13 => ("stamp", Timestamp(d.stamp.0.naive_utc())),
        14 => ("any", j(d.any.0.clone())),
        15 => (
            "doc",
            j(serde_json::json!({"a": d.doc.a, "b": d.doc.b, "c": d.doc.c,
                "d": d.doc.d.iter().map(|(k, v)| (k.clone(), shape_json(v))).collect::<serde_json::Map<_, _>>()})),
        ),
        16 => ("pair", j(serde_json::json!([d.pair.0, d.pair.1]))),
        17 => ("maybe", j(d.maybe.0.as_ref().map(|s| serde_json::json!(s)).unwrap_or_default())),
        18 => ("mark", j(serde_json::Value::Null)),
        _ => ("shape", j(shape_json(&d.shape))),
    }
}
fn shape_json(s: &Shape) -> serde_json::Value {
    match s {
        Shape::Dot => serde_json::json!("Dot"),
        Shape::Circle(n) => serde_json::json!({"Circle": n}),
        Shape::Rect { w, h } => serde_json::json!({"Rect": {"w": w, "h": h}}),
    }
}
fn sqltype(v: &SqlVal) -> SqlType {
    match v {
        SqlVal::Null | SqlVal::Text(_) => SqlType::Text,
        SqlVal::Bool(_) => SqlType::Bool,
        SqlVal::Int(_) => SqlType::Int,
        SqlVal::BigInt(_) => SqlType::BigInt,
        SqlVal::Real(_) => SqlType::Real,
        SqlVal::Blob(_) => SqlType::Blob,
        SqlVal::Json(_) => SqlType::Json,
        SqlVal::Date(_) => SqlType::Date,
        SqlVal::Timestamp(_) => SqlType::Timestamp,
        _ => infra!("{v:?}"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VCase {
    fl: Fl,
    rows: Vec<(DVal, u32)>,
    /// Copy some columns of an earlier row: (row, columns).
    same: Vec<(u8, u8, u32)>,
    queries: Vec<(bool, u8, u8, u8, u8)>,
    resave: bool,
    in_tx: bool,
}
fn s_vcase() -> BoxedStrategy<VCase> {
    use proptest::collection::vec;
    (
        any_fl(),
        vec((s_dval(), prop_oneof![2 => Just(0u32), 2 => any::<u32>(), 1 => Just(u32::MAX)]), 1..5),
        vec((any::<u8>(), any::<u8>(), any::<u32>()), 0..3),
        vec((any::<bool>(), 0..NCOL, any::<u8>(), any::<u8>(), any::<u8>()), 1..8),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(fl, rows, same, queries, resave, in_tx)| VCase { fl, rows, same, queries, resave, in_tx })
        .boxed()
}
fn copy_some(a: &mut DVal, b: &DVal, mask: u32) {
    let mut n = 0;
    macro_rules! cp {
        ($($f:ident),*) => { $( if mask >> n & 1 == 1 { a.$f = b.$f.clone(); } n += 1; )* };
    }
    cp!(color, name, cents, level, small, wide, single, ratio, bytes, ident, on, day, when, stamp, any, doc, pair, maybe, shape);
    let _ = n;
}
fn run_values(env: &mut Env, q: &VCase) -> R {
    let sch = crate::schema::schema(&["Derived", "ODerived"]);
    let mut db = env.fresh(q.fl, &sch);
    let w = q.fl.name();
    let mut o = Obs::new();
    o.label(w);
    let mut rows = q.rows.clone();
    let n = rows.len();
    for (a, b, mask) in &q.same {
        let b = rows[*b as usize % n].0.clone();
        copy_some(&mut rows[*a as usize % n].0, &b, *mask);
    }
    let mut req: Vec<Derived> = rows.iter().enumerate().map(|(i, r)| derived(i as i64, &r.0)).collect();
    let mut opt: Vec<ODerived> = rows.iter().enumerate().map(|(i, r)| oderived(i as i64, &r.0, r.1)).collect();
    let save = |db: &mut Db, r: &Derived, p: &ODerived| -> Result<(), Fail> {
        let (mut r2, mut p2) = (r.clone(), p.clone());
        let both = |c: &C, r2: &mut Derived, p2: &mut ODerived| c.save(r2).and_then(|()| c.save(p2));
        let res = if q.in_tx {
            db.tx(|c| (both(c, &mut r2, &mut p2), TxEnd::Commit)).and_then(|(a, b)| a.and(b))
        } else {
            both(&db.c(), &mut r2, &mut p2)
        };
        if let Err(e) = res {
            fail!("save-failed", "{w}: saving {r:?} and {p:?}: {e} {e:?}");
        }
        ensure!(r2 == *r && p2 == *p, "save-changed-object", "{w}: {r:?} {p:?} became {r2:?} {p2:?}");
        Ok(())
    };
    for (r, p) in req.iter().zip(&opt) {
        save(&mut db, r, p)?;
    }
    if q.resave && n > 1 {
        req[0] = derived(0, &rows[n - 1].0);
        opt[0] = oderived(0, &rows[n - 1].0, rows[n - 1].1.rotate_left(5));
        save(&mut db, &req[0], &opt[0])?;
    }
    let c = db.c();
    for (r, p) in req.iter().zip(&opt) {
        match c.get::<Derived>(r.id) {
            Ok(g) => ensure!(g == *r, "changed", "{w}: stored {r:?}, read {g:?}"),
            Err(e) => fail!("get-failed", "{w}: reading {r:?}: {e}"),
        }
        match c.get::<ODerived>(p.id) {
            Ok(g) => ensure!(g == *p, "changed-optional", "{w}: stored {p:?}, read {g:?}"),
            Err(e) => fail!("get-failed", "{w}: reading {p:?}: {e}"),
        }
    }
    let all = |what: &str| -> Result<(), Fail> {
        let sorted = |mut v: Vec<Derived>| {
            v.sort_by_key(|d| d.id);
            v
        };
        match c.all::<Derived>() {
            Ok(a) => ensure!(sorted(a.clone()) == req, "changed", "{w}: {what}: {a:?}, expected {req:?}"),
            Err(e) => fail!("load-failed", "{w}: {what}: {e}"),
        }
        Ok(())
    };
    all("loaded together")?;
    for (optional, col, op, a, b) in &q.queries {
        let (x, y) = (&req[*a as usize % n], &req[*b as usize % n]);
        // the raw column, read with the type it stands for
        let (name, want) = inner(*col, x);
        let cols = [Column::new(name, sqltype(&want))];
        match c.query("Derived", &cols, Some(BoolExpr::Eq("id", Expr::Val(SqlVal::BigInt(x.id)))), None, None, None) {
            Ok(g) => ensure!(g == vec![vec![want.clone()]], "representation", "{w}: {name} of {x:?} is stored as {g:?}, expected {want:?}"),
            Err(e) => fail!("load-failed", "{w}: {name}: {e}"),
        }
        if *optional {
            let z = &opt[*a as usize % n];
            let (e, p, what) = ocond(*col, *op, z);
            let want: BTreeSet<i64> = opt.iter().filter(|d| p(d)).map(|d| d.id).collect();
            match c.load(ODerived::query().filter(e)) {
                Ok(g) => {
                    let g: Vec<i64> = g.iter().map(|d| d.id).collect();
                    ensure!(g.len() == want.len() && g.iter().all(|i| want.contains(i)), "wrong-rows-optional", "{w}: {what} operand of {z:?} selects {g:?}, expected {want:?} of {opt:?}");
                }
                Err(e) => fail!("query-failed", "{w}: {what} operand of {z:?}: {e}"),
            }
            o.label(format!("optional {what}"));
        } else {
            let (e, p, what) = cond(*col, *op, x, y);
            let want: BTreeSet<i64> = req.iter().filter(|d| p(d)).map(|d| d.id).collect();
            match c.load(Derived::query().filter(e)) {
                Ok(g) => {
                    let g: Vec<i64> = g.iter().map(|d| d.id).collect();
                    ensure!(g.len() == want.len() && g.iter().all(|i| want.contains(i)), "wrong-rows", "{w}: {what} operand of {x:?} (and {y:?}) selects {g:?}, expected {want:?} of {req:?}");
                }
                Err(e) => fail!("query-failed", "{w}: {what} operand of {x:?}: {e}"),
            }
            o.label(what);
        }
    }
    o.nontrivial_if(n > 1);
    Ok(o)
}

// ---- stored values which are none of the type

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Odd {
    /// A text in the enum's column.
    Text(String),
    /// A number in the column of a wrapped small integer: u8, i16, u32.
    Num(u8, i64),
    /// JSON in a column of a structure or enum: doc, pair, shape, mark, maybe.
    Json(u8, serde_json::Value),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OddCase {
    fl: Fl,
    optional: bool,
    row: DVal,
    odd: Odd,
}
fn run_odd(env: &mut Env, q: &OddCase) -> R {
    let sch = crate::schema::schema(&["Derived", "ODerived"]);
    let db = env.fresh(q.fl, &sch);
    let w = q.fl.name();
    let mut o = Obs::new();
    let c = db.c();
    let mut r = derived(1, &q.row);
    let mut p = oderived(1, &q.row, 0);
    let mut other = (derived(2, &q.row), oderived(2, &q.row, 0));
    if let Err(e) = c.save(&mut r).and_then(|()| c.save(&mut p)).and_then(|()| c.save(&mut other.0)).and_then(|()| c.save(&mut other.1)) {
        fail!("save-failed", "{w}: {r:?}: {e}");
    }
    let (col, val) = match &q.odd {
        Odd::Text(t) => ("color", SqlVal::Text(t.clone())),
        Odd::Num(k, v) => match k % 3 {
            0 => ("small", SqlVal::Int(*v as i32)),
            1 => ("level", SqlVal::Int(*v as i32)),
            _ => ("wide", SqlVal::BigInt(*v)),
        },
        Odd::Json(k, v) => (["doc", "pair", "shape", "mark", "maybe"][*k as usize % 5], SqlVal::Json(v.clone())),
    };
    // what the value means, if anything
    let mut want = r.clone();
    let ok = match &q.odd {
        Odd::Text(t) => COLORS.iter().find(|c| c.1 == t).map(|c| want.color = c.0).is_some(),
        Odd::Num(..) => {
            let v = match &val {
                SqlVal::Int(v) => *v as i64,
                SqlVal::BigInt(v) => *v,
                _ => unreachable!(),
            };
            match col {
                "small" => u8::try_from(v).map(|v| want.small = Small(v)).is_ok(),
                "level" => i16::try_from(v).map(|v| want.level = Level(v)).is_ok(),
                _ => u32::try_from(v).map(|v| want.wide = Wide(v)).is_ok(),
            }
        }
        Odd::Json(_, v) => match col {
            "doc" => serde_json::from_value(v.clone()).map(|v| want.doc = v).is_ok(),
            "pair" => serde_json::from_value(v.clone()).map(|v| want.pair = v).is_ok(),
            "shape" => serde_json::from_value(v.clone()).map(|v| want.shape = v).is_ok(),
            "mark" => serde_json::from_value(v.clone()).map(|v| want.mark = v).is_ok(),
            _ => serde_json::from_value(v.clone()).map(|v| want.maybe = v).is_ok(),
        },
    };
    let table = if q.optional { "ODerived" } else { "Derived" };
    if let Err(e) = c.update(table, Column::new("id", SqlType::BigInt), &SqlVal::BigInt(1), &[Column::new(col, sqltype(&val))], &[val.clone()]) {
        infra!("{w}: {col} {val:?}: {e}");
    }
    let what = format!("{w}: {table}.{col} holding {val:?}");
    fn one<T: DataObject + PartialEq + std::fmt::Debug>(r: butane_core::Result<T>, ok: bool, want: &T, enumv: Option<&str>, what: &str) -> Result<(), Fail> {
        match r {
            Ok(g) => {
                ensure!(ok, "odd-accepted", "{what} is read as {g:?}");
                ensure!(g == *want, "odd-changed", "{what} is read as {g:?}, expected {want:?}");
            }
            Err(e) => {
                ensure!(!ok, "odd-refused", "{what} is refused: {e}");
                if let Some(t) = enumv {
                    ensure!(matches!(&e, Error::UnknownEnumVariant(s) if s == t), "odd-error", "{what}: {e:?}");
                }
            }
        }
        Ok(())
    }
    let enumv = match &q.odd {
        Odd::Text(t) => Some(t.as_str()),
        _ => None,
    };
    if q.optional {
        let mut pw = p.clone();
        pw.color = Some(want.color);
        pw.small = Some(want.small);
        pw.level = Some(want.level);
        pw.wide = Some(want.wide);
        pw.doc = Some(want.doc.clone());
        pw.pair = Some(want.pair.clone());
        pw.shape = Some(want.shape.clone());
        pw.maybe = Some(want.maybe.clone());
        one(guarded_read(|| c.get::<ODerived>(1i64), &what)?, ok, &pw, enumv, &what)?;
        let all = guarded_read(|| c.all::<ODerived>(), &what)?;
        ensure!(all.is_ok() == ok, "odd-load", "{what}: {all:?}");
        match c.get::<ODerived>(2i64) {
            Ok(g) => ensure!(g == other.1, "odd-other", "{what}: the other row became {g:?}"),
            Err(e) => fail!("odd-other", "{what}: the other row: {e}"),
        }
    } else {
        one(guarded_read(|| c.get::<Derived>(1i64), &what)?, ok, &want, enumv, &what)?;
        let all = guarded_read(|| c.all::<Derived>(), &what)?;
        ensure!(all.is_ok() == ok, "odd-load", "{what}: {all:?}");
        match c.get::<Derived>(2i64) {
            Ok(g) => ensure!(g == other.0, "odd-other", "{what}: the other row became {g:?}"),
            Err(e) => fail!("odd-other", "{what}: the other row: {e}"),
        }
    }
    o.label(if ok { "means something" } else { "means nothing" });
    o.label(col);
    o.nontrivial_if(!ok);
    Ok(o)
}
fn guarded_read<T>(f: impl FnOnce() -> T, what: &str) -> Result<T, Fail> {
    match quiet_panic(f) {
        Some(r) => Ok(r),
        None => fail!("odd-panic", "{what}: reading panicked"),
    }
}

// ---- keys

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KOp {
    Put(u8, i32),
    Del(u8),
    /// Object `id` refers to these keys.
    Ref(u8, u8, Option<u8>, Vec<u8>),
    Get(u8),
    Find(u8, u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KCase {
    fl: Fl,
    kind: u8,
    keys: Vec<DVal>,
    ops: Vec<KOp>,
}
fn s_kcase() -> BoxedStrategy<KCase> {
    use proptest::collection::vec;
    let k = || 0u8..8;
    let op = prop_oneof![
        4 => (k(), any::<i32>()).prop_map(|(a, n)| KOp::Put(a, n)),
        1 => k().prop_map(KOp::Del),
        2 => (0u8..3, k(), proptest::option::of(k()), vec(k(), 0..4)).prop_map(|(i, a, b, m)| KOp::Ref(i, a, b, m)),
        1 => k().prop_map(KOp::Get),
        2 => (k(), 0u8..4).prop_map(|(a, b)| KOp::Find(a, b)),
    ];
    (any_fl(), 0u8..6, vec(s_dval(), 3..7), vec(op, 4..14))
        .prop_map(|(fl, kind, keys, ops)| KCase { fl, kind, keys, ops })
        .boxed()
}
trait RefTo<K: DataObject>: DataObject {
    fn make(id: i64, one: ForeignKey<K>, other: Option<ForeignKey<K>>) -> Self;
    fn one(&self) -> &ForeignKey<K>;
    fn other(&self) -> &Option<ForeignKey<K>>;
    fn many(&mut self) -> &mut Many<K>;
    fn by_one(e: BoolExpr) -> BoolExpr;
    fn one_eq(k: &K) -> BoolExpr;
    fn many_has(k: K::PKType) -> BoolExpr;
}
trait Key: DataObject + Clone + PartialEq + std::fmt::Debug + Send + Sync {
    fn make(v: &DVal, n: i32) -> Self;
    fn key_eq(k: &Self::PKType) -> BoolExpr;
    fn key_in(k: Vec<Self::PKType>) -> BoolExpr;
    fn n(&self) -> i32;
}
macro_rules! keyed {
    ($k:ident $r:ident $t:ident |$v:ident| $e:expr) => {
        impl Key for $k {
            fn make($v: &DVal, n: i32) -> Self {
                $k { key: $e, n }
            }
            fn key_eq(k: &$t) -> BoolExpr {
                $k::fields().key().eq(k)
            }
            fn key_in(k: Vec<$t>) -> BoolExpr {
                $k::fields().key().is_in(k)
            }
            fn n(&self) -> i32 {
                self.n
            }
        }
        impl RefTo<$k> for $r {
            fn make(id: i64, one: ForeignKey<$k>, other: Option<ForeignKey<$k>>) -> Self {
                $r { id, one, other, many: Many::new() }
            }
            fn one(&self) -> &ForeignKey<$k> {
                &self.one
            }
            fn other(&self) -> &Option<ForeignKey<$k>> {
                &self.other
            }
            fn many(&mut self) -> &mut Many<$k> {
                &mut self.many
            }
            fn by_one(e: BoolExpr) -> BoolExpr {
                $r::fields().one().subfilter(e)
            }
            fn one_eq(k: &$k) -> BoolExpr {
                $r::fields().one().eq(k)
            }
            fn many_has(k: $t) -> BoolExpr {
                $r::fields().many().containspk(k)
            }
        }
    };
}
keyed!(KColor RColor Color |v| COLORS[v.color as usize % 6].0);
keyed!(KName RName Name |v| Name(v.name.clone()));
keyed!(KCents RCents Cents |v| Cents(v.cents));
keyed!(KLevel RLevel Level |v| Level(v.level));
keyed!(KIdent RIdent Ident |v| Ident(Uuid::from_bytes(v.ident)));
keyed!(KDay RDay Day |v| Day(to_date(v.day)));

fn run_keys(env: &mut Env, q: &KCase) -> R {
    match q.kind % 6 {
        0 => keys::<KColor, RColor>(env, q, &["KColor", "RColor"]),
        1 => keys::<KName, RName>(env, q, &["KName", "RName"]),
        2 => keys::<KCents, RCents>(env, q, &["KCents", "RCents"]),
        3 => keys::<KLevel, RLevel>(env, q, &["KLevel", "RLevel"]),
        4 => keys::<KIdent, RIdent>(env, q, &["KIdent", "RIdent"]),
        _ => keys::<KDay, RDay>(env, q, &["KDay", "RDay"]),
    }
}
fn ids(rows: &[SqlVal]) -> Vec<i64> {
    rows.iter().map(|v| if let SqlVal::BigInt(i) = v { *i } else { -1 }).collect()
}
fn keys<K: Key, T: RefTo<K> + std::fmt::Debug>(env: &mut Env, q: &KCase, names: &[&str]) -> R
where
    K::PKType: Sync + Send,
    T::PKType: Sync + From<i64>,
    K: butane_core::AsPrimaryKey<K>,
{
    let sch = crate::schema::schema(names);
    let db = env.fresh(q.fl, &sch);
    let w = format!("{} {}", q.fl.name(), names[0]);
    let mut o = Obs::new();
    o.label(names[0]);
    let c = db.c();
    // by the key's text form, as the pool may hold a key twice
    let text = |k: &K| format!("{:?}", k.pk().to_sql());
    let pool: Vec<K> = q.keys.iter().map(|v| K::make(v, 0)).collect();
    let at = |i: u8| &pool[i as usize % pool.len()];
    let mut have: BTreeMap<String, K> = BTreeMap::new();
    let mut refs: BTreeMap<i64, (String, Option<String>, BTreeSet<String>)> = BTreeMap::new();
    let mut linked = false;
    for (si, op) in q.ops.iter().enumerate() {
        let what = format!("{w} step {si} {op:?}");
        match op {
            KOp::Put(i, n) => {
                let mut k = K::make(&q.keys[*i as usize % q.keys.len()], *n);
                if let Err(e) = c.save(&mut k) {
                    fail!("save-failed", "{what}: {k:?}: {e}");
                }
                have.insert(text(&k), k);
            }
            KOp::Del(i) => {
                let k = at(*i);
                let t = text(k);
                if refs.values().any(|r| r.0 == t || r.1.as_ref() == Some(&t) || r.2.contains(&t)) {
                    continue;
                }
                let Some(k) = have.get(&t) else { continue };
                if let Err(e) = c.delete(k) {
                    fail!("delete-failed", "{what}: {k:?}: {e}");
                }
                have.remove(&t);
            }
            KOp::Ref(id, a, b, m) => {
                let (ka, kb) = (at(*a), b.map(at));
                let ms: Vec<&K> = m.iter().map(|i| at(*i)).collect();
                if !have.contains_key(&text(ka)) || kb.is_some_and(|k| !have.contains_key(&text(k))) || ms.iter().any(|k| !have.contains_key(&text(k))) {
                    continue;
                }
                let id = *id as i64;
                // an object made anew keeps links stored before: set them
                let mut r = T::make(id, ForeignKey::from(ka), kb.map(ForeignKey::from));
                if let Err(e) = c.save(&mut r) {
                    fail!("save-failed", "{what}: {e}");
                }
                let mut seen = BTreeSet::new();
                let ms: Vec<K> = ms.into_iter().filter(|k| seen.insert(text(k))).cloned().collect();
                if let Err(e) = c.many_set(r.many(), ms) {
                    fail!("many-failed", "{what}: {e}");
                }
                linked |= seen.len() > 1;
                refs.insert(id, (text(ka), kb.map(text), seen));
            }
            KOp::Get(i) => {
                let k = at(*i);
                match (c.try_get::<K>(k.pk().clone()), have.get(&text(k))) {
                    (Ok(None), None) => {}
                    (Ok(Some(g)), Some(k)) if g == *k => {}
                    (g, k) => fail!("wrong-object", "{what}: {g:?}, expected {k:?}"),
                }
            }
            KOp::Find(i, how) => {
                let k = at(*i);
                let t = text(k);
                let (got, want): (Vec<i64>, BTreeSet<i64>) = match how {
                    0 => {
                        let g = match c.load(K::query().filter(K::key_in(vec![k.pk().clone(), at(i + 1).pk().clone()]))) {
                            Ok(g) => g,
                            Err(e) => fail!("query-failed", "{what}: {e}"),
                        };
                        let mut g: Vec<String> = g.iter().map(text).collect();
                        g.sort();
                        let mut want: Vec<String> = vec![t.clone(), text(at(i + 1))];
                        want.sort();
                        want.dedup();
                        want.retain(|t| have.contains_key(t));
                        ensure!(g == want, "wrong-rows", "{what}: {g:?}, expected {want:?}");
                        continue;
                    }
                    1 => {
                        let n = have.get(&t).map(|k| k.n()).unwrap_or(0);
                        let g = c.load(T::query().filter(T::by_one(BoolExpr::Eq("n", Expr::Val(SqlVal::Int(n))))));
                        let g = match g {
                            Ok(g) => g,
                            Err(e) => fail!("query-failed", "{what}: {e}"),
                        };
                        let g = ids(&g.iter().map(|r| r.pk().to_sql()).collect::<Vec<_>>());
                        (g, refs.iter().filter(|r| have[&r.1 .0].n() == n).map(|r| *r.0).collect())
                    }
                    2 => {
                        let g = match c.load(T::query().filter(T::one_eq(k))) {
                            Ok(g) => g,
                            Err(e) => fail!("query-failed", "{what}: {e}"),
                        };
                        (ids(&g.iter().map(|r| r.pk().to_sql()).collect::<Vec<_>>()), refs.iter().filter(|r| r.1 .0 == t).map(|r| *r.0).collect())
                    }
                    _ => {
                        let g = match c.load(T::query().filter(T::many_has(k.pk().clone()))) {
                            Ok(g) => g,
                            Err(e) => fail!("query-failed", "{what}: {e}"),
                        };
                        (ids(&g.iter().map(|r| r.pk().to_sql()).collect::<Vec<_>>()), refs.iter().filter(|r| r.1 .2.contains(&t)).map(|r| *r.0).collect())
                    }
                };
                ensure!(got.len() == want.len() && got.iter().all(|i| want.contains(i)), "wrong-rows", "{what}: {got:?}, expected {want:?}");
                if !want.is_empty() {
                    o.label(format!("found {how}"));
                }
            }
        }
    }
    // everything as it should be
    let mut g = match c.all::<K>() {
        Ok(g) => g,
        Err(e) => fail!("load-failed", "{w}: {e}"),
    };
    g.sort_by_key(text);
    let want: Vec<&K> = have.values().collect();
    ensure!(g.iter().collect::<Vec<_>>() == want, "changed", "{w}: {g:?}, expected {want:?}");
    for (id, (one, other, many)) in &refs {
        let mut r = match c.get::<T>(*id) {
            Ok(r) => r,
            Err(e) => fail!("get-failed", "{w}: {id}: {e}"),
        };
        match c.fk_load(r.one()) {
            Ok(k) => ensure!(k == have[one], "wrong-object", "{w}: reference of {id} gives {k:?}, expected {one}"),
            Err(e) => fail!("ref-failed", "{w}: {id}: {e}"),
        }
        match (r.other(), other) {
            (None, None) => {}
            (Some(f), Some(t)) => match c.fk_load(f) {
                Ok(k) => ensure!(k == have[t], "wrong-object", "{w}: optional reference of {id} gives {k:?}, expected {t}"),
                Err(e) => fail!("ref-failed", "{w}: {id}: {e}"),
            },
            (a, b) => fail!("wrong-object", "{w}: optional reference of {id} is {a:?}, expected {b:?}"),
        }
        match c.many_load(r.many()) {
            Ok(v) => {
                let v: Vec<String> = v.iter().map(text).collect();
                ensure!(v.len() == many.len() && v.iter().all(|t| many.contains(t)), "wrong-links", "{w}: {id} has {v:?}, expected {many:?}");
            }
            Err(e) => fail!("many-failed", "{w}: {id}: {e}"),
        }
    }
    if linked {
        o.label("linked");
    }
    o.nontrivial_if(have.len() > 1 && !refs.is_empty());
    Ok(o)
}

// ---- defaults

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DefCase {
    fl: Fl,
    rows: Vec<i64>,
    color: u8,
    name: String,
    cents: u32,
    level: u16,
    wide: u32,
    ratio: u32,
    bytes: Vec<u8>,
    on: bool,
    ocolor: u8,
}
fn run_default(env: &mut Env, q: &DefCase) -> R {
    use proc_macro2::Literal;
    use quote::quote;
    let w = q.fl.name();
    let mut o = Obs::new();
    o.label(w);
    let mut db = env.open(q.fl, false);
    if q.fl.is_pg() {
        env.pg_reset();
    }
    let mut ms = MemMigrations::new();
    let compile = |ts, ms: &mut MemMigrations| -> Result<(), Fail> {
        let out = codegen::model_with_migrations(ts, ms).to_string();
        ensure!(!out.contains("compile_error"), "not-compiled", "{out}");
        Ok(())
    };
    compile(quote!(#[table = "dflt"] pub struct Dflt { pub id: i64 }), &mut ms)?;
    let be = crate::schema::backends();
    match ms.create_migration(&be, "first", None) {
        Ok(true) => {}
        e => fail!("no-migration", "first: {e:?}"),
    }
    if let Err(e) = db.migrate(&ms) {
        fail!("migrate-failed", "{w}: {e}");
    }
    let rows: BTreeSet<i64> = q.rows.iter().copied().collect();
    for id in &rows {
        if let Err(e) = db.c().insert_only("dflt", &[Column::new("id", SqlType::BigInt)], &[SqlVal::BigInt(*id)]) {
            infra!("{w}: row {id}: {e}");
        }
    }
    crate::schema::add_types(&mut ms);
    let (color, ocolor) = (COLORS[q.color as usize % 6], COLORS[q.ocolor as usize % 6]);
    let (cl, ol) = (color.1, ocolor.1);
    let (cents, level, wide) = (q.cents & i32::MAX as u32, q.level & i16::MAX as u16, q.wide & i32::MAX as u32);
    // SQLite 3.45's ALTER TABLE refuses a fraction as the default of a required column of a STRICT table.
    let ratio = if q.fl.is_sq() { (q.ratio / 8) as f64 } else { q.ratio as f64 / 8.0 };
    let l = |n: u32| Literal::u32_unsuffixed(n);
    let (cents_l, level_l, wide_l, ratio_l) = (l(cents), l(level as u32), l(wide), Literal::f64_unsuffixed(ratio));
    let (name, on) = (&q.name, q.on);
    let bytes_l = Literal::byte_string(&q.bytes);
    compile(
        quote!(
            #[table = "dflt"]
            pub struct Dflt {
                pub id: i64,
                #[default = #cl] pub color: Color,
                #[default = #name] pub name: Name,
                #[default = #cents_l] pub cents: Cents,
                #[default = #level_l] pub level: Level,
                #[default = #wide_l] pub wide: Wide,
                #[default = #ratio_l] pub ratio: Ratio,
                #[default = #bytes_l] pub bytes: Bytes,
                #[default = #on] pub on: On,
                #[default = #ol] pub ocolor: Option<Color>,
                pub oname: Option<Name>,
            }
        ),
        &mut ms,
    )?;
    match ms.create_migration(&be, "second", ms.latest().as_ref()) {
        Ok(true) => {}
        e => fail!("no-migration", "second: {e:?}"),
    }
    if let Err(e) = db.migrate(&ms) {
        fail!("migrate-failed", "{w}: {q:?}: {e}: {:?}", ms.latest().unwrap().up_sql(q.fl.backend()));
    }
    let c = db.c();
    let mut got = match c.all::<Dflt>() {
        Ok(g) => g,
        Err(e) => fail!("load-failed", "{w}: {q:?}: {e}"),
    };
    got.sort_by_key(|d| d.id);
    let want: Vec<Dflt> = rows
        .iter()
        .map(|id| Dflt {
            id: *id,
            color: color.0,
            name: Name(q.name.clone()),
            cents: Cents(cents as i64),
            level: Level(level as i16),
            wide: Wide(wide),
            ratio: Ratio(ratio),
            bytes: Bytes(q.bytes.clone()),
            on: On(q.on),
            ocolor: Some(ocolor.0),
            oname: None,
        })
        .collect();
    ensure!(got == want, "wrong-default", "{w}: rows of before the migration are {got:?}, expected {want:?}");
    match c.load(Dflt::query().filter(Dflt::fields().color().eq(&color.0)).filter(Dflt::fields().name().eq(&Name(q.name.clone())))) {
        Ok(g) => ensure!(g.len() == rows.len(), "default-not-found", "{w}: {} rows of {} have the default", g.len(), rows.len()),
        Err(e) => fail!("load-failed", "{w}: {e}"),
    }
    o.nontrivial_if(!rows.is_empty());
    Ok(o)
}

pub fn c26(ctx: &Ctx) {
    let text = || s_str().prop_map(clean).boxed();
    ctx.explore(
        "values",
        "1-4 rows of 20 derived types stored in required and optional columns, read back, compared raw with what each type stands for, and selected by conditions on them; non-trivial: two rows or more",
        ctx.cases(4000, 100_000),
        s_vcase,
        Env::new,
        run_values,
    );
    ctx.explore(
        "odd",
        "a stored value which may be none of the type's, read back; non-trivial: it is none",
        ctx.cases(3000, 60_000),
        move || {
            let odd = prop_oneof![
                3 => prop_oneof![
                    2 => text(),
                    2 => proptest::sample::select(vec!["RED", "red ", " Red", "reD", "Blue", "Darkblue", "dark_blue", "r#type", "Type", "", "0", "Color::Red", "elan", "E\u{301}lan", "NULL"]).prop_map(|s| s.to_string()),
                    1 => proptest::sample::select(COLORS.to_vec()).prop_map(|c| c.1.to_string()),
                ].prop_map(Odd::Text),
                2 => (0u8..3, prop_oneof![2 => -300i64..300, 1 => s_i64(), 2 => s_i32().prop_map(|i| i as i64), 1 => s_u32().prop_map(|i| i as i64)]).prop_map(|(k, v)| Odd::Num(k, v)),
                3 => (0u8..5, prop_oneof![
                    2 => s_json().prop_map(clean_json),
                    2 => s_shape().prop_map(|s| shape_json(&s)),
                    1 => proptest::sample::select(vec!["Dot", "dot", "Circle", "Rect"]).prop_map(|s| serde_json::json!(s)),
                    1 => proptest::sample::select(vec![
                        serde_json::json!({"Circle": -1}), serde_json::json!({"Circle": 1, "Dot": null}), serde_json::json!({"Rect": {"w": 1}}), serde_json::json!({"Rect": [1, 2]}),
                        serde_json::json!([1, "a"]), serde_json::json!([1]), serde_json::json!({"a": 1, "b": null, "c": [], "d": {}}), serde_json::json!({"a": 1, "c": [], "d": {}, "e": 5}),
                        serde_json::json!({"a": "1", "b": null, "c": [], "d": {}}), serde_json::json!([]), serde_json::json!({}), serde_json::json!(null),
                    ]),
                ]).prop_map(|(k, v)| Odd::Json(k, v)),
            ];
            (any_fl(), any::<bool>(), s_dval(), odd).prop_map(|(fl, optional, row, odd)| OddCase { fl, optional, row, odd }).boxed()
        },
        Env::new,
        run_odd,
    );
    ctx.explore(
        "keys",
        "up to 14 saves, deletes, references, links and searches of objects with one of 6 derived key types; non-trivial: two objects or more, and one that refers to them",
        ctx.cases(3000, 60_000),
        s_kcase,
        Env::new,
        run_keys,
    );
    ctx.explore(
        "defaults",
        "rows get the defaults of columns of derived types added by a migration; non-trivial: there is a row",
        ctx.cases(400, 10_000),
        move || {
            let text = s_str().prop_map(clean);
            (
                any_fl(),
                proptest::collection::vec(s_i64(), 0..4),
                any::<u8>(),
                text,
                any::<u32>(),
                any::<u16>(),
                any::<u32>(),
                any::<u32>(),
                s_blob(),
                (any::<bool>(), any::<u8>()),
            )
                .prop_map(|(fl, rows, color, name, cents, level, wide, ratio, bytes, (on, ocolor))| DefCase { fl, rows, color, name, cents, level, wide, ratio, bytes, on, ocolor })
                .boxed()
        },
        Env::new,
        run_default,
    );
    ctx.assume("NaN, NUL characters, dates outside years 1-9999 and JSON numbers other than 64-bit integers are not generated (C01 covers them); a fraction is no default on SQLite, whose version 3.45 refuses it for a required column of a STRICT table; enums and JSON values are compared for equality only");
}
