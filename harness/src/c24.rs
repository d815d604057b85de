//! C24 serialised and converted field values round-trip.
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use crate::vals::*;
use crate::{ensure, fail};
use butane_core::fkey::ForeignKey;
use butane_core::many::Many;
use butane_core::{AutoPk, DataObject, FieldType, FromSql, PrimaryKeyType, SqlType, SqlVal, SqlValRef, ToSql};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::HashMap;
use std::fmt::Debug;
use uuid::Uuid;

/// Every SqlVal that is not Custom, from the parts of a VRow.
pub fn sqlvals(r: &VRow) -> Vec<SqlVal> {
    vec![
        SqlVal::Null,
        SqlVal::Bool(r.b),
        SqlVal::Int(r.i32_),
        SqlVal::Int(r.i8_ as i32),
        SqlVal::Int(r.u16_ as i32),
        SqlVal::BigInt(r.i64_),
        SqlVal::BigInt(r.u32_ as i64),
        SqlVal::Real(f64::from_bits(r.f64_)),
        SqlVal::Text(r.s.clone()),
        SqlVal::Text(Uuid::from_bytes(r.uuid).to_string()),
        SqlVal::Blob(r.blob.clone()),
        SqlVal::Blob(r.uuid.to_vec()),
        SqlVal::Json(r.json.clone()),
        SqlVal::Json(serde_json::to_value(&r.hm).unwrap()),
        SqlVal::Date(to_date(r.date)),
        SqlVal::Timestamp(to_ts(r.ts)),
    ]
}
/// Same variant and value, NaN equal to itself.
pub fn sv_eq(a: &SqlVal, b: &SqlVal) -> bool {
    match (a, b) {
        (SqlVal::Real(x), SqlVal::Real(y)) => f64_eq(*x, *y),
        _ => a == b,
    }
}

fn conv<T: FieldType + Clone + Debug>(
    v: &T,
    eq: impl Fn(&T, &T) -> bool,
    others: &[SqlVal],
    accepts: impl Fn(&SqlVal) -> Option<T>,
) -> Result<(), Fail> {
    let ty = std::any::type_name::<T>();
    let a = v.to_sql();
    let b: SqlVal = v.to_sql_ref().into();
    let c = v.clone().into_sql();
    let d: SqlVal = v.clone().into();
    ensure!(
        sv_eq(&a, &b) && sv_eq(&a, &c) && sv_eq(&a, &d),
        "forms-differ",
        "{ty} {v:?}: to_sql {a:?}, to_sql_ref {b:?}, into_sql {c:?}, From {d:?}"
    );
    ensure!(a.sqltype() == Some(T::SQLTYPE), "wrong-variant", "{ty} {v:?} became {a:?}, type is {:?}", T::SQLTYPE);
    ensure!(a.is_compatible(&T::SQLTYPE, false), "not-compatible", "{ty} {v:?}: {a:?}");
    ensure!(v.to_sql_ref().sqltype() == Some(T::SQLTYPE), "wrong-variant", "{ty} {v:?}: ref type");
    let back = [
        ("from_sql", T::from_sql(a.clone())),
        ("from_sql_ref", T::from_sql_ref(a.as_ref())),
    ];
    for (n, r) in back {
        match r {
            Ok(x) => ensure!(eq(v, &x), "changed", "{ty}: {v:?} became {x:?} through {n}"),
            Err(e) => fail!("conversion-failed", "{ty}: {n} of {a:?}: {e}"),
        }
    }
    // optional
    let s = Some(v.clone());
    ensure!(
        sv_eq(&s.to_sql(), &a) && sv_eq(&SqlVal::from(s.to_sql_ref()), &a) && sv_eq(&s.clone().into_sql(), &a),
        "option-differs",
        "Some({v:?}) becomes {:?}",
        s.to_sql()
    );
    match Option::<T>::from_sql(a.clone()) {
        Ok(Some(x)) if eq(v, &x) => {}
        r => fail!("option-changed", "Option<{ty}> of {a:?} is {r:?}"),
    }
    let n: Option<T> = None;
    ensure!(
        n.to_sql() == SqlVal::Null && SqlVal::from(n.to_sql_ref()) == SqlVal::Null && n.into_sql() == SqlVal::Null,
        "none-not-null",
        "{ty}: None is not NULL"
    );
    match (Option::<T>::from_sql(SqlVal::Null), Option::<T>::from_sql_ref(SqlValRef::Null)) {
        (Ok(None), Ok(None)) => {}
        r => fail!("null-not-none", "Option<{ty}> of NULL is {r:?}"),
    }
    ensure!(<Option<T> as FieldType>::SQLTYPE == T::SQLTYPE, "wrong-variant", "Option<{ty}>");
    // anything else
    for x in others {
        for (n, r) in [("from_sql", T::from_sql(x.clone())), ("from_sql_ref", T::from_sql_ref(x.as_ref()))] {
            match (r, accepts(x)) {
                (Ok(y), Some(w)) => ensure!(eq(&y, &w), "wrong-value", "{ty}: {n} of {x:?} is {y:?}, not {w:?}"),
                (Err(_), None) => {}
                (Ok(y), None) => fail!("accepted", "{ty}: {n} accepted {x:?} as {y:?}"),
                (Err(e), Some(w)) => fail!("conversion-failed", "{ty}: {n} of {x:?}, which is {w:?}: {e}"),
            }
        }
        for (n, r) in [
            ("from_sql", Option::<T>::from_sql(x.clone())),
            ("from_sql_ref", Option::<T>::from_sql_ref(x.as_ref())),
        ] {
            match (r, accepts(x)) {
                (Ok(None), _) if *x == SqlVal::Null => {}
                (Ok(Some(y)), Some(w)) if eq(&y, &w) => {}
                (Err(_), None) if *x != SqlVal::Null => {}
                (r, w) => fail!("option-wrong", "Option<{ty}>: {n} of {x:?} is {r:?}, the plain conversion gives {w:?}"),
            }
        }
    }
    Ok(())
}

macro_rules! int_conv {
    ($t:ty, $v:expr, $var:ident, $others:expr) => {
        conv::<$t>(&$v, |a, b| a == b, $others, |x| match x {
            SqlVal::$var(n) => <$t>::try_from(*n).ok(),
            _ => None,
        })
    };
}

fn serde_rt<T: Serialize + DeserializeOwned + Debug>(
    v: &T,
    eq: impl Fn(&T, &T) -> bool,
) -> Result<T, Fail> {
    let ty = std::any::type_name::<T>();
    let js = match serde_json::to_string(v) {
        Ok(j) => j,
        Err(e) => fail!("serialise-failed", "{ty} {v:?}: {e}"),
    };
    match serde_json::from_str::<T>(&js) {
        Ok(x) => ensure!(eq(v, &x), "serde-changed", "{ty}: {v:?} serialised as {js} became {x:?}"),
        Err(e) => fail!("deserialise-failed", "{ty}: {js} from {v:?}: {e}"),
    }
    let jv = serde_json::to_value(v).map_err(|e| Fail::new("serialise-failed", e.to_string()))?;
    match serde_json::from_value::<T>(jv.clone()) {
        Ok(x) => {
            ensure!(eq(v, &x), "serde-changed", "{ty}: {v:?} as value {jv} became {x:?}");
            Ok(x)
        }
        Err(e) => fail!("deserialise-failed", "{ty}: value {jv} from {v:?}: {e}"),
    }
}
fn fk_rt<T: DataObject + Clone + Debug>(k: T::PKType) -> Result<(), Fail>
where
    T::PKType: Serialize + DeserializeOwned + Debug,
{
    let f = ForeignKey::<T>::from_pk(k.clone());
    let g = serde_rt(&f, |a, b| a == b && a.pk() == b.pk())?;
    ensure!(
        serde_json::to_value(&f).unwrap() == serde_json::to_value(&k).unwrap(),
        "fk-form",
        "a foreign key serialises as {:?}, not as its key {k:?}",
        serde_json::to_value(&f)
    );
    ensure!(g.get().is_err(), "fk-loaded", "deserialised foreign key claims to be loaded");
    let a = f.to_sql();
    ensure!(
        a == k.to_sql() && SqlVal::from(f.to_sql_ref()) == a && f.clone().into_sql() == a,
        "fk-forms-differ",
        "foreign key {k:?}: {a:?}"
    );
    match ForeignKey::<T>::from_sql(a.clone()) {
        Ok(h) => ensure!(h == f && h.pk() == k, "fk-changed", "{k:?} became {:?}", h.pk()),
        Err(e) => fail!("fk-conversion-failed", "{k:?}: {e}"),
    }
    ensure!(<ForeignKey<T> as FieldType>::SQLTYPE == <T::PKType as FieldType>::SQLTYPE, "fk-type", "");
    Ok(())
}
fn auto_rt<T: PrimaryKeyType + Serialize + DeserializeOwned + Debug + Default>(k: T) -> Result<(), Fail> {
    let a = AutoPk::<T>::from_sql(k.to_sql())
        .map_err(|e| Fail::new("autopk-conversion", format!("{k:?}: {e}")))?;
    let b = AutoPk::<T>::from_sql_ref(k.to_sql_ref())
        .map_err(|e| Fail::new("autopk-conversion", format!("{k:?}: {e}")))?;
    ensure!(a == b && a.is_valid() && a == k && *a == Some(k.clone()), "autopk-changed", "{k:?} became {a:?}");
    ensure!(a.to_sql() == k.to_sql() && a.clone().into_sql() == k.to_sql(), "autopk-forms-differ", "{k:?}");
    serde_rt(&a, |x, y| x == y)?;
    let n = serde_rt(&AutoPk::<T>::uninitialized(), |x, y| !x.is_valid() && !y.is_valid() && x != y)?;
    ensure!(n.is_none(), "autopk-invented", "{n:?}");
    let mut i = n.clone();
    i.initialize(k.to_sql()).map_err(|e| Fail::new("autopk-initialize", e.to_string()))?;
    ensure!(i == k, "autopk-initialize", "{k:?} became {i:?}");
    let before = i.clone();
    i.initialize(T::default().to_sql()).map_err(|e| Fail::new("autopk-initialize", e.to_string()))?;
    ensure!(i == before, "autopk-reinitialized", "{before:?} became {i:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Two {
    a: VRow,
    b: VRow,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Objs {
    title: String,
    likes: Option<i32>,
    score: Option<i32>,
    name: String,
    alt: bool,
    top: Option<String>,
    tags: Vec<(String, Option<i32>)>,
    load: u8,
}

fn clean(j: &serde_json::Value) -> serde_json::Value {
    j.clone()
}

pub fn c24(ctx: &Ctx) {
    ctx.explore(
        "convert",
        "two generated rows of values of every field type: conversion to database form and back, and refusal of every other form; every case is non-trivial",
        ctx.cases(12_000, 400_000),
        || (s_row(), s_row()).prop_map(|(a, b)| Two { a, b }).boxed(),
        |_| (),
        |_, q| {
            let (r, others) = (&q.a, sqlvals(&q.b));
            let o = &others[..];
            conv::<bool>(&r.b, |a, b| a == b, o, |x| match x {
                SqlVal::Bool(b) => Some(*b),
                _ => None,
            })?;
            int_conv!(i8, r.i8_, Int, o)?;
            int_conv!(u8, r.u8_, Int, o)?;
            int_conv!(i16, r.i16_, Int, o)?;
            int_conv!(u16, r.u16_, Int, o)?;
            int_conv!(i32, r.i32_, Int, o)?;
            int_conv!(u32, r.u32_, BigInt, o)?;
            int_conv!(i64, r.i64_, BigInt, o)?;
            conv::<f64>(&f64::from_bits(r.f64_), |a, b| f64_eq(*a, *b), o, |x| match x {
                SqlVal::Real(b) => Some(*b),
                _ => None,
            })?;
            conv::<f32>(&f32::from_bits(r.f32_), |a, b| f32_eq(*a, *b), o, |x| match x {
                SqlVal::Real(b) => Some(*b as f32),
                _ => None,
            })?;
            conv::<String>(&r.s, |a, b| a == b, o, |x| match x {
                SqlVal::Text(s) => Some(s.clone()),
                _ => None,
            })?;
            ensure!(
                r.s.as_str().to_sql() == r.s.to_sql() && SqlVal::from(r.s.as_str().to_sql_ref()) == r.s.to_sql(),
                "forms-differ",
                "&str {:?}",
                r.s
            );
            conv::<Vec<u8>>(&r.blob, |a, b| a == b, o, |x| match x {
                SqlVal::Blob(s) => Some(s.clone()),
                _ => None,
            })?;
            conv::<Uuid>(&Uuid::from_bytes(r.uuid), |a, b| a == b, o, |x| match x {
                SqlVal::Blob(s) => Uuid::from_slice(s).ok(),
                SqlVal::Text(s) => Uuid::parse_str(s).ok(),
                _ => None,
            })?;
            conv::<chrono::NaiveDate>(&to_date(r.date), |a, b| a == b, o, |x| match x {
                SqlVal::Date(s) => Some(*s),
                _ => None,
            })?;
            conv::<chrono::NaiveDateTime>(&to_ts(r.ts), |a, b| a == b, o, |x| match x {
                SqlVal::Timestamp(s) => Some(*s),
                _ => None,
            })?;
            conv::<chrono::DateTime<chrono::Utc>>(&to_ts(r.tz).and_utc(), |a, b| a == b, o, |x| match x {
                SqlVal::Timestamp(s) => Some(s.and_utc()),
                _ => None,
            })?;
            conv::<serde_json::Value>(&r.json, |a, b| a == b, o, |x| match x {
                SqlVal::Json(s) => Some(s.clone()),
                _ => None,
            })?;
            fn hm<T: DeserializeOwned>(x: &SqlVal) -> Option<HashMap<String, T>> {
                match x {
                    SqlVal::Json(serde_json::Value::Object(m)) => m
                        .iter()
                        .map(|(k, v)| serde_json::from_value(v.clone()).ok().map(|v| (k.clone(), v)))
                        .collect(),
                    _ => None,
                }
            }
            conv::<HashMap<String, String>>(&r.hm.clone().into_iter().collect(), |a, b| a == b, o, hm)?;
            conv::<std::collections::BTreeMap<String, i64>>(&r.bm, |a, b| a == b, o, |x| {
                hm::<i64>(x).map(|m| m.into_iter().collect())
            })?;
            // derived types
            conv::<Name>(&Name(r.s.clone()), |a, b| a == b, o, |x| match x {
                SqlVal::Text(s) => Some(Name(s.clone())),
                _ => None,
            })?;
            conv::<Level>(&Level(r.i16_), |a, b| a == b, o, |x| match x {
                SqlVal::Int(s) => i16::try_from(*s).ok().map(Level),
                _ => None,
            })?;
            conv::<Ident>(&Ident(Uuid::from_bytes(r.uuid)), |a, b| a == b, o, |x| match x {
                SqlVal::Blob(s) => Uuid::from_slice(s).ok().map(Ident),
                SqlVal::Text(s) => Uuid::parse_str(s).ok().map(Ident),
                _ => None,
            })?;
            conv::<Doc>(
                &Doc { a: r.i64_, b: q.b.b.then(|| r.s.clone()), c: vec![r.i32_; r.u8_ as usize % 4], d: Default::default() },
                |a, b| a == b,
                o,
                |x| match x {
                    SqlVal::Json(s) => serde_json::from_value(s.clone()).ok(),
                    _ => None,
                },
            )?;
            // accessors of SqlVal
            for v in sqlvals(r) {
                let _ = v.to_string();
                let _ = format!("{v:?}");
                ensure!(sv_eq(&SqlVal::from(v.as_ref()), &v), "ref-changed", "{v:?}");
                ensure!(v.as_ref().sqltype() == v.sqltype(), "ref-type", "{v:?}");
                let t = v.sqltype();
                ensure!(v.bool().is_ok() == (t == Some(SqlType::Bool)), "accessor", "bool of {v:?}");
                ensure!(v.integer().is_ok() == (t == Some(SqlType::Int)), "accessor", "integer of {v:?}");
                match (v.bigint(), &v) {
                    (Ok(n), SqlVal::Int(m)) if n == *m as i64 => {}
                    (Ok(n), SqlVal::BigInt(m)) if n == *m => {}
                    (Err(_), x) if !matches!(x, SqlVal::Int(_) | SqlVal::BigInt(_)) => {}
                    (r, x) => fail!("accessor", "bigint of {x:?} is {r:?}"),
                }
                ensure!(v.real().is_ok() == (t == Some(SqlType::Real)), "accessor", "real of {v:?}");
                ensure!(v.text().ok() == if let SqlVal::Text(s) = &v { Some(&s[..]) } else { None }, "accessor", "text of {v:?}");
                ensure!(v.clone().owned_text().ok().as_deref() == v.text().ok(), "accessor", "owned_text of {v:?}");
                ensure!(v.blob().ok() == if let SqlVal::Blob(s) = &v { Some(&s[..]) } else { None }, "accessor", "blob of {v:?}");
                ensure!(v.clone().owned_blob().ok().as_deref() == v.blob().ok(), "accessor", "owned_blob of {v:?}");
                for u in [SqlType::Bool, SqlType::Int, SqlType::BigInt, SqlType::Real, SqlType::Text, SqlType::Blob, SqlType::Json, SqlType::Date, SqlType::Timestamp] {
                    let want = |na| match &t {
                        None => na,
                        Some(t) => *t == u,
                    };
                    ensure!(
                        v.is_compatible(&u, true) == want(true) && v.is_compatible(&u, false) == want(false),
                        "is-compatible",
                        "{v:?} with {u}"
                    );
                }
            }
            let mut o = Obs::new();
            o.nontrivial = true;
            Ok(o)
        },
    );
    ctx.explore(
        "serde",
        "generated values in SqlVal, AutoPk and ForeignKey wrappers through JSON; every case is non-trivial",
        ctx.cases(12_000, 400_000),
        || s_row().boxed(),
        |_| (),
        |_, r: &VRow| {
            for v in sqlvals(r) {
                if matches!(v, SqlVal::Real(f) if !f.is_finite()) {
                    continue; // JSON has no such number
                }
                serde_rt(&v, |a, b| match (a, b) {
                    (SqlVal::Real(x), SqlVal::Real(y)) => (x - y).abs() <= 4.0 * f64::EPSILON * x.abs(),
                    (SqlVal::Json(x), SqlVal::Json(y)) => json_eq(x, &clean(y)),
                    _ => a == b,
                })?;
            }
            auto_rt::<i64>(r.i64_)?;
            auto_rt::<i32>(r.i32_)?;
            auto_rt::<u32>(r.u32_)?;
            auto_rt::<i8>(r.i8_)?;
            auto_rt::<String>(r.s.clone())?;
            auto_rt::<Uuid>(Uuid::from_bytes(r.uuid))?;
            fk_rt::<IntK>(r.i64_)?;
            fk_rt::<Tag>(r.s.clone())?;
            fk_rt::<UuK>(Uuid::from_bytes(r.uuid))?;
            fk_rt::<KU32>(r.u32_)?;
            fk_rt::<KDate>(to_date(r.date))?;
            fk_rt::<KTs>(to_ts(r.ts))?;
            fk_rt::<KBlob>(r.blob.clone())?;
            fk_rt::<Blog>(AutoPk::from_sql(SqlVal::BigInt(r.i64_)).unwrap())?;
            let mut o = Obs::new();
            o.nontrivial = true;
            Ok(o)
        },
    );
    ctx.explore(
        "objects",
        "saved model objects with foreign keys and many-to-many fields through JSON, before and after loading their relations; non-trivial: at least one link",
        ctx.cases(1500, 40_000),
        || {
            (
                (s_str(), any::<Option<i32>>(), any::<Option<i32>>(), s_str(), any::<bool>()),
                (proptest::option::of("[a-c]{1,2}"), proptest::collection::btree_map("[a-c]{1,2}", any::<Option<i32>>(), 0..4), any::<u8>()),
            )
                .prop_map(|(a, b)| Objs {
                    title: a.0.replace('\0', ""),
                    likes: a.1,
                    score: a.2,
                    name: a.3.replace('\0', ""),
                    alt: a.4,
                    top: b.0,
                    tags: b.1.into_iter().collect(),
                    load: b.2,
                })
                .boxed()
        },
        Env::new,
        |env, q| {
            let sch = crate::schema::schema(&["Tag", "Blog", "Post", "Num"]);
            let db = env.fresh(Fl::SqS, &sch);
            let c = db.c();
            let e = |e: butane_core::Error| Fail::new("operation-failed", e.to_string());
            let mut tags = Vec::new();
            for (t, w) in &q.tags {
                let mut t = Tag { tag: t.clone(), w: *w };
                c.save(&mut t).map_err(e)?;
                serde_rt(&t, |a, b| a == b)?;
                tags.push(t);
            }
            let mut b1 = Blog { id: AutoPk::uninitialized(), name: q.name.clone(), score: q.score, parent: None };
            c.save(&mut b1).map_err(e)?;
            let mut b2 = Blog { id: AutoPk::uninitialized(), name: q.title.clone(), score: None, parent: Some((&b1).into()) };
            c.save(&mut b2).map_err(e)?;
            let beq = |a: &Blog, b: &Blog| a.id == b.id && a.name == b.name && a.score == b.score && a.parent == b.parent;
            serde_rt(&b1, beq)?;
            serde_rt(&b2, beq)?;
            let top = q.top.as_ref().filter(|t| tags.iter().any(|x| &x.tag == *t));
            let mut p = Post {
                id: AutoPk::uninitialized(),
                title: q.title.clone(),
                likes: q.likes,
                blog: if q.load & 1 == 0 { (&b2).into() } else { b2.clone().into() },
                alt: q.alt.then(|| (&b1).into()),
                top: top.map(|t| ForeignKey::from_pk(t.clone())),
                tags: Many::new(),
                seen: Many::new(),
            };
            for t in &tags {
                p.tags.add(t).map_err(e)?;
            }
            c.save(&mut p).map_err(e)?;
            if q.load & 2 == 2 {
                c.many_load(&p.tags).map_err(e)?;
                c.fk_load(&p.blog).map_err(e)?;
            }
            let eq = |a: &Post, b: &Post| {
                a.id == b.id && a.title == b.title && a.likes == b.likes && a.blog == b.blog && a.alt == b.alt && a.top == b.top
            };
            let back = serde_rt(&p, eq)?;
            let mut got: Vec<Tag> = c.many_load(&back.tags).map_err(e)?;
            got.sort_by(|a, b| a.tag.cmp(&b.tag));
            ensure!(got == tags, "many-changed", "links {tags:?} became {got:?} after serialising the owner");
            let bl = c.fk_load(&back.blog).map_err(e)?;
            ensure!(beq(&bl, &b2), "fk-changed", "{bl:?} for {b2:?}");
            // a deserialised object can be saved again
            let mut again = back.clone();
            again.likes = Some(3);
            c.save(&mut again).map_err(e)?;
            let all: Vec<Post> = c.all().map_err(e)?;
            ensure!(all.len() == 1 && all[0].likes == Some(3) && all[0].title == p.title, "resave", "{all:?}");
            let mut got: Vec<Tag> = c.many_load(&all[0].tags).map_err(e)?;
            got.sort_by(|a, b| a.tag.cmp(&b.tag));
            ensure!(got == tags, "many-changed", "links {tags:?} became {got:?} after saving a deserialised owner");
            let mut o = Obs::new();
            o.nontrivial = !tags.is_empty();
            Ok(o)
        },
    );
}
