//! C09 any legal identifier works as a table or column name: generated programs under odd names,
//! compiled with the macros, against the same programs under plain names.
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::{fail, infra};
use butane_core::migrations::{from_root, Migration, MigrationMut, Migrations, MigrationsMut};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// What PostgreSQL, SQLite and the SQL standard reserve or give a meaning to.
const SQL: &str = "abort absolute action add after aggregate all alter always analyse analyze and any array as asc asymmetric at attach \
attribute authorization autoincrement before begin between bigint binary bit boolean both by bytea call cascade cascaded case cast char \
character check class coalesce collate collation column comment commit committed concurrently conflict constraint constraints content \
convert count create cross cube current current_catalog current_date current_role current_schema current_time current_timestamp \
current_user cursor cycle data database date day dec decimal declare default deferrable deferred delete desc detach dictionary distinct \
do document domain double drop each element else end escape event except exclude excluded exclusive execute exists explain extension \
external extract fail false fetch filter final first float following for foreign freeze from full function generated glob grant greatest \
group grouping groups having hour identity if ignore ilike immediate in inherit initially inner inout input insert instead int integer \
intersect interval into is isnull join json jsonb key label language last lateral leading least left level like limit local localtime \
localtimestamp location lock locked map match materialized merge method minute mode month name names national natural nchar new next no \
none normalize not nothing notify notnull now null nullif nulls number numeric object of off offset oids old on only open operator option \
or order ordinality others out outer over overlaps overlay owner owned parameter partial partition password plan placing policy position \
pragma preceding precision primary prior privileges procedure public query quote raise range read real recursive ref references regexp \
reindex relative release rename repeatable replace reset restart restrict result return returning returns revoke right role rollback \
rollup routine row rowid oid rows rule savepoint schema scroll search second security select sequence server session session_user set \
setof sets share show similar simple smallint snapshot some source sql stable standalone start statement statistics status storage stored \
strict subscription substring sum support symmetric sysid system_user table tables tablesample tablespace temp template temporary text \
then ties time timestamp timestamptz to trailing transaction transform treat trigger trim true truncate trusted type types unbounded \
union unique unknown unlisten unlogged until update user using uuid vacuum valid validate value values varchar variadic varying verbose \
version view views virtual volatile when where while window with within without work wrapper write xml year yes zone \
_rowid_ dual sys sysdate system minus rownum top index indexed";
/// Keywords of Rust, which are written raw.
const RUST: &str = "as async await break const continue dyn else enum extern false fn for gen if impl in let loop match mod move mut pub ref \
return static struct trait true type unsafe use where while abstract become box do final macro override priv try typeof unsized virtual yield";
const OTHER: &str = "id ID Id name Name title fields default new save delete get pk conn obj row c v x a e i values include_pk self_ pkcol butane_core \
std core String_ str_ has owner owner_id many Many_ A_B a_b b_ _a __a a1 a_1 A1 ab_cd_ef camelCase PascalCase SHOUT größe Größe naïve 名前 имя ñandú \
like is_in contains matches eq ne lt gt le ge subfilter like_ clone fmt into from_row query columns table_name auto_pk";
const MODELS: &str = "Box Result Error Column Query Table Order Connection Transaction Group User Index Key Value Type Default Match Select Case \
Begin End Check Primary View Values Window Session Role Collation Trigger Row Data Rows Tag Blog Post Some None_ Backend Migration Migrations Many_ \
Event Public Über 名前 a x order user http2 HTTPLog Html5 snake_model A_B Iterator Send Fields Item Record Filter Join Limit Union Database Schema";

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case9 {
    /// keys of the two models
    key: u8,
    other: u8,
    /// names by their place; the ones left out are plain
    names: BTreeMap<String, String>,
}
/// The places and the plain names.
const PLACES: [(&str, &str); 16] = [
    ("A", "Alpha"),
    ("B", "Beta"),
    ("TA", ""),
    ("TB", ""),
    ("ka", "first_key"),
    ("kb", "second_key"),
    ("a", "one"),
    ("b", "two"),
    ("c", "three"),
    ("d", "four"),
    ("e", "five"),
    ("f", "six"),
    ("g", "seven"),
    ("h", "eight"),
    ("i", "nine"),
    ("j", "ten"),
];
const IN_A: [&str; 6] = ["ka", "a", "b", "c", "d", "e"];
const IN_B: [&str; 6] = ["kb", "f", "g", "h", "i", "j"];

fn bare(s: &str) -> &str {
    s.strip_prefix("r#").unwrap_or(s)
}
fn rust_name(s: &str) -> String {
    if RUST.split(' ').any(|k| k == s) {
        format!("r#{s}")
    } else {
        s.to_string()
    }
}
fn words(l: &'static str) -> Vec<&'static str> {
    l.split_whitespace().collect()
}
fn s_name(model: bool) -> BoxedStrategy<String> {
    let list = if model { vec![(3, MODELS), (4, SQL), (1, RUST)] } else { vec![(6, SQL), (2, RUST), (3, OTHER)] };
    let word = proptest::strategy::Union::new_weighted(
        list.into_iter().map(|(w, l)| (w, proptest::sample::select(words(l)).boxed())).collect::<Vec<_>>(),
    );
    let grammar = "[a-zA-Z_][a-zA-Z0-9_]{1,14}|[a-zé名и]{1,6}";
    (word, grammar, any::<u8>(), any::<bool>())
        .prop_map(move |(w, g, how, raw)| {
            let cap = |w: &str| {
                let mut c = w.chars();
                c.next().map(|f| f.to_uppercase().collect::<String>() + c.as_str()).unwrap_or_default()
            };
            let s = match how % 12 {
                0 => w.to_uppercase(),
                1 | 2 => cap(w),
                3 => format!("{w}_"),
                4 => format!("_{w}"),
                5 => format!("{w}2"),
                6 => g,
                7 if model => cap(w),
                _ => w.to_string(),
            };
            let s = rust_name(&s);
            if raw && how > 200 && !s.starts_with("r#") {
                format!("r#{s}")
            } else {
                s
            }
        })
        .prop_filter("not a name", move |s| {
            let b = bare(s);
            syn::parse_str::<syn::Ident>(s).is_ok()
                && b != "_"
                && b.len() <= 20
                // nor what the program has for the names to come
                && b.matches("__").count() < 2
                && !["self", "Self", "super", "crate", "union", "static"].contains(&b)
                // in a filter, which uses fields without qualification, it is the value
                && b != "None"
                // what PostgreSQL keeps for its own columns, and what the program itself refers to
                && !["ctid", "xmin", "xmax", "cmin", "cmax", "tableoid"].contains(&b.to_lowercase().as_str())
                && !(model
                    && [
                        "i32", "i64", "bool", "u8", "str", "char", "String", "Vec", "Option", "AutoPk", "ForeignKey", "Many", "Partly", "butane", "std",
                        "core", "Clone", "Debug", "PartialEq", "alloc", "serde_json", "tokio", "Self", "f64", "f32", "u32", "u16", "i8", "i16", "usize",
                        "u64", "isize",
                    ]
                    .contains(&b))
                && !b.to_lowercase().starts_with("sqlite_")
        })
        .boxed()
}
fn s_case() -> BoxedStrategy<Case9> {
    let one = (any::<u8>(), any::<u8>());
    (
        one,
        proptest::collection::vec(proptest::option::weighted(0.8, s_name(true)), 2),
        proptest::collection::vec(proptest::option::weighted(0.3, s_name(false)), 2),
        proptest::collection::vec(proptest::option::weighted(0.8, s_name(false)), 12),
    )
        .prop_map(|((key, other), models, tables, fields)| {
            let mut names = BTreeMap::new();
            for (at, n) in PLACES.iter().zip(models.into_iter().chain(tables).chain(fields)) {
                if let Some(n) = n {
                    let n = if at.0.starts_with('T') { bare(&n).to_string() } else { n };
                    names.insert(at.0.to_string(), n);
                }
            }
            Case9 { key: key % 4, other: other % 3, names }
        })
        .boxed()
}
/// The names, without what may not be the same twice.
fn names(q: &Case9) -> BTreeMap<String, String> {
    let mut out: BTreeMap<String, String> = PLACES.iter().map(|(p, n)| (p.to_string(), n.to_string())).collect();
    let fold = |s: &str| bare(s).to_lowercase();
    for (p, n) in &q.names {
        let Some(was) = out.insert(p.clone(), n.clone()) else { infra!("no place {p}") };
        let table = |t: &str, m: &str| if out[t].is_empty() { fold(&out[m]) } else { fold(&out[t]) };
        let (ta, tb) = (table("TA", "A"), table("TB", "B"));
        let one_of = |l: &[&str]| l.contains(&p.as_str()) && l.iter().filter(|o| fold(&out[**o]) == fold(n)).count() > 1;
        let link = format!("{tb}_{}_many", fold(&out["j"]));
        let taken = ta == tb
            || [&ta, &tb].iter().any(|t| **t == link || t.starts_with("butane_"))
            || one_of(&IN_A)
            || one_of(&IN_B)
            || ["A", "B"].iter().any(|m| ["A", "B"].iter().any(|o| fold(&format!("{}fields", bare(&out[*o]))) == fold(&out[*m])))
            || fold(&out["A"]) == fold(&out["B"]);
        if taken {
            out.insert(p.clone(), was);
        }
    }
    out
}

const PROGRAM: &str = r####"#![allow(warnings)]
pub mod the_models {
    use butane::{model, dataresult, AutoPk, ForeignKey, Many};
    #[model]
    __TA__
    #[derive(Clone, Debug)]
    pub struct __A__ {
        #[pk]
        pub __ka__: __KA__,
        pub __a__: i32,
        #[unique]
        pub __b__: String,
        pub __c__: Option<i64>,
        #[default = true]
        pub __d__: bool,
        pub __e__: Vec<u8>,
    }
    #[model]
    __TB__
    #[derive(Clone, Debug)]
    pub struct __B__ {
        pub __f__: ForeignKey<__A__>,
        #[pk]
        pub __kb__: __KB__,
        pub __g__: Option<ForeignKey<__B__>>,
        #[default = 7]
        pub __h__: i32,
        pub __i__: Option<String>,
        pub __j__: Many<__A__>,
    }
    #[dataresult(__A__)]
    #[derive(Debug)]
    pub struct Partly {
        pub __b__: String,
        pub __c__: Option<i64>,
    }
}
use butane::migrations::{Migration as _, Migrations as _};
use butane::query::OrderDirection;
use butane::prelude::*;
use the_models::{__A__, __B__, Partly};
fn show_a(x: &__A__) -> String {
    use butane::DataObject;
    format!("{:?} {:?} {:?} {:?} {:?} {:?} {:?}", x.pk(), x.__ka__, x.__a__, x.__b__, x.__c__, x.__d__, x.__e__)
}
fn show_b(c: &butane::db::Connection, x: &__B__) -> String {
    use butane::{ForeignKeyOpsSync, ManyOpsSync};
    let mut has: Vec<String> = match x.__j__.load(c) {
        Ok(i) => i.map(show_a).collect(),
        Err(e) => vec![format!("error {}", oops(e))],
    };
    has.sort();
    let a = match x.__f__.load(c) {
        Ok(a) => show_a(a),
        Err(e) => format!("error {}", oops(e)),
    };
    let b = x.__g__.as_ref().map(|b| match b.load(c) {
        Ok(b) => format!("{:?}", b.__kb__),
        Err(e) => format!("error {}", oops(e)),
    });
    format!("{:?} of {a}, {b:?} {:?} {:?} with {has:?}", x.__kb__, x.__h__, x.__i__)
}
fn oops(e: butane::Error) -> String {
    eprintln!("{e:?}");
    String::new()
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}
fn all(c: &butane::db::Connection) -> butane::Result<Vec<String>> {
    let mut out: Vec<String> = sorted(__A__::query().load(c)?.iter().map(show_a).collect());
    out.extend(sorted(__B__::query().load(c)?.iter().map(|x| show_b(c, x)).collect()));
    Ok(out)
}
fn same(_: i32, k: i64) -> __KA__ {
    let _ = k;
    __KAV__
}
fn other(k: i64) -> __KB__ {
    let _ = k;
    __KBV__
}
fn go(c: &mut butane::db::Connection, args: &[String], out: &mut Vec<String>) {
    let mut ms = butane::migrations::from_root(&args[2]);
    let ms = ms.all_migrations().unwrap();
    let mut n = 0;
    macro_rules! say {
        ($e:expr) => {{
            n += 1;
            match $e {
                Ok(v) => out.push(format!("{n}: {v:?}")),
                Err(e) => {
                    let e: butane::Error = e;
                    eprintln!("{n}: {e}");
                    out.push(format!("{n}: error {}", e.to_string().replace('\n', " ")));
                }
            }
        }};
    }
    say!(ms[0].apply(c));
    ops(c, args, out);
    if args[0] != "turso" {
        for m in &ms[1..] {
            say!(m.apply(c));
        }
        say!(all(c));
        for m in ms[1..].iter().rev() {
            say!(m.downgrade(c));
        }
        say!(all(c));
        for m in &ms[1..] {
            say!(m.apply(c));
        }
        say!(all(c));
        ops(c, args, out);
        for m in ms[1..].iter().rev() {
            say!(m.downgrade(c));
        }
    }
    say!(ms[0].downgrade(c));
    say!(ms[0].apply(c));
    say!(all(c));
}
fn ops(c: &mut butane::db::Connection, args: &[String], out: &mut Vec<String>) {
    use butane::query::BoolExpr;
    use butane::{filter, find};
    let mut n = 100;
    macro_rules! say {
        ($e:expr) => {{
            n += 1;
            match $e {
                Ok(v) => out.push(format!("{n}: {v:?}")),
                Err(e) => {
                    let e: butane::Error = e;
                    eprintln!("{n}: {e}");
                    out.push(format!("{n}: error {}", e.to_string().replace('\n', " ")));
                }
            }
        }};
    }
    macro_rules! find_a {
        ($e:expr) => {{
            let q = __A__::query().filter($e);
            say!(q.load(c).map(|v| sorted(v.iter().map(show_a).collect())))
        }};
    }
    macro_rules! find_b {
        ($e:expr) => {{
            let q = __B__::query().filter($e);
            say!(q.load(c).map(|v| sorted(v.iter().map(|x| show_b(c, x)).collect())))
        }};
    }
    for mut x in __B__::query().load(c).unwrap_or_default() {
        say!(x.__j__.delete(c));
        x.__g__ = None;
        say!(x.save(c));
    }
    say!(__B__::query().filter(BoolExpr::True).delete(c));
    say!(__A__::query().filter(BoolExpr::True).delete(c));
    let mut aa: Vec<__A__> = (0..4i32)
        .map(|k| __A__ {
            __ka__: same(k, k as i64 + 1),
            __a__: k / 2,
            __b__: format!("text{k}"),
            __c__: if k == 1 { None } else { Some(10 - k as i64) },
            __d__: k == 2,
            __e__: vec![k as u8],
        })
        .collect();
    for x in &mut aa {
        say!(x.save(c));
        out.push(show_a(x));
    }
    let mut again = aa[0].clone();
    again.__ka__ = same(0, 77);
    again.__d__ = true;
    // the same text twice
    out.push(format!("{:?}", again.save(c).is_err()));
    let mut bb: Vec<__B__> = Vec::new();
    for k in 0..3i32 {
        let mut x = __B__ {
            __kb__: other(k as i64 + 1),
            __f__: aa[k as usize].clone().into(),
            __g__: bb.last().map(|b: &__B__| b.clone().into()),
            __h__: k,
            __i__: if k == 0 { None } else { Some(format!("more{k}")) },
            __j__: butane::Many::new(),
        };
        if k > 0 {
            say!(x.save(c));
            say!(x.__j__.add(&aa[k as usize]));
            say!(x.__j__.add(&aa[3]));
        }
        say!(x.save(c));
        bb.push(x);
    }
    say!(all(c));
    // conditions
    find_a!(filter!(__A__, __a__ == 1));
    find_a!(filter!(__A__, __a__ != 1 && __b__ == "text1"));
    find_a!(filter!(__A__, __a__ < 1 || __d__ == true));
    find_a!(filter!(__A__, __b__.like("%3")));
    find_a!(filter!(__A__, __c__ == None));
    find_a!(filter!(__A__, __c__ != None));
    find_a!(filter!(__A__, __c__ == { Some(10) }));
    find_a!(filter!(__A__, __a__.is_in(vec![1, 5])));
    find_a!(filter!(__A__, __e__ == { vec![2u8] }));
    find_a!(filter!(__A__, __ka__ == { aa[1].__ka__.clone() }));
    find_a!(__A__::fields().__a__().ge(&1));
    find_a!(__A__::fields().__c__().eq(&Some(8)));
    find_a!(BoolExpr::Not(std::boxed::Box::new(__A__::fields().__d__().eq(&true))));
    find_b!(filter!(__B__, __f__ == { &aa[1] }));
    find_b!(filter!(__B__, __f__.matches(__a__ == 0)));
    find_b!(filter!(__B__, __f__.matches(__b__.like("text%") && __d__ == false)));
    find_b!(filter!(__B__, __f__.matches(__ka__ == { aa[2].__ka__.clone() })));
    find_b!(filter!(__B__, __g__ == None));
    find_b!(filter!(__B__, __j__.contains(__a__ == 1)));
    find_b!(filter!(__B__, __j__.contains(__b__ == "text1")));
    find_b!(filter!(__B__, __j__.contains(__ka__ == { aa[3].__ka__.clone() })));
    find_b!(filter!(__B__, __j__.contains(__d__ == true) && __h__ > 1));
    find_b!(__B__::fields().__i__().eq(&Some("more2".to_string())));
    find_b!(filter!(__B__, __kb__ == { bb[1].__kb__.clone() }));
    // sorting
    for d in [OrderDirection::Ascending, OrderDirection::Descending] {
        say!(__A__::query().order(__A__::fields().__b__().name(), d.clone()).load(c).map(|v| v.iter().map(show_a).collect::<Vec<_>>()));
        say!(__A__::query().order(__A__::fields().__a__().name(), d.clone()).order_desc(__A__::fields().__ka__().name()).limit(3).offset(1).load(c).map(|v| v.iter().map(show_a).collect::<Vec<_>>()));
        say!(__B__::query().filter(filter!(__B__, __h__ >= 1)).order(__B__::fields().__h__().name(), d.clone()).load_first(c).map(|v| v.iter().map(|x| show_b(c, x)).collect::<Vec<_>>()));
        for x in &bb {
            say!(__B__::get(c, x.__kb__.clone()).and_then(|x| x.__j__.load_ordered(c, d.clone()).map(|i| i.map(show_a).collect::<Vec<_>>())));
        }
    }
    say!(butane::query!(__A__, __a__ == 1).order_asc(__A__::fields().__b__().name()).load_first(c).map(|v| v.map(|x| show_a(&x))));
    say!(find!(__A__, __b__ == "text2", c).map(|x| show_a(&x)));
    say!(Partly::query().order_desc(__A__::fields().__b__().name()).load(c).map(|v| v.iter().map(|p| format!("{:?} {:?}", p.__b__, p.__c__)).collect::<Vec<_>>()));
    say!(butane::query!(Partly, __a__ == 1).order_asc("__b0__").load(c).map(|v| v.iter().map(|p| format!("{:?} {:?}", p.__b__, p.__c__)).collect::<Vec<_>>()));
    say!(__A__::get(c, aa[2].__ka__.clone()).map(|x| show_a(&x)));
    // changes
    aa[1].__a__ = 50;
    aa[1].__c__ = Some(-1);
    say!(aa[1].save(c));
    bb[0].__g__ = Some(bb[2].clone().into());
    bb[0].__i__ = Some("changed".into());
    say!(bb[0].save(c));
    say!(all(c));
    let mut x = match __B__::get(c, bb[1].__kb__.clone()) {
        Ok(x) => x,
        Err(e) => return out.push(format!("error {e}")),
    };
    say!(x.__j__.load(c).map(|i| i.count()));
    x.__j__.remove(&aa[1]);
    say!(x.__j__.save(c));
    say!(bb[2].__j__.set(c, vec![aa[0].clone(), aa[2].clone()]));
    say!(all(c));
    say!(bb[2].__j__.delete(c));
    say!(x.__j__.delete(c));
    {
        let t = match c.transaction() {
            Ok(t) => t,
            Err(e) => return out.push(format!("error {e}")),
        };
        say!(butane::query!(__A__, __a__ == 50).load(&t).map(|v| v.iter().map(show_a).collect::<Vec<_>>()));
        aa[0].__b__ = "other".into();
        say!(aa[0].save(&t));
        say!(t.rollback());
    }
    say!(all(c));
    bb[0].__g__ = None;
    say!(bb[0].save(c));
    say!(bb[2].delete(c));
    say!(filter_delete(c));
    say!(all(c));
    say!(__B__::query().filter(filter!(__B__, __h__ < 100)).delete(c));
    say!(aa[1].delete(c));
    say!(butane::query!(__A__, __b__.like("text%")).delete(c));
    say!(all(c));
    // what the migrations find
    let mut x = __A__ { __ka__: same(0, 500), __a__: 5, __b__: "kept".into(), __c__: Some(3), __d__: true, __e__: vec![9] };
    say!(x.save(c));
    let mut y = __B__ { __kb__: other(500), __f__: (&x).into(), __g__: None, __h__: 9, __i__: Some("kept".into()), __j__: butane::Many::new() };
    say!(y.save(c));
    say!(y.__j__.add(&x));
    say!(y.save(c));
    say!(all(c));
}
fn filter_delete(c: &butane::db::Connection) -> butane::Result<usize> {
    butane::query!(__B__, __h__ == 1 && __i__ == { Some("more1".to_string()) }).delete(c)
}
pub fn run(args: &[String]) -> String {
    let mut out = Vec::new();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
    let backend = butane::db::get_backend(&args[0]).unwrap();
    let mut c = if args[0] == "turso" {
        rt.block_on(backend.connect_async(&args[1])).unwrap().into_sync().unwrap()
    } else {
        backend.connect(&args[1]).unwrap()
    };
    go(&mut c, args, &mut out);
    serde_json::to_string(&out).unwrap()
}
"####;

fn program(q: &Case9) -> String {
    let n = names(q);
    let mut s = PROGRAM.to_string();
    for t in ["TA", "TB"] {
        let a = if n[t].is_empty() { String::new() } else { format!("#[table = {:?}]", n[t]) };
        s = s.replace(&format!("__{t}__"), &a);
    }
    let (ka, kav) = [
        ("AutoPk<i64>", "AutoPk::uninitialized()"),
        ("i64", "k"),
        ("String", "format!(\"key{k}\")"),
        ("AutoPk<i32>", "AutoPk::uninitialized()"),
    ][q.key as usize % 4];
    let (kb, kbv) = [("String", "format!(\"key{k}\")"), ("AutoPk<i64>", "AutoPk::uninitialized()"), ("i32", "k as i32")][q.other as usize % 3];
    let path = |s: &str| s.replace("AutoPk", "butane::AutoPk");
    s = s.replace("pub __ka__: __KA__", &format!("pub __ka__: {ka}")).replace("pub __kb__: __KB__", &format!("pub __kb__: {kb}"));
    s = s.replace("__KA__", &path(ka)).replace("__KB__", &path(kb)).replace("__KAV__", &path(kav)).replace("__KBV__", &path(kbv));
    s = s.replace("__b0__", bare(&n["b"]));
    for (p, _) in PLACES {
        s = s.replace(&format!("__{p}__"), &n[p]);
    }
    s
}

struct Batch {
    cases: Vec<String>,
    built: Built,
    prepared: Mutex<BTreeMap<usize, Result<(), String>>>,
}
fn plain_of(q: &Case9) -> Case9 {
    Case9 { key: q.key, other: q.other, names: BTreeMap::new() }
}
fn id(q: &Case9) -> String {
    serde_json::to_string(q).unwrap()
}
fn batch(tag: &str, v: &[Case9]) -> Batch {
    let mut all: Vec<Case9> = Vec::new();
    for q in v {
        for q in [plain_of(q), q.clone()] {
            if !all.iter().any(|x| id(x) == id(&q)) {
                all.push(q);
            }
        }
    }
    let libs: Vec<String> = all.iter().map(program).collect();
    Batch { cases: all.iter().map(id).collect(), built: build(tag, &libs), prepared: Mutex::default() }
}
/// Makes the migrations: everything, then without some columns, then everything again.
fn prepare(b: &Batch, k: usize, q: &Case9) -> Result<(), String> {
    let mut done = b.prepared.lock().unwrap_or_else(|e| e.into_inner());
    done.entry(k)
        .or_insert_with(|| {
            let n = names(q);
            let mut fs = from_root(b.built.dir(k).join(".butane/migrations"));
            let be = crate::schema::backends();
            let e = |e: butane_core::Error| e.to_string();
            let mut make = |fs: &mut butane_core::migrations::FsMigrations, name: &str| {
                let from = fs.try_latest().map_err(e)?.map(|m| m.name().to_string());
                match fs.create_migration(&be, name, fs.try_latest().map_err(e)?.as_ref()).map_err(e)? {
                    true => Ok(()),
                    false => Err(format!("nothing changes after {from:?}")),
                }
            };
            make(&mut fs, "m1")?;
            let full = fs.current().db().map_err(e)?;
            for (model, table, gone) in [("A", "TA", "c"), ("B", "TB", "i")] {
                let name = if n[table].is_empty() { bare(&n[model]) } else { &n[table] };
                let Some(t) = full.get_table(name) else { return Err(format!("no table {name:?} is recorded: {full:?}")) };
                let mut t = t.clone();
                let was = t.columns.len();
                t.columns.retain(|c| c.name() != bare(&n[gone]));
                if t.columns.len() + 1 != was {
                    return Err(format!("the columns of {name:?} are {:?}", t.columns));
                }
                fs.current().add_modified_table(&t).map_err(e)?;
            }
            make(&mut fs, "m2")?;
            for t in full.tables() {
                fs.current().add_modified_table(t).map_err(e)?;
            }
            make(&mut fs, "m3")
        })
        .clone()
}
fn transcript(env: &Env, b: &Batch, q: &Case9, fl: Fl) -> Result<Vec<String>, String> {
    let k = b.cases.iter().position(|c| *c == id(q)).unwrap();
    if let Some(m) = &b.built.failed[k] {
        return Err(format!("the program does not compile: {m}"));
    }
    prepare(b, k, q)?;
    let cs = if fl.is_pg() {
        env.pg_reset();
        env.pg_conn_str()
    } else {
        ":memory:".into()
    };
    let dir = b.built.dir(k).join(".butane/migrations");
    let s = b.built.run(k, &[fl.backend().into(), cs, dir.to_string_lossy().into_owned()])?;
    Ok(serde_json::from_str(&s).unwrap_or_else(|e| infra!("{e}: {s}")))
}
struct Shared {
    all: Arc<Vec<Case9>>,
    built: std::sync::OnceLock<Batch>,
    plain: Mutex<BTreeMap<(String, Fl), Vec<String>>>,
    one: Mutex<Option<Batch>>,
}
fn run(sh: &Shared, replay: bool, env: &mut Env, q: &Case9, known: bool) -> R {
    let mut o = Obs::new();
    let main = sh.built.get_or_init(|| batch("c09", if replay { &[] } else { &sh.all }));
    if main.cases.contains(&id(q)) {
        check(sh, main, env, q, known)?;
    } else {
        let mut one = sh.one.lock().unwrap_or_else(|e| e.into_inner());
        *one = Some(batch("c09-one", std::slice::from_ref(q)));
        check(sh, one.as_ref().unwrap(), env, q, known)?;
    }
    let n = names(q);
    for (p, plain) in PLACES {
        if n[p] != plain {
            let w = bare(&n[p]).to_lowercase();
            o.label(if SQL.split_whitespace().any(|k| k == w) {
                "an SQL keyword"
            } else if RUST.split_whitespace().any(|k| k == w) {
                "a Rust keyword"
            } else if !w.is_ascii() {
                "not ASCII"
            } else {
                "another name"
            });
        }
    }
    o.nontrivial_if(PLACES.iter().filter(|(p, plain)| n[*p] != *plain).count() >= 4);
    Ok(o)
}
/// Names that Turso itself confuses: known findings, which are looked at on their own.
fn turso_cannot(n: &BTreeMap<String, String>) -> bool {
    n.values().any(|n| bare(n).chars().any(|c| !c.is_ascii() && c.is_uppercase()) || ["rowid", "_rowid_", "oid"].contains(&bare(n).to_lowercase().as_str()))
}
fn check(sh: &Shared, b: &Batch, env: &Env, q: &Case9, known: bool) -> Result<(), Fail> {
    let n = names(q);
    for fl in [Fl::SqS, Fl::PgS, Fl::TuS] {
        if fl.is_tu() && !known && turso_cannot(&n) {
            continue;
        }
        let p = plain_of(q);
        let key = (id(&p), fl);
        let known = sh.plain.lock().unwrap_or_else(|e| e.into_inner()).get(&key).cloned();
        let want = match known {
            Some(w) => w,
            None => match transcript(env, b, &p, fl) {
                Ok(w) => {
                    if let Some(l) = w.iter().find(|l| l.contains("error")) {
                        fail!("plain", "{}: the operations fail under plain names: {l}", fl.name());
                    }
                    sh.plain.lock().unwrap_or_else(|e| e.into_inner()).insert(key, w.clone());
                    w
                }
                Err(m) => fail!("plain", "{}: the operations fail under plain names: {m}", fl.name()),
            },
        };
        match transcript(env, b, q, fl) {
            Err(m) => fail!(format!("{}-broken", fl.backend()), "{}: under the names {n:?}: {m}", fl.name()),
            Ok(got) => {
                if let Some(k) = (0..want.len().max(got.len())).find(|k| got.get(*k) != want.get(*k)) {
                    fail!(
                        format!("{}-differs", fl.backend()),
                        "{}: under the names {n:?} step {k} gives\n{:?}\ninstead of\n{:?}",
                        fl.name(),
                        got.get(k),
                        want.get(k)
                    );
                }
            }
        }
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    for sub in ["turso-not-ascii", "turso-rowid"] {
        let sh = Shared { all: Default::default(), built: Default::default(), plain: Default::default(), one: Default::default() };
        // known findings: nothing is generated
        ctx.explore(sub, "any", 0, s_case, Env::new, |env, q| run(&sh, true, env, q, true));
    }
    let n = ctx.cases(60, 100) as usize;
    for round in 0..if ctx.tier == Tier::Thorough { 12 } else { 1 } {
        let all = Arc::new(draw(mix(ctx.seed, "names", round), &s_case(), n));
        let next = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let sh = Shared { all: all.clone(), built: Default::default(), plain: Default::default(), one: Default::default() };
        ctx.explore(
            "names",
            "four odd names or more",
            n as u32,
            || Drawn(all.clone(), next.clone()).boxed(),
            Env::new,
            |env, q| run(&sh, ctx.replay.is_some(), env, q, false),
        );
    }
}
