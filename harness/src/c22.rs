//! C22: connection strings are generated with what they mean, parsed, extended, saved and used.
use crate::db::*;
use crate::engine::*;
use crate::vals::*;
use crate::{ensure, fail, infra};
use butane_core::db::{self, ConnectionSpec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

// ---- strings of a known form

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Form {
    /// scheme (in some letter case), what follows the colon
    Lite(u8, String),
    Pg(bool, PgUri),
    Kv(Vec<Pair>),
    Turso(u8, String),
    Other(u8, String),
    Path(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PgUri {
    user: Option<(String, Option<String>)>,
    hosts: Vec<(u8, Option<u16>)>,
    db: Option<String>,
    params: Vec<(u8, String)>,
    tail: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    key: u8,
    val: String,
    spaces: u8,
    quote: bool,
}
const SCHEMES: [&str; 4] = ["sqlite:", "file:", "SQLite:", "FILE:"];
const TURSO: [&str; 3] = ["libsql:", "turso:", "LibSql:"];
const OTHER: [&str; 4] = ["other:", "mysql:", "x+y.z-1:", "Other:"];
const HOSTS: [&str; 8] = ["localhost", "h1", "db.example.com", "127.0.0.1", "[::1]", "%2Fvar%2Frun", "h-2", ""];
const KEYS: [&str; 9] =
    ["host", "user", "dbname", "password", "application_name", "options", "connect_timeout", "port", "hostaddr"];
const PARAMS: [&str; 5] = ["application_name", "options", "connect_timeout", "password", "dbname"];

fn enc(s: &str) -> String {
    s.bytes()
        .map(|b| {
            if b.is_ascii_alphanumeric() || b"-._~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }
        })
        .collect()
}
fn pg_key_ok(key: &str, v: &str) -> String {
    match key {
        "connect_timeout" | "port" => (v.len() % 1000 + 1).to_string(),
        "hostaddr" => "127.0.0.1".into(),
        "host" => ["localhost", "/tmp", "h1", "/a b/c"][v.len() % 4].into(),
        _ => v.replace('\0', "0"),
    }
}
impl PgUri {
    fn text(&self) -> String {
        let mut s = String::new();
        if let Some((u, p)) = &self.user {
            s += &enc(u);
            if let Some(p) = p {
                s += ":";
                s += &enc(p);
            }
            s += "@";
        }
        let hosts: Vec<String> = self
            .hosts
            .iter()
            .map(|(h, p)| {
                let h = HOSTS[*h as usize % HOSTS.len()];
                p.map_or(h.to_string(), |p| format!("{h}:{p}"))
            })
            .collect();
        s += &hosts.join(",");
        if let Some(d) = &self.db {
            s += "/";
            s += &enc(d);
        }
        let ps: Vec<String> = self
            .params
            .iter()
            .map(|(k, v)| {
                let k = PARAMS[*k as usize % PARAMS.len()];
                format!("{k}={}", enc(&pg_key_ok(k, v)))
            })
            .collect();
        if !ps.is_empty() {
            s += "?";
            s += &ps.join("&");
        }
        match self.tail % 8 {
            0 if ps.is_empty() => s + "?",
            1 if !ps.is_empty() => s + "&",
            _ => s,
        }
    }
}
impl Form {
    fn text(&self) -> String {
        match self {
            Form::Lite(s, r) => format!("{}{r}", SCHEMES[*s as usize % 4]),
            Form::Pg(long, u) => format!("{}{}", if *long { "postgresql://" } else { "postgres://" }, u.text()),
            Form::Kv(ps) => {
                let mut out = Vec::new();
                for p in ps {
                    let k = KEYS[p.key as usize % KEYS.len()];
                    let v = pg_key_ok(k, &p.val);
                    let plain = !v.is_empty() && !v.contains(|c: char| c.is_whitespace() || c == '\'' || c == '\\');
                    let v = if plain && !p.quote {
                        v
                    } else {
                        format!("'{}'", v.replace('\\', "\\\\").replace('\'', "\\'"))
                    };
                    out.push(match p.spaces % 4 {
                        0 => format!("{k} = {v}"),
                        1 => format!("{k} ={v}"),
                        _ => format!("{k}={v}"),
                    });
                }
                out.join(" ")
            }
            Form::Turso(s, r) => format!("{}{r}", TURSO[*s as usize % 3]),
            Form::Other(s, r) => format!("{}{r}", OTHER[*s as usize % 4]),
            Form::Path(p) => p.clone(),
        }
    }
    /// The backend, and the string it should be given.
    fn means(&self) -> (&'static str, String) {
        match self {
            Form::Lite(_, r) => ("sqlite", format!("file:{r}")),
            Form::Pg(..) | Form::Kv(_) => ("pg", self.text()),
            Form::Turso(s, r) => ("turso", if *s % 3 == 1 { self.text() } else { format!("turso:{r}") }),
            Form::Other(s, _) => (["other", "mysql", "x+y.z-1", "other"][*s as usize % 4], self.text()),
            Form::Path(_) => ("sqlite", self.text()),
        }
    }
}
/// Something that may follow `scheme:` such that it is a URL.
fn s_rest() -> BoxedStrategy<String> {
    let seg = || proptest::sample::select(vec!["a", "foo.db", "..", ".", "x%20y", "ünï", "sqlite:", "b-c_d", "file:x", "libsql:", "p,q", "host=1"]);
    let path = proptest::collection::vec(seg(), 1..4).prop_map(|v| v.join("/"));
    (
        proptest::sample::select(vec!["", "/", "./", "///", "//localhost/"]),
        path,
        proptest::option::of(proptest::collection::vec((s_word(), s_word()), 0..3)),
        proptest::option::weighted(0.15, s_word()),
    )
        .prop_map(|(pre, path, query, frag)| {
            let mut s = format!("{pre}{path}");
            if let Some(q) = query {
                s += "?";
                s += &q.iter().map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join("&");
            }
            if let Some(f) = frag {
                s += "#";
                s += &f;
            }
            s
        })
        .boxed()
}
fn s_word() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z_]{1,6}",
        1 => s_str().prop_map(|s| enc(&s)),
        1 => proptest::sample::select(vec!["mode", "ro", "cache", "shared", "a?b", "a/b", "x%3Dy"]).prop_map(|s| s.to_string()),
    ]
    .boxed()
}
fn s_form() -> BoxedStrategy<Form> {
    use proptest::collection::vec;
    let uri = (
        proptest::option::of((s_str(), proptest::option::of(s_str()))),
        vec((any::<u8>(), proptest::option::of(1u16..)), 0..3),
        proptest::option::of(s_str()),
        vec((any::<u8>(), s_str()), 0..3),
        any::<u8>(),
    )
        .prop_map(|(user, hosts, db, params, tail)| PgUri { user, hosts, db, params, tail });
    let pair = (any::<u8>(), prop_oneof![3 => s_str(), 1 => Just("a://b".to_string()), 1 => Just("it's x=y".to_string())], any::<u8>(), any::<bool>())
        .prop_map(|(key, val, spaces, quote)| Pair { key, val, spaces, quote });
    prop_oneof![
        3 => (any::<u8>(), s_rest()).prop_map(|(a, b)| Form::Lite(a, b)),
        4 => (any::<bool>(), uri).prop_map(|(a, b)| Form::Pg(a, b)),
        4 => (0u8..3, vec(pair, 0..4)).prop_map(|(first, mut v)| {
            // one of the keys that tell
            v.insert(0, Pair { key: first, val: "db".into(), spaces: first, quote: false });
            Form::Kv(v)
        }),
        1 => (any::<u8>(), s_rest()).prop_map(|(a, b)| Form::Turso(a, b)),
        1 => (any::<u8>(), s_rest()).prop_map(|(a, b)| Form::Other(a, b)),
        2 => proptest::sample::select(vec!["", ":memory:", "foo.db", "./foo.db", "/tmp/foo.db", "../a b.db", "foo.db?mode=ro", "ünï.db", "a/b/c", "C", "foo#x", "-x", "/a=b", "%41.db"])
            .prop_map(|s| Form::Path(s.to_string())),
    ]
    .boxed()
}
fn run_forms(_: &mut (), f: &Form) -> R {
    let mut o = Obs::new();
    let text = f.text();
    let (backend, conn) = f.means();
    let spec = match ConnectionSpec::try_from(text.as_str()) {
        Ok(s) => s,
        Err(e) => fail!("parse", "{text:?}: {e}"),
    };
    ensure!(spec.backend_name() == backend, "backend", "{text:?} is for {backend}, and {spec:?}");
    ensure!(*spec.connection_string() == conn, "meaning", "{text:?} should connect with {conn:?}, not {spec:?}");
    ensure!(
        ConnectionSpec::try_from(text.clone()).ok().as_ref() == Some(&spec)
            && ConnectionSpec::try_from(&text).ok().as_ref() == Some(&spec),
        "conversions",
        "the conversions differ for {text:?}"
    );
    // what was understood is understood the same again
    if backend != "turso" || conn.starts_with("turso:") {
        let again = ConnectionSpec::try_from(conn.as_str());
        ensure!(again.as_ref().ok() == Some(&spec), "again", "{conn:?} is {again:?}, not {spec:?}");
    }
    let known = ["sqlite", "pg", "turso"].contains(&backend);
    match spec.get_backend() {
        Ok(b) => ensure!(known && b.name() == backend, "get-backend", "{spec:?} has backend {}", b.name()),
        Err(e) => ensure!(
            !known && matches!(e, butane_core::Error::UnknownBackend(_)),
            "get-backend",
            "{spec:?}: {e}"
        ),
    }
    o.label(match f {
        Form::Lite(..) => "sqlite",
        Form::Pg(_, u) if u.hosts.len() > 1 => "pg, several hosts",
        Form::Pg(..) => "pg uri",
        Form::Kv(_) => "pg pairs",
        Form::Turso(..) => "turso",
        Form::Other(..) => "other",
        Form::Path(_) => "path",
    });
    o.nontrivial_if(!matches!(f, Form::Path(_)));
    Ok(o)
}

// ---- parameters

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PCase {
    form: Form,
    add: Vec<(u8, String, String)>,
}
#[derive(Debug, PartialEq)]
struct UriParts {
    path: String,
    params: Vec<(String, String)>,
    frag: Option<String>,
}
fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && b.get(i + 1..i + 3).is_some_and(|h| h.iter().all(u8::is_ascii_hexdigit)) {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}
fn parts(s: &str) -> UriParts {
    let (s, frag) = match s.split_once('#') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (s, None),
    };
    let (path, query) = s.split_once('?').unwrap_or((s, ""));
    let params = query
        .split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let (a, b) = p.split_once('=').unwrap_or((p, ""));
            (dec(a), dec(b))
        })
        .collect();
    UriParts { path: path.to_string(), params, frag }
}
const PG_ADD: [&str; 8] =
    ["application_name", "dbname", "password", "user", "options", "connect_timeout", "keepalives", "port"];
fn pg_expect(c: &mut tokio_postgres::Config, name: &str, v: &str) {
    match name {
        "application_name" => c.application_name(v),
        "dbname" => c.dbname(v),
        "password" => c.password(v),
        "user" => c.user(v),
        "options" => c.options(v),
        "connect_timeout" => c.connect_timeout(std::time::Duration::from_secs(v.parse().unwrap_or(1))),
        "keepalives" => c.keepalives(v != "0"),
        _ => c.port(v.parse().unwrap_or(1)),
    };
}
fn run_params(_: &mut (), q: &PCase) -> R {
    let mut o = Obs::new();
    let text = q.form.text();
    let mut spec = match ConnectionSpec::try_from(text.as_str()) {
        Ok(s) => s,
        Err(e) => fail!("parse", "{text:?}: {e}"),
    };
    let uri = matches!(q.form, Form::Lite(..) | Form::Turso(..) | Form::Other(..));
    for (sel, name, value) in &q.add {
        let before = spec.clone();
        let pg = matches!(q.form, Form::Pg(..) | Form::Kv(_));
        let (name, value) = if pg {
            let n = PG_ADD[*sel as usize % PG_ADD.len()];
            let v = match n {
                "connect_timeout" | "port" => (value.len() % 900 + 1).to_string(),
                "keepalives" => (value.len() % 2).to_string(),
                _ => value.clone(),
            };
            (n.to_string(), v)
        } else {
            (name.clone(), value.clone())
        };
        let r = spec.add_parameter(&name, &value);
        ensure!(spec.backend_name == before.backend_name, "add-backend", "{before:?} became {spec:?}");
        if let Err(e) = r {
            ensure!(spec == before, "add-refused", "refused ({e}), and {before:?} became {spec:?}");
            let allowed = (uri || pg) && !name.is_empty();
            ensure!(!allowed, "add", "{name:?}={value:?} is refused for {before:?}: {e}");
            o.label("refused");
            continue;
        }
        ensure!(!matches!(q.form, Form::Path(_)), "add-path", "{name:?} added to {before:?}: {spec:?}");
        if pg {
            let Ok(was) = tokio_postgres::Config::from_str(&before.conn_str) else {
                o.label("not understood by the driver");
                continue;
            };
            let mut want = was.clone();
            pg_expect(&mut want, &name, &value);
            match tokio_postgres::Config::from_str(&spec.conn_str) {
                Ok(got) => {
                    ensure!(got == want, "add-meaning", "{name}={value:?} added to {before:?}: {spec:?} means {got:?}, not {want:?}")
                }
                Err(e) => fail!("add-meaning", "{name}={value:?} added to {before:?}: {spec:?}: {e}"),
            }
            o.label(format!("pg {name}"));
            o.nontrivial_if(true);
        } else {
            let mut want = parts(&before.conn_str);
            want.params.push((name.clone(), value.clone()));
            let got = parts(&spec.conn_str);
            ensure!(got == want, "add-meaning", "{name:?}={value:?} added to {before:?}: {spec:?} is {got:?}, not {want:?}");
            o.label("uri");
            o.nontrivial_if(true);
        }
        // it stays for the same backend
        let again = ConnectionSpec::try_from(spec.conn_str.as_str());
        ensure!(again.as_ref().ok() == Some(&spec), "add-again", "{spec:?} is parsed as {again:?}");
    }
    Ok(o)
}

// ---- anything

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ACase {
    text: String,
    backend: String,
    name: String,
    value: String,
}
fn s_any() -> BoxedStrategy<String> {
    let frag = || {
        prop_oneof![
            3 => proptest::sample::select(vec![
                "sqlite", "file", "postgres", "postgresql", "libsql", "turso", ":", "//", "/", "://", "@", "?", "#", "&", "=", "host", "user=",
                "host=", "dbname = ", " ", "\t", "\n", "%", "%2", "%zz", "[", "]", "[::1]", ":99999", ":5432", ",", "'", "\\", "é", "\u{0}", "\u{FEFF}", ":memory:", "..",
            ]).prop_map(|s| s.to_string()),
            1 => s_str(),
        ]
    };
    proptest::collection::vec(frag(), 0..8).prop_map(|v| v.concat()).boxed()
}
fn run_any(_: &mut (), q: &ACase) -> R {
    let mut o = Obs::new();
    let parsed = ConnectionSpec::try_from(q.text.as_str());
    if let Ok(s) = &parsed {
        // at most the scheme is different
        let rest = |s: &str| s.split_once(':').map(|x| x.1.to_string());
        let scheme = |s: &str| s.split_once(':').map(|x| x.0.trim().to_lowercase());
        ensure!(
            s.conn_str == q.text
                || (rest(&s.conn_str) == rest(&q.text)
                    && matches!(scheme(&s.conn_str).as_deref(), Some("file" | "turso" | "sqlite" | "libsql"))),
            "any-meaning",
            "{:?} connects with {:?}",
            q.text,
            s.conn_str
        );
        // nothing PostgreSQL understands by its own scheme goes elsewhere
        if q.text.starts_with("postgres://") || q.text.starts_with("postgresql://") {
            ensure!(s.backend_name == "pg", "any-backend", "{:?} is for {}", q.text, s.backend_name);
            o.label("pg");
        }
        let _ = s.get_backend();
        let _ = s.connection_string_uri();
    }
    for spec in [parsed.ok(), Some(ConnectionSpec::new(q.backend.clone(), q.text.clone()))].into_iter().flatten() {
        let mut s = spec.clone();
        let r = s.add_parameter(&q.name, &q.value);
        match r {
            Ok(()) => {
                ensure!(s.backend_name == spec.backend_name, "any-add", "{spec:?} became {s:?}");
                // everything that was there still is
                let n = spec.conn_str.len();
                let kept = s.conn_str.len() > n
                    && (0..=n).any(|i| {
                        spec.conn_str.is_char_boundary(i)
                            && s.conn_str.starts_with(&spec.conn_str[..i])
                            && s.conn_str.ends_with(&spec.conn_str[i..])
                    });
                ensure!(kept, "any-add", "{spec:?} became {s:?}");
                o.label("added");
            }
            Err(_) => ensure!(s == spec, "any-add", "refused, and {spec:?} became {s:?}"),
        }
    }
    o.nontrivial_if(q.text.len() > 3);
    Ok(o)
}

// ---- saved

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SvCase {
    specs: Vec<(String, String, bool)>,
    /// What the stored file is replaced with.
    bad: Option<String>,
}
fn run_saved(_: &mut (), q: &SvCase) -> R {
    let mut o = Obs::new();
    let dir = fresh_path("c22");
    std::fs::create_dir_all(&dir).unwrap_or_else(|e| infra!("{e}"));
    let _s = Scratch(dir.clone());
    let file = dir.join("spec");
    let (mut in_dir, mut in_file): (Option<ConnectionSpec>, Option<ConnectionSpec>) = (None, None);
    for (b, c, to_dir) in &q.specs {
        let spec = ConnectionSpec::new(b.clone(), c.clone());
        let path = if *to_dir { &dir } else { &file };
        if let Err(e) = spec.save(path) {
            fail!("save", "{spec:?}: {e}");
        }
        *(if *to_dir { &mut in_dir } else { &mut in_file }) = Some(spec);
        for (p, want) in [(&dir, &in_dir), (&file, &in_file)] {
            let got = ConnectionSpec::load(p);
            match want {
                Some(w) => ensure!(got.as_ref().ok() == Some(w), "load", "saved {w:?}, loaded {got:?}"),
                None => ensure!(got.is_err(), "load-none", "nothing was saved and {got:?} loaded"),
            }
        }
        if in_dir.is_some() {
            let got = ConnectionSpec::load(dir.join("connection.json"));
            ensure!(got.as_ref().ok() == in_dir.as_ref(), "load", "by its file: {got:?}");
        }
    }
    if let Some(bad) = &q.bad {
        std::fs::write(&file, bad).unwrap_or_else(|e| infra!("{e}"));
        let got = ConnectionSpec::load(&file);
        let v: Option<serde_json::Value> = serde_json::from_str(bad).ok();
        let want = v.as_ref().and_then(|v| {
            Some(ConnectionSpec::new(v["backend_name"].as_str()?, v["conn_str"].as_str()?))
        });
        if !v.is_some_and(|v| v.is_array()) {
            ensure!(got.is_ok() == want.is_some() && got.ok() == want, "load-bad", "{bad:?}");
        }
        o.label("damaged file");
    }
    o.nontrivial_if(!q.specs.is_empty());
    Ok(o)
}

// ---- used

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Use {
    /// file name, scheme, mode, further parameter
    Lite(String, u8, u8, Option<(String, String)>),
    /// application name, as pairs or URI, database given as a parameter
    Pg(String, bool, bool),
}
fn run_used(env: &mut Env, q: &Use) -> R {
    let mut o = Obs::new();
    match q {
        Use::Lite(name, scheme, mode, more) => {
            let dir = fresh_path("c22");
            std::fs::create_dir_all(&dir).unwrap_or_else(|e| infra!("{e}"));
            let _s = Scratch(dir.clone());
            let name: String = name.chars().filter(|c| *c != '\0' && *c != '/').take(20).collect();
            let name = format!("f{name}");
            let path = dir.join(&name);
            let mode = ["ro", "rw", "rwc", "memory"][*mode as usize % 4];
            let exists = mode != "rwc";
            if exists {
                let c = rusqlite::Connection::open_with_flags(
                    &path,
                    rusqlite::OpenFlags::SQLITE_OPEN_READ_WRITE | rusqlite::OpenFlags::SQLITE_OPEN_CREATE,
                )
                .unwrap_or_else(|e| infra!("{e}"));
                c.execute_batch("CREATE TABLE t (a INTEGER)").unwrap_or_else(|e| infra!("{e}"));
            }
            let text = format!("{}{}/{}", SCHEMES[*scheme as usize % 4], dir.display(), enc(&name));
            let mut spec = match ConnectionSpec::try_from(text.as_str()) {
                Ok(s) => s,
                Err(e) => fail!("parse", "{text:?}: {e}"),
            };
            if let Some((n, v)) = more {
                let n = format!("x{}", n.replace('\0', ""));
                if let Err(e) = spec.add_parameter(&n, &v.replace('\0', "")) {
                    fail!("add", "{n:?} to {spec:?}: {e}");
                }
            }
            if let Err(e) = spec.add_parameter("mode", mode) {
                fail!("add", "mode to {spec:?}: {e}");
            }
            let conn = match db::connect(&spec) {
                Ok(c) => c,
                // opening sets nothing in the file
                Err(e) => fail!("use", "{spec:?} (from {text:?}): {e}"),
            };
            use butane_core::db::{BackendConnection, ConnectionMethods};
            let has = conn.has_table("t").map_err(|e| Fail::new("use", e.to_string()))?;
            ensure!(has == (exists && mode != "memory"), "use-file", "{spec:?}: the table is there: {has}");
            let wrote = conn.execute("CREATE TABLE u (a INTEGER)").is_ok();
            ensure!(wrote == (mode != "ro"), "use-mode", "{spec:?}: could write: {wrote}");
            ensure!(conn.backend_name() == "sqlite", "use-backend", "{}", conn.backend_name());
            drop(conn);
            let files: Vec<_> = std::fs::read_dir(&dir)
                .map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect())
                .unwrap_or_default();
            let want: Vec<String> = if exists || mode == "rwc" { vec![name.clone()] } else { vec![] };
            ensure!(files == want, "use-file", "{spec:?}: files {files:?}, not {want:?}");
            o.label(mode);
            o.nontrivial_if(true);
        }
        Use::Pg(app, uri, dbparam) => {
            // what the server shows: printable ASCII, less than 64 bytes
            let app: String = app.chars().filter(|c| (' '..='~').contains(c)).take(60).collect();
            let base = env.pg_conn_str();
            let get = |k: &str| {
                base.split_whitespace().find_map(|p| p.strip_prefix(&format!("{k}="))).map(|s| s.trim_matches('\'').to_string())
            };
            let (Some(host), Some(dbname)) = (get("host"), get("dbname")) else { infra!("{base:?}") };
            let user = get("user").unwrap_or("postgres".into());
            let text = match (uri, dbparam) {
                (true, true) => format!("postgresql://{user}@{}", enc(&host)),
                (true, false) => format!("postgres://{user}@{}/{}", enc(&host), enc(&dbname)),
                (false, true) => format!("host={host} user={user}"),
                (false, false) => format!("host={host} user={user} dbname={dbname}"),
            };
            let text = match get("port") {
                Some(p) if *uri && !dbparam => text + "?port=" + &p,
                Some(p) if !*uri => text + " port=" + &p,
                Some(p) => text + "?port=" + &p,
                None => text,
            };
            let mut spec = match ConnectionSpec::try_from(text.as_str()) {
                Ok(s) => s,
                Err(e) => fail!("parse", "{text:?}: {e}"),
            };
            if let Err(e) = spec.add_parameter("application_name", &app) {
                fail!("add", "{app:?} to {spec:?}: {e}");
            }
            if *dbparam {
                if let Err(e) = spec.add_parameter("dbname", &dbname) {
                    fail!("add", "{dbname:?} to {spec:?}: {e}");
                }
            }
            let d = match env.connect(Fl::PgA, &spec.conn_str) {
                Ok(d) => d,
                Err(e) => fail!("use", "{spec:?} (from {text:?}): {e}"),
            };
            let cols = [
                db::Column::new("setting", butane_core::SqlType::Text),
            ];
            let expr = butane_core::query::BoolExpr::Eq(
                "name",
                butane_core::query::Expr::Val(butane_core::SqlVal::Text("application_name".into())),
            );
            let rows = d
                .c()
                .query("pg_settings", &cols, Some(expr), None, None, None)
                .map_err(|e| Fail::new("use", format!("{spec:?}: {e}")))?;
            let want = vec![vec![butane_core::SqlVal::Text(app.clone())]];
            ensure!(rows == want, "use-setting", "{spec:?}: the application name is {rows:?}, not {app:?}");
            o.label("pg");
            o.nontrivial_if(true);
        }
    }
    Ok(o)
}

pub fn c22(ctx: &Ctx) {
    ctx.explore("forms", "the string has a scheme or keys", ctx.cases(15000, 1000000), s_form, |_| (), run_forms);
    ctx.explore(
        "parameters",
        "a parameter was added and its meaning checked",
        ctx.cases(15000, 1000000),
        || {
            (s_form(), proptest::collection::vec((any::<u8>(), s_str(), prop_oneof![3 => s_str(), 1 => "[a-z0-9]{1,8}"]), 1..4))
                .prop_map(|(form, add)| PCase { form, add })
                .boxed()
        },
        |_| (),
        run_params,
    );
    ctx.explore(
        "anything",
        "more than three characters",
        ctx.cases(30000, 2000000),
        || {
            (s_any(), prop_oneof![Just("pg".to_string()), Just("sqlite".to_string()), s_str()], s_str(), s_str())
                .prop_map(|(text, backend, name, value)| ACase { text, backend, name, value })
                .boxed()
        },
        |_| (),
        run_any,
    );
    ctx.explore(
        "saved",
        "something was saved",
        ctx.cases(4000, 200000),
        || {
            (
                proptest::collection::vec((s_str(), s_str(), any::<bool>()), 1..5),
                proptest::option::of(prop_oneof![
                    s_str(),
                    (s_str(), s_str()).prop_map(|(a, b)| serde_json::json!({"backend_name": a, "conn_str": b}).to_string()),
                    s_json().prop_map(|j| j.to_string()),
                    (s_str(), s_json()).prop_map(|(a, b)| serde_json::json!({"backend_name": a, "conn_str": b}).to_string()),
                ]),
            )
                .prop_map(|(specs, bad)| SvCase { specs, bad })
                .boxed()
        },
        |_| (),
        run_saved,
    );
    ctx.explore(
        "used",
        "a connection was made",
        ctx.cases(1500, 30000),
        || {
            prop_oneof![
                3 => (s_str(), any::<u8>(), any::<u8>(), proptest::option::of((s_str(), s_str())))
                    .prop_map(|(a, b, c, d)| Use::Lite(a, b, c, d)),
                1 => (s_str(), any::<bool>(), any::<bool>()).prop_map(|(a, b, c)| Use::Pg(a, b, c)),
            ]
            .boxed()
        },
        Env::new,
        run_used,
    );
}
