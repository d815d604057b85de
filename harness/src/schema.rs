//! Schemas of the static models, obtained by running the model macro's implementation.
use butane_core::codegen;
use butane_core::migrations::adb::ADB;
use butane_core::migrations::{MemMigrations, Migration, Migrations, MigrationsMut};
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, OnceLock};

pub struct Schema {
    pub key: String,
    pub migrations: MemMigrations,
    pub adb: ADB,
    /// In an order in which every table comes after the ones it references.
    pub tables: Vec<String>,
    pub up: BTreeMap<&'static str, String>,
}

fn has_attr(attrs: &[syn::Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}

fn items() -> &'static Vec<(String, bool, String, String)> {
    // (name, is model, source, field-type derive)
    static I: OnceLock<Vec<(String, bool, String, String)>> = OnceLock::new();
    I.get_or_init(|| {
        let file = syn::parse_file(include_str!("models.rs")).unwrap();
        let mut out = Vec::new();
        for it in file.items {
            match it {
                syn::Item::Struct(mut s) if has_attr(&s.attrs, "model") => {
                    s.attrs.retain(|a| !a.path().is_ident("model"));
                    out.push((s.ident.to_string(), true, s.to_token_stream().to_string(), String::new()));
                }
                syn::Item::Struct(s) => out.push((
                    s.ident.to_string(),
                    false,
                    s.to_token_stream().to_string(),
                    s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect(),
                )),
                syn::Item::Enum(s) => out.push((
                    s.ident.to_string(),
                    false,
                    s.to_token_stream().to_string(),
                    s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect(),
                )),
                _ => {}
            }
        }
        out
    })
}

pub const BACKENDS: [&str; 3] = ["sqlite", "pg", "turso"];
pub fn backends() -> nonempty::NonEmpty<Box<dyn butane_core::db::Backend>> {
    nonempty::NonEmpty::from_vec(
        BACKENDS.iter().map(|b| butane_core::db::get_backend(b).unwrap()).collect(),
    )
    .unwrap()
}

/// Schema of the given models (plus `Sentinel`).
pub fn schema(names: &[&str]) -> Arc<Schema> {
    static CACHE: Mutex<BTreeMap<String, Arc<Schema>>> = Mutex::new(BTreeMap::new());
    let key = names.join(",");
    let mut cache = CACHE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(s) = cache.get(&key) {
        return s.clone();
    }
    let mut ms = MemMigrations::new();
    for (name, is_model, src, derives) in items() {
        let ts: TokenStream = src.parse().unwrap();
        if !is_model {
            if derives.contains("FieldType") {
                let _ = run_field_type(ts, derives, &mut ms);
            }
            continue;
        }
        if names.contains(&name.as_str()) || name == "Sentinel" {
            let out = codegen::model_with_migrations(ts, &mut ms).to_string();
            if out.contains("compile_error") {
                crate::infra!("model {name} does not compile: {out}");
            }
        }
    }
    for n in names {
        if !items().iter().any(|i| i.0 == *n) {
            crate::infra!("no model {n}");
        }
    }
    if let Err(e) = ms.create_migration(&backends(), "init", None) {
        crate::infra!("create_migration: {e}");
    }
    let m = ms.latest().unwrap();
    let adb = m.db().unwrap();
    let mut up = BTreeMap::new();
    for b in BACKENDS {
        up.insert(b, m.up_sql(b).unwrap().unwrap());
    }
    let mut tables: Vec<String> = Vec::new();
    let mut left: Vec<_> = adb.tables().cloned().collect();
    while !left.is_empty() {
        let n = left.len();
        left.retain(|t| {
            let ready = t.columns.iter().all(|c| match c.reference() {
                Some(butane_core::migrations::adb::ARef::Literal(l)) => {
                    l.table_name() == t.name || tables.iter().any(|x| x == l.table_name())
                }
                _ => true,
            });
            if ready {
                tables.push(t.name.clone());
            }
            !ready
        });
        if left.len() == n {
            tables.extend(left.drain(..).map(|t| t.name));
        }
    }
    let s = Arc::new(Schema { key: key.clone(), migrations: ms, adb, tables, up });
    cache.insert(key, s.clone());
    s
}

/// Declares the derived field types of models.rs.
pub fn add_types(ms: &mut MemMigrations) {
    for (_, is_model, src, derives) in items() {
        if !is_model && derives.contains("FieldType") {
            let _ = run_field_type(src.parse().unwrap(), derives, ms);
        }
    }
}

fn run_field_type(
    ts: TokenStream,
    _derives: &str,
    ms: &mut MemMigrations,
) -> Result<(), String> {
    use butane_core::migrations::adb::{DeferredSqlType, TypeIdentifier, TypeKey};
    use butane_core::migrations::MigrationMut;
    use butane_core::SqlType;
    let item: syn::Item = syn::parse2(ts).map_err(|e| e.to_string())?;
    let (name, ty) = match item {
        syn::Item::Enum(e) => {
            let unit = e.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit));
            let ty = if unit { SqlType::Text } else { SqlType::Json };
            (e.ident.to_string(), DeferredSqlType::KnownId(TypeIdentifier::Ty(ty)))
        }
        syn::Item::Struct(s) => {
            let name = s.ident.to_string();
            match &s.fields {
                syn::Fields::Unnamed(f) if f.unnamed.len() == 1 => {
                    let syn::Type::Path(p) = &f.unnamed[0].ty else { return Err("type".into()) };
                    match codegen::get_primitive_sql_type(&p.path) {
                        Some(t) => (name, t),
                        None => (name, DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Json))),
                    }
                }
                _ => (name, DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Json))),
            }
        }
        _ => return Err("item".into()),
    };
    ms.current().add_type(TypeKey::CustomType(name), ty).map_err(|e| e.to_string())
}
