From 478a79767c3b0fa4c1371c89a1cb7932b4b66338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:44 +0000
Subject: [PATCH 01/74] fix: quote column names in conditions

Columns named by a reserved word were quoted everywhere except in comparisons, so filtering
on them produced invalid SQL.
---
 butane_core/src/db/helper.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b141d48..3632d41 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -55,18 +55,27 @@ where
         Condition(c) => match *c {
             True => write!(w, "TRUE"),
             Eq(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NULL"),
-                _ => write!(w, "{col} = ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} = ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
             Ne(col, ex) => match ex {
-                Expr::Val(SqlVal::Null) => write!(w, "{col} IS NOT NULL"),
-                _ => write!(w, "{col} <> ").and_then(|_| Ok(f(ex, values, pls, w))),
+                Expr::Val(SqlVal::Null) => write!(w, "{} IS NOT NULL", quote_reserved_word(col)),
+                _ => write!(w, "{} <> ", quote_reserved_word(col))
+                    .and_then(|_| Ok(f(ex, values, pls, w))),
             },
-            Lt(col, ex) => write!(w, "{col} < ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Gt(col, ex) => write!(w, "{col} > ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Le(col, ex) => write!(w, "{col} <= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Ge(col, ex) => write!(w, "{col} >= ").and_then(|_| Ok(f(ex, values, pls, w))),
-            Like(col, ex) => write!(w, "{col} like ").and_then(|_| Ok(f(ex, values, pls, w))),
+            Lt(col, ex) => {
+                write!(w, "{} < ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Gt(col, ex) => {
+                write!(w, "{} > ", quote_reserved_word(col)).and_then(|_| Ok(f(ex, values, pls, w)))
+            }
+            Le(col, ex) => write!(w, "{} <= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Ge(col, ex) => write!(w, "{} >= ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
+            Like(col, ex) => write!(w, "{} like ", quote_reserved_word(col))
+                .and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
                 let mut remaining = conds.len();
                 for cond in conds {
@@ -294,7 +303,7 @@ pub(crate) fn sql_column(col: query::Column, w: &mut impl Write) {
             quote_reserved_word(table),
             quote_reserved_word(col.name())
         ),
-        None => w.write_str(col.name()),
+        None => w.write_str(&quote_reserved_word(col.name())),
     }
     .unwrap()
 }
-- 
2.43.0


From 0910f88389bf9d9b12ad174a290cd0f769d36bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 02/74] fix: keep the nesting of and/or/not conditions in SQL

A condition tree was written without parentheses, so e.g. And(Or(a, b), c) was evaluated as
a OR (b AND c), and Not(And(a, b)) as (NOT a) AND b. An empty AllOf produced invalid SQL.
---
 butane_core/src/db/helper.rs | 39 ++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 3632d41..665897d 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -78,9 +78,13 @@ where
                 .and_then(|_| Ok(f(ex, values, pls, w))),
             AllOf(conds) => {
                 let mut remaining = conds.len();
+                if conds.is_empty() {
+                    // An empty conjunction holds for every row
+                    w.write_str("TRUE").unwrap();
+                }
                 for cond in conds {
                     // future perf improvement: figure out a clean way to avoid the extra boxing
-                    f(Condition(Box::new(cond)), values, pls, w);
+                    sql_for_operand(Box::new(cond), &f, values, pls, w);
                     if remaining > 1 {
                         write!(w, " AND ").unwrap();
                         remaining -= 1;
@@ -89,18 +93,18 @@ where
                 Ok(())
             }
             And(a, b) => {
-                f(Condition(a), values, pls, w);
+                sql_for_operand(a, &f, values, pls, w);
                 write!(w, " AND ").unwrap();
-                f(Condition(b), values, pls, w);
+                sql_for_operand(b, &f, values, pls, w);
                 Ok(())
             }
             Or(a, b) => {
-                f(Condition(a), values, pls, w);
+                sql_for_operand(a, &f, values, pls, w);
                 write!(w, " OR ").unwrap();
-                f(Condition(b), values, pls, w);
+                sql_for_operand(b, &f, values, pls, w);
                 Ok(())
             }
-            Not(a) => write!(w, "NOT ").and_then(|_| Ok(f(Condition(a), values, pls, w))),
+            Not(a) => write!(w, "NOT ").and_then(|_| Ok(sql_for_operand(a, &f, values, pls, w))),
             Subquery {
                 col,
                 tbl2,
@@ -153,6 +157,29 @@ where
     .unwrap()
 }
 
+/// Writes to `w` the SQL for a condition which is an operand of another one, parenthesized
+/// if its own operator might otherwise bind less tightly than the one it is an operand of.
+fn sql_for_operand<F, P, W>(
+    expr: Box<query::BoolExpr>,
+    f: &F,
+    values: &mut Vec<SqlVal>,
+    pls: &mut P,
+    w: &mut W,
+) where
+    F: Fn(Expr, &mut Vec<SqlVal>, &mut P, &mut W),
+    P: PlaceholderSource,
+    W: Write,
+{
+    let compound = matches!(*expr, And(..) | Or(..) | AllOf(_));
+    if compound {
+        w.write_str("(").unwrap();
+    }
+    f(Condition(expr), values, pls, w);
+    if compound {
+        w.write_str(")").unwrap();
+    }
+}
+
 pub fn sql_select(columns: &[Column], table: &str, w: &mut impl Write) {
     write!(w, "SELECT ").unwrap();
     list_columns(columns, w);
-- 
2.43.0


From 5bfaa6ebff7875065e18960d6969c561c3bdf2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 03/74] fix: a membership test in an empty list selects nothing

PostgreSQL rejects an empty IN list as a syntax error.
---
 butane_core/src/db/helper.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 665897d..5cff086 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -140,6 +140,8 @@ where
                 write!(w, ")").unwrap();
                 Ok(())
             }
+            // No value is a member of the empty set, and some databases reject an empty list
+            In(_, vals) if vals.is_empty() => write!(w, "FALSE"),
             In(col, vals) => {
                 write!(w, "{} IN (", quote_reserved_word(col)).unwrap();
                 let mut remaining = vals.len();
-- 
2.43.0


From bf347b613ee4cc300675935324d0669d22c6c45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:45 +0000
Subject: [PATCH 04/74] fix: compare JSON columns with JSONB parameters on
 PostgreSQL

JSON columns are created as JSONB, which cannot be compared with a JSON parameter.
---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ce1accb..fd627a0 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -921,7 +921,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
         Some(SqlType::Text) => postgres::types::Type::TEXT,
         Some(SqlType::Blob) => postgres::types::Type::BYTEA,
         #[cfg(feature = "json")]
-        Some(SqlType::Json) => postgres::types::Type::JSON,
+        Some(SqlType::Json) => postgres::types::Type::JSONB,
         #[cfg(feature = "datetime")]
         Some(SqlType::Date) => postgres::types::Type::DATE,
         #[cfg(feature = "datetime")]
-- 
2.43.0


From 8e84ee25270241eb2ca70c485e96eacfc2016426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:36 +0000
Subject: [PATCH 05/74] fix: loading the first result respects a limit of zero

---
 butane_core/src/query/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/query/mod.rs b/butane_core/src/query/mod.rs
index 9c3dd12..f008fec 100644
--- a/butane_core/src/query/mod.rs
+++ b/butane_core/src/query/mod.rs
@@ -276,7 +276,8 @@ pub trait QueryOps<T> {
 )]
 impl<T: DataResult> QueryOps<T> for Query<T> {
     async fn load_first(self, conn: &impl ConnectionMethods) -> Result<Option<T>> {
-        QueryOpsInternal::fetch(self, conn, Some(1))
+        let limit = self.limit.map_or(1, |limit| limit.min(1));
+        QueryOpsInternal::fetch(self, conn, Some(limit))
             .await?
             .mapped(T::from_row)
             .nth(0)
-- 
2.43.0


From 203e6b69edc9d2a49b8e02ad1a3b23ce60ef165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:59 +0000
Subject: [PATCH 06/74] fix: refuse NaN on SQLite and Turso instead of storing
 NULL

---
 butane_core/src/db/sqlite.rs | 18 ++++++++++++-----
 butane_core/src/db/turso.rs  | 38 ++++++++++++++++++++++++------------
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index ec0c987..4a0c0e2 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -500,23 +500,31 @@ impl<'c> BackendTransaction<'c> for SqliteTransaction<'c> {
 
 impl rusqlite::ToSql for SqlVal {
     fn to_sql(&self) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'_>> {
-        Ok(sqlvalref_to_sqlite(&self.as_ref()))
+        sqlvalref_to_sqlite(&self.as_ref())
     }
 }
 
 impl<'a> rusqlite::ToSql for SqlValRef<'a> {
     fn to_sql<'b>(&'b self) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'a>> {
-        Ok(sqlvalref_to_sqlite(self))
+        sqlvalref_to_sqlite(self)
     }
 }
 
-fn sqlvalref_to_sqlite<'a>(valref: &SqlValRef<'a>) -> rusqlite::types::ToSqlOutput<'a> {
+fn sqlvalref_to_sqlite<'a>(
+    valref: &SqlValRef<'a>,
+) -> rusqlite::Result<rusqlite::types::ToSqlOutput<'a>> {
     use rusqlite::types::{ToSqlOutput::Borrowed, ToSqlOutput::Owned, Value, ValueRef};
     use SqlValRef::*;
-    match valref {
+    Ok(match valref {
         Bool(b) => Owned(Value::Integer(*b as i64)),
         Int(i) => Owned(Value::Integer(*i as i64)),
         BigInt(i) => Owned(Value::Integer(*i)),
+        // SQLite would silently store NULL
+        Real(r) if r.is_nan() => {
+            return Err(rusqlite::Error::ToSqlConversionFailure(Box::new(
+                Error::OutOfRange,
+            )))
+        }
         Real(r) => Owned(Value::Real(*r)),
         Text(t) => Borrowed(ValueRef::Text(t.as_bytes())),
         Blob(b) => Borrowed(ValueRef::Blob(b)),
@@ -537,7 +545,7 @@ fn sqlvalref_to_sqlite<'a>(valref: &SqlValRef<'a>) -> rusqlite::types::ToSqlOutp
         Null => Owned(Value::Null),
         #[cfg(feature = "pg")]
         Custom(_) => panic!("Custom types not supported in sqlite"),
-    }
+    })
 }
 
 #[pin_project]
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 38635c5..84f3f49 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -272,7 +272,7 @@ impl TursoConnection {
         let params: Vec<turso::Value> = values
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
-            .collect();
+            .collect::<Result<_>>()?;
 
         let mut rows = self
             .conn()?
@@ -387,7 +387,7 @@ impl ConnectionMethods for TursoConnection {
         let params: Vec<turso::Value> = values
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
-            .collect();
+            .collect::<Result<_>>()?;
         let mut rows = self
             .conn()?
             .query(&sqlquery, params)
@@ -435,7 +435,10 @@ impl ConnectionMethods for TursoConnection {
             debug!("values {values:?}");
         }
 
-        let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
+        let params: Vec<turso::Value> = values
+            .iter()
+            .map(|v| sqlval_to_turso(v))
+            .collect::<Result<_>>()?;
         self.conn()?
             .execute(&sql, params)
             .await
@@ -479,7 +482,10 @@ impl ConnectionMethods for TursoConnection {
             &mut TursoPlaceholderSource::new(),
             &mut sql,
         );
-        let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
+        let params: Vec<turso::Value> = values
+            .iter()
+            .map(|v| sqlval_to_turso(v))
+            .collect::<Result<_>>()?;
         self.conn()?
             .execute(&sql, params)
             .await
@@ -496,7 +502,10 @@ impl ConnectionMethods for TursoConnection {
     ) -> Result<()> {
         let mut sql = String::new();
         sql_insert_or_update(table, columns, pkcol, &mut sql);
-        let params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
+        let params: Vec<turso::Value> = values
+            .iter()
+            .map(|v| sqlval_to_turso(v))
+            .collect::<Result<_>>()?;
         self.conn()?
             .execute(&sql, params)
             .await
@@ -520,8 +529,11 @@ impl ConnectionMethods for TursoConnection {
             &mut TursoPlaceholderSource::new(),
             &mut sql,
         );
-        let mut params: Vec<turso::Value> = values.iter().map(|v| sqlval_to_turso(v)).collect();
-        params.push(sqlval_to_turso(&pk));
+        let mut params: Vec<turso::Value> = values
+            .iter()
+            .map(|v| sqlval_to_turso(v))
+            .collect::<Result<_>>()?;
+        params.push(sqlval_to_turso(&pk)?);
         self.conn()?
             .execute(&sql, params)
             .await
@@ -535,7 +547,7 @@ impl ConnectionMethods for TursoConnection {
             helper::quote_reserved_word(table),
             helper::quote_reserved_word(pkcol)
         );
-        let params = vec![sqlval_to_turso(&pk.as_ref())];
+        let params = vec![sqlval_to_turso(&pk.as_ref())?];
         self.conn()?
             .execute(&sql, params)
             .await
@@ -556,7 +568,7 @@ impl ConnectionMethods for TursoConnection {
         let params: Vec<turso::Value> = values
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
-            .collect();
+            .collect::<Result<_>>()?;
         let rows_affected = self
             .conn()?
             .execute(&sql, params)
@@ -752,12 +764,14 @@ impl<'c> Drop for TursoTransaction<'c> {
 }
 
 // Value conversion functions
-fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
+fn sqlval_to_turso(val: &SqlValRef<'_>) -> Result<turso::Value> {
     use SqlValRef::*;
-    match val {
+    Ok(match val {
         Bool(b) => turso::Value::Integer(*b as i64),
         Int(i) => turso::Value::Integer(*i as i64),
         BigInt(i) => turso::Value::Integer(*i),
+        // The database would silently store NULL
+        Real(r) if r.is_nan() => return Err(Error::OutOfRange),
         Real(r) => turso::Value::Real(*r),
         Text(t) => turso::Value::Text(t.to_string()),
         Blob(b) => turso::Value::Blob(b.to_vec()),
@@ -776,7 +790,7 @@ fn sqlval_to_turso(val: &SqlValRef<'_>) -> turso::Value {
         Null => turso::Value::Null,
         #[cfg(feature = "pg")]
         Custom(_) => panic!("Custom types not supported in turso"),
-    }
+    })
 }
 
 fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVal> {
-- 
2.43.0


From 31e92029c785dc20cf8fd5a62c65b7cfac4faf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 07/74] fix: displaying a JSON value that is not a string no
 longer panics

---
 butane_core/src/sqlval.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 2047b4c..75d4f4a 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -196,7 +196,10 @@ impl fmt::Display for SqlVal {
             Text(val) => val.fmt(f),
             Blob(val) => f.write_str(&hex::encode(val)),
             #[cfg(feature = "json")]
-            Json(val) => f.write_str(val.as_str().unwrap()),
+            Json(val) => match val.as_str() {
+                Some(text) => f.write_str(text),
+                None => val.fmt(f),
+            },
             #[cfg(feature = "datetime")]
             Date(val) => val.format("%Y-%m-%d").fmt(f),
             #[cfg(feature = "datetime")]
-- 
2.43.0


From 1287bbe0953436cb7f0a99bdb0de01369ff63648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 08/74] fix: a number too large for its field type is an error,
 not another number

---
 butane_core/src/sqlval.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 75d4f4a..6abf50d 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -371,17 +371,14 @@ macro_rules! impl_basic_from_sql {
         impl FromSql for $prim {
             fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
                 if let SqlValRef::$variant(val) = valref {
-                    Ok(val as $prim)
+                    // The type may be narrower than its database representation.
+                    <$prim>::try_from(val).or_else(|_| sql_conv_err!(valref, $sqltype))
                 } else {
                     sql_conv_err!(valref, $sqltype)
                 }
             }
             fn from_sql(val: SqlVal) -> Result<Self> {
-                if let SqlVal::$variant(val) = val {
-                    Ok(val as $prim)
-                } else {
-                    sql_conv_err!(val, $sqltype)
-                }
+                Self::from_sql_ref(val.as_ref())
             }
         }
     };
@@ -393,6 +390,12 @@ macro_rules! impl_prim_sql {
     };
     ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
         impl_basic_from_sql!($prim, $variant, $sqltype);
+        impl_prim_to_sql!($prim, $variant, $sqltype, $reftype);
+    };
+}
+
+macro_rules! impl_prim_to_sql {
+    ($prim:ty, $variant:ident, $sqltype:ident, $reftype: ty) => {
         impl ToSql for $prim {
             fn to_sql(&self) -> SqlVal {
                 self.clone().into_sql()
@@ -423,7 +426,13 @@ impl_prim_sql!(i16, Int, Int);
 impl_prim_sql!(u8, Int, Int);
 impl_prim_sql!(i8, Int, Int);
 impl_prim_sql!(f64, Real, Real);
-impl_prim_sql!(f32, Real, Real);
+impl_prim_to_sql!(f32, Real, Real, f32);
+
+impl FromSql for f32 {
+    fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
+        f64::from_sql_ref(valref).map(|val| val as f32)
+    }
+}
 
 impl FromSql for String {
     fn from_sql_ref(valref: SqlValRef) -> Result<Self> {
-- 
2.43.0


From 3998db097ac9ecbfbfbabeb12d3cd6afca3f5083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 09/74] fix: a stored JSON map with unexpected values is an
 error, not a panic

---
 butane_core/src/sqlval.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 6abf50d..6fa11c9 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -558,10 +558,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
+            return m
                 .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<HashMap<String, T>>());
+                .map(|(k, v)| Ok((k.to_owned(), T::deserialize(v)?)))
+                .collect();
         }
         sql_conv_err!(val, Json)
     }
@@ -597,10 +597,10 @@ where
 {
     fn from_sql_ref(val: SqlValRef) -> Result<Self> {
         if let SqlValRef::Json(serde_json::Value::Object(m)) = val {
-            return Ok(m
+            return m
                 .iter()
-                .map(|(k, v)| (k.to_owned(), T::deserialize(v).unwrap()))
-                .collect::<BTreeMap<String, T>>());
+                .map(|(k, v)| Ok((k.to_owned(), T::deserialize(v)?)))
+                .collect();
         }
         sql_conv_err!(val, Json)
     }
-- 
2.43.0


From 9fc633712ea78679b6f92b5a344a1e01a2128f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 10/74] fix: stored JSON that does not fit a derived type is an
 error, not a panic

---
 butane_codegen/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index ba0b92d..f1e0486 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -461,7 +461,7 @@ fn derive_field_type_with_json(struct_name: &Ident) -> TokenStream2 {
             fn from_sql_ref(val: butane::SqlValRef) -> std::result::Result<Self, butane::Error> {
                 if let butane::SqlValRef::Json(v) = val {
                     use ::serde::Deserialize;
-                    return Ok(#struct_name::deserialize(v).unwrap());
+                    return Ok(#struct_name::deserialize(v)?);
                 }
                 Err(butane::Error::CannotConvertSqlVal(
                     butane::SqlType::Json,
-- 
2.43.0


From 2cd49b65617b62968bd2964246a3ea081e1b2495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 11/74] fix: comparing a foreign key with a reference to an
 unsaved object no longer panics

---
 butane_core/src/fkey.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/butane_core/src/fkey.rs b/butane_core/src/fkey.rs
index 532cac4..e62b32d 100644
--- a/butane_core/src/fkey.rs
+++ b/butane_core/src/fkey.rs
@@ -201,13 +201,7 @@ where
     T: DataObject,
 {
     fn eq(&self, other: &U) -> bool {
-        match self.val.get() {
-            Some(t) => t.pk().eq(&other.as_pk()),
-            None => match self.valpk.get() {
-                Some(valpk) => valpk.eq(&other.as_pk().to_sql()),
-                None => panic!("Invalid foreign key state"),
-            },
-        }
+        self.pk().eq(&other.as_pk())
     }
 }
 
-- 
2.43.0


From 94c8156ef37e9741003290ae7f1d9b95fa31a81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 12/74] fix: displaying a timestamp value no longer panics

---
 butane_core/src/sqlval.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/sqlval.rs b/butane_core/src/sqlval.rs
index 6fa11c9..4bdb5c7 100644
--- a/butane_core/src/sqlval.rs
+++ b/butane_core/src/sqlval.rs
@@ -203,7 +203,7 @@ impl fmt::Display for SqlVal {
             #[cfg(feature = "datetime")]
             Date(val) => val.format("%Y-%m-%d").fmt(f),
             #[cfg(feature = "datetime")]
-            Timestamp(val) => val.format("%+").fmt(f),
+            Timestamp(val) => val.format("%Y-%m-%dT%H:%M:%S%.f").fmt(f),
             #[cfg(feature = "pg")]
             Custom(val) => val.fmt(f),
         }
-- 
2.43.0


From e6e093430462e9bc081b95de8e7685425964a2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:01 +0000
Subject: [PATCH 13/74] fix: a delete with a condition on a relation works on
 Turso

---
 butane_core/src/db/turso.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 84f3f49..ec70abe 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -556,6 +556,8 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn delete_where(&self, table: &str, expr: BoolExpr) -> Result<usize> {
+        // Transform Subquery expressions since Turso doesn't support them
+        let expr = self.transform_subqueries(expr).await?;
         let mut sql = format!("DELETE FROM {}", helper::quote_reserved_word(table));
         let mut values: Vec<SqlVal> = Vec::new();
         sql.write_str(" WHERE ").unwrap();
-- 
2.43.0


From dc2417fc351a38d04e191239a21668e58182aff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:32 +0000
Subject: [PATCH 14/74] fix: conditions through two relations work on Turso

---
 butane_core/src/db/turso.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index ec70abe..3d8c7e7 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -218,6 +218,8 @@ impl TursoConnection {
         tbl2_col: &'static str,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The inner condition may itself contain subqueries.
+        let inner_expr = Box::new(Box::pin(self.transform_subqueries(*inner_expr)).await?);
         let mut sql = format!(
             "SELECT DISTINCT {} FROM {} WHERE ",
             helper::quote_reserved_word(tbl2_col),
@@ -244,6 +246,8 @@ impl TursoConnection {
         joins: Vec<query::Join>,
         inner_expr: Box<BoolExpr>,
     ) -> Result<BoolExpr> {
+        // The inner condition may itself contain subqueries.
+        let inner_expr = Box::new(Box::pin(self.transform_subqueries(*inner_expr)).await?);
         let mut sql = String::new();
         write!(&mut sql, "SELECT DISTINCT ").unwrap();
         helper::sql_column(col2, &mut sql);
-- 
2.43.0


From 0f36268fc300076d615808eab88dffdfd6b1c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 15/74] fix: removing many-to-many links does not touch other
 owners' links

---
 butane_core/src/many.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 17de3bd..5adb748 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -260,7 +260,13 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
-                BoolExpr::In("has", std::mem::take(&mut self.removed_values)),
+                BoolExpr::And(
+                    Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
+                    Box::new(BoolExpr::In(
+                        "has",
+                        std::mem::take(&mut self.removed_values),
+                    )),
+                ),
             )
             .await?;
         }
-- 
2.43.0


From 2924893ae5ea776d53887b7107c83376a94adaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 16/74] fix: loading a many-to-many field leaves out values
 removed but not yet saved

---
 butane_core/src/many.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 5adb748..ad17d6c 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -160,6 +160,10 @@ where
                 .await?,
         );
     }
+    // Likewise leave out the values whose removal isn't saved to the db yet
+    if !many.removed_values.is_empty() {
+        vals.retain(|val| !many.removed_values.contains(&val.pk().to_sql()));
+    }
     Ok(vals)
 }
 
-- 
2.43.0


From 70580e39fbe0327055ebf2a258aefacd44259244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 17/74] fix: a failed save of a many-to-many field keeps its
 unsaved changes

---
 butane_core/src/many.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index ad17d6c..f9c9602 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -250,31 +250,27 @@ pub trait ManyOps<T: DataObject> {
 impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
-        while !self.new_values.is_empty() {
+        // Forget a change only once it has succeeded, so that a failed save may be retried.
+        while let Some(new_value) = self.new_values.last() {
             conn.insert_only(
                 &self.item_table,
                 &self.columns(),
-                &[
-                    owner.as_ref(),
-                    self.new_values.pop().unwrap().as_ref().clone(),
-                ],
+                &[owner.as_ref(), new_value.as_ref()],
             )
             .await?;
+            self.new_values.pop();
         }
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
                 BoolExpr::And(
                     Box::new(BoolExpr::Eq("owner", Expr::Val(owner.clone()))),
-                    Box::new(BoolExpr::In(
-                        "has",
-                        std::mem::take(&mut self.removed_values),
-                    )),
+                    Box::new(BoolExpr::In("has", self.removed_values.clone())),
                 ),
             )
             .await?;
+            self.removed_values.clear();
         }
-        self.new_values.clear();
         Ok(())
     }
 
-- 
2.43.0


From 1f99b3c6ef99732bb38f441a58c6b714934e4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 18/74] fix: a copied many-to-many field belongs to the object
 it is saved with

---
 butane_core/src/many.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index f9c9602..b8dcac1 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -64,7 +64,8 @@ where
 
     /// Used by macro-generated code. You do not need to call this directly.
     pub fn ensure_init(&mut self, item_table: &'static str, owner: SqlVal, owner_type: SqlType) {
-        if self.owner.is_some() {
+        // A copy of another object's field still refers to that object.
+        if self.owner.as_ref() == Some(&owner) && self.item_table == item_table {
             return;
         }
         self.item_table = Cow::Borrowed(item_table);
-- 
2.43.0


From b2642606919b96187bfac087f31ed468e2242fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:02 +0000
Subject: [PATCH 19/74] fix: load_ordered orders many-to-many values that were
 loaded before or are not saved yet

---
 butane_core/src/many.rs | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index b8dcac1..5799dfd 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -192,6 +192,31 @@ where
         .map(|v| v.iter())
 }
 
+/// Sorts loaded values the way the database orders their primary keys.
+#[maybe_async_cfg::maybe(
+    idents(ConnectionMethods(sync, async = "ConnectionMethodsAsync"), QueryOps),
+    sync(),
+    async(feature = "async")
+)]
+async fn order_values<'a, T>(
+    mut vals: Vec<&'a T>,
+    conn: &impl ConnectionMethods,
+    order: OrderDirection,
+) -> Result<Vec<&'a T>>
+where
+    T: DataObject + 'a,
+{
+    use crate::query::QueryOps;
+    let pks = vals.iter().map(|val| val.pk().to_sql()).collect();
+    let ordered: Vec<T> = T::query()
+        .filter(BoolExpr::In(T::PKCOL, pks))
+        .order(T::PKCOL, order)
+        .load(conn)
+        .await?;
+    vals.sort_by_key(|val| ordered.iter().position(|o| o.pk() == val.pk()));
+    Ok(vals)
+}
+
 /// [`Many`] operations which require a `Connection`.
 #[allow(async_fn_in_trait)] // Not intended to be implemented outside Butane
 #[maybe_async_cfg::maybe(
@@ -243,6 +268,7 @@ pub trait ManyOps<T: DataObject> {
         ManyOpsInternal,
         ManyOps,
         load_query(sync = "load_query_sync", async = "load_query_async"),
+        order_values(sync = "order_values_sync", async = "order_values_async"),
     ),
     keep_self,
     sync(),
@@ -329,9 +355,16 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
         let query = self.query();
         // If not initialised then there are no values
         let vals: Result<Vec<&T>> = if let Ok(query) = query {
-            Ok(load_query(self, conn, query.order(T::PKCOL, order))
+            // Values which were already loaded or are not saved yet do not come in this order.
+            let in_order = self.all_values.get().is_none() && self.new_values.is_empty();
+            let vals: Vec<&T> = load_query(self, conn, query.order(T::PKCOL, order.clone()))
                 .await?
-                .collect())
+                .collect();
+            if in_order {
+                Ok(vals)
+            } else {
+                order_values(vals, conn, order).await
+            }
         } else {
             Ok(Vec::new())
         };
-- 
2.43.0


From 7b8a17fef3aaf7b31d6141ee26c67e175f7a4c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:39 +0000
Subject: [PATCH 20/74] fix: a dropped Turso transaction is rolled back also
 without a runtime

---
 butane_core/src/db/turso.rs | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 3d8c7e7..48dce2f 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -748,21 +748,20 @@ impl<'c> Drop for TursoTransaction<'c> {
     fn drop(&mut self) {
         if let Some(conn) = self.conn.take() {
             if !self.committed {
-                // If transaction was not committed or rolled back, roll it back
-                // Use block_in_place to execute async rollback in a sync Drop context
-                if tokio::runtime::Handle::try_current().is_ok() {
-                    let conn_clone = conn.conn.clone();
-                    let _ = tokio::task::block_in_place(|| {
-                        tokio::runtime::Handle::current().block_on(async move {
-                            conn_clone
-                                .execute("ROLLBACK", Vec::<turso::Value>::new())
-                                .await
-                        })
-                    });
-                } else {
-                    eprintln!(
-                        "Warning: TursoTransaction dropped without commit or rollback and no tokio runtime available"
-                    );
+                // If transaction was not committed or rolled back, roll it back. Do so on a
+                // thread of its own: there may be no tokio runtime here, or one which does
+                // not permit blocking.
+                let rolled_back = std::thread::scope(|scope| {
+                    let rollback = || {
+                        tokio::runtime::Builder::new_current_thread()
+                            .enable_all()
+                            .build()?
+                            .block_on(conn.execute("ROLLBACK"))
+                    };
+                    scope.spawn(rollback).join()
+                });
+                if !matches!(rolled_back, Ok(Ok(()))) {
+                    crate::warn!("Failed to roll back dropped transaction: {rolled_back:?}");
                 }
             }
         }
-- 
2.43.0


From 13f56b6acf60cf4120fa1844f59bce7c22461be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:39 +0000
Subject: [PATCH 21/74] fix: a many-to-many value added again after its removal
 is kept

---
 butane_core/src/many.rs | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index 5799dfd..d8ec1ab 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -98,7 +98,10 @@ where
     pub fn remove(&mut self, val: &T) {
         // all_values is now out of date, so clear it
         self.all_values = OnceLock::new();
-        self.removed_values.push(val.pk().to_sql())
+        let pk = val.pk().to_sql();
+        // The value may have been added since the last save
+        self.new_values.retain(|v| *v != pk);
+        self.removed_values.push(pk)
     }
 
     /// Return already loaded values.
@@ -152,7 +155,11 @@ where
 {
     use crate::query::QueryOps;
     let mut vals: Vec<T> = query.load(conn).await?;
-    // Now add in the values for things not saved to the db yet
+    // Leave out the values whose removal isn't saved to the db yet
+    if !many.removed_values.is_empty() {
+        vals.retain(|val| !many.removed_values.contains(&val.pk().to_sql()));
+    }
+    // Likewise add in the values for things not saved to the db yet
     if !many.new_values.is_empty() {
         vals.append(
             &mut T::query()
@@ -161,10 +168,6 @@ where
                 .await?,
         );
     }
-    // Likewise leave out the values whose removal isn't saved to the db yet
-    if !many.removed_values.is_empty() {
-        vals.retain(|val| !many.removed_values.contains(&val.pk().to_sql()));
-    }
     Ok(vals)
 }
 
@@ -278,15 +281,7 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
     async fn save(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
         let owner = self.owner.as_ref().ok_or(Error::NotInitialized)?;
         // Forget a change only once it has succeeded, so that a failed save may be retried.
-        while let Some(new_value) = self.new_values.last() {
-            conn.insert_only(
-                &self.item_table,
-                &self.columns(),
-                &[owner.as_ref(), new_value.as_ref()],
-            )
-            .await?;
-            self.new_values.pop();
-        }
+        // Removals come first: a value in both lists was added after it was removed.
         if !self.removed_values.is_empty() {
             conn.delete_where(
                 &self.item_table,
@@ -298,6 +293,15 @@ impl<T: DataObject> ManyOps<T> for Many<T> {
             .await?;
             self.removed_values.clear();
         }
+        while let Some(new_value) = self.new_values.last() {
+            conn.insert_only(
+                &self.item_table,
+                &self.columns(),
+                &[owner.as_ref(), new_value.as_ref()],
+            )
+            .await?;
+            self.new_values.pop();
+        }
         Ok(())
     }
 
-- 
2.43.0


From 7d96e557578973684add76d65a13c27beca89fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:40 +0000
Subject: [PATCH 22/74] fix: removing an unsaved object from a many-to-many
 field does not panic

---
 butane_core/src/many.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butane_core/src/many.rs b/butane_core/src/many.rs
index d8ec1ab..24ad2d8 100644
--- a/butane_core/src/many.rs
+++ b/butane_core/src/many.rs
@@ -96,6 +96,10 @@ where
     ///
     /// After invoking this, `get()` can not be used until `save()` is performed.
     pub fn remove(&mut self, val: &T) {
+        // A value which has never been saved cannot be in the relationship
+        if !val.pk().is_valid() {
+            return;
+        }
         // all_values is now out of date, so clear it
         self.all_values = OnceLock::new();
         let pk = val.pk().to_sql();
-- 
2.43.0


From 2382adea6e23dedde6d5f4028ab9da064c02a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 23/74] fix: an abandoned operation or panic leaves an adapted
 connection sound

The worker thread borrowed from futures which were dropped before it was
done, a transaction whose start was abandoned stayed open, and a panic in
an operation ended the worker thread.
---
 butane_core/src/db/adapter.rs | 53 ++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/db/adapter.rs b/butane_core/src/db/adapter.rs
index b4f2c6f..c670fda 100644
--- a/butane_core/src/db/adapter.rs
+++ b/butane_core/src/db/adapter.rs
@@ -6,6 +6,7 @@
 
 use super::*;
 use crate::query::Order;
+use std::panic::{catch_unwind, AssertUnwindSafe};
 use std::sync::Arc;
 use std::thread;
 use std::thread::JoinHandle;
@@ -29,7 +30,9 @@ impl AsyncAdapterEnv {
         let thread_handle = thread::spawn(move || {
             while let Ok(cmd) = receiver.recv() {
                 match cmd {
-                    Command::Func(func) => func(),
+                    // Keep serving the connection if `func` panics. The invoker notices because
+                    // the channel it waits on is closed.
+                    Command::Func(func) => _ = catch_unwind(AssertUnwindSafe(func)),
                     Command::Shutdown => {
                         return; // break out of the loop
                     }
@@ -69,13 +72,17 @@ impl AsyncAdapterEnv {
         // it. So despite fact that we pass the context pointer back
         // and forth, it's essentially owned by the worker thread -- all operations
         // with context occur on that worker thread.
-        let (tx, rx) = tokio::sync::oneshot::channel();
+        let (tx, mut rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_ref() }.unwrap());
+        let (done, _wait) = WaitOnDrop::new();
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            let wrapped_func = move || {
+                let _done = done;
+                _ = tx.send(func_taking_ptr(context.clone_unsafe()))
+            };
             self.invoke_internal_unsafe(wrapped_func)?;
         }
-        rx.await?
+        (&mut rx).await?
     }
 
     async fn invoke_mut<'c, 's, 'result, F, T, U>(
@@ -91,13 +98,17 @@ impl AsyncAdapterEnv {
         's: 'result,
         'c: 'result,
     {
-        let (tx, rx) = tokio::sync::oneshot::channel();
+        let (tx, mut rx) = tokio::sync::oneshot::channel();
         let func_taking_ptr = |ctx: SyncSendPtrMut<T>| func(unsafe { ctx.inner.as_mut().unwrap() });
+        let (done, _wait) = WaitOnDrop::new();
         unsafe {
-            let wrapped_func = move || _ = tx.send(func_taking_ptr(context.clone_unsafe()));
+            let wrapped_func = move || {
+                let _done = done;
+                _ = tx.send(func_taking_ptr(context.clone_unsafe()))
+            };
             self.invoke_internal_unsafe(wrapped_func)?;
         }
-        rx.await?
+        (&mut rx).await?
     }
 
     fn invoke_blocking<'c, 's, 'result, F, T, U>(&'s self, context: *const T, func: F) -> Result<U>
@@ -142,6 +153,27 @@ impl AsyncAdapterEnv {
     }
 }
 
+/// Waits, when dropped, until the worker thread is done with the function it was given.
+///
+/// The function borrows from the future which invoked it, so that future must not go away
+/// earlier, even if it is dropped before it completes.
+struct WaitOnDrop {
+    done: crossbeam_channel::Receiver<()>,
+}
+impl WaitOnDrop {
+    /// The function must hold on to the returned sender.
+    fn new() -> (crossbeam_channel::Sender<()>, Self) {
+        let (sender, done) = crossbeam_channel::bounded(0);
+        (sender, WaitOnDrop { done })
+    }
+}
+impl Drop for WaitOnDrop {
+    fn drop(&mut self) {
+        // Nothing is ever sent, this returns once the sender is dropped.
+        _ = self.done.recv();
+    }
+}
+
 impl Drop for AsyncAdapterEnv {
     fn drop(&mut self) {
         let r = self.sender.send(Command::Shutdown);
@@ -373,14 +405,15 @@ where
     T: BackendConnection,
 {
     async fn transaction<'c>(&'c mut self) -> Result<TransactionAsync<'c>> {
-        let transaction_ptr: SyncSendPtrMut<dyn BackendTransaction> = self
+        // The adapter owns the transaction from the start, so that it ends even if
+        // nobody is waiting for it any more.
+        let transaction_adapter = self
             .invoke_mut(|conn| {
                 let transaction: Transaction = conn.transaction()?;
                 let transaction_ptr: *mut dyn BackendTransaction = Box::into_raw(transaction.trans);
-                Ok(unsafe { SyncSendPtrMut::new(transaction_ptr) })
+                Ok(self.create_with_same_env(unsafe { SyncSendPtrMut::new(transaction_ptr) }))
             })
             .await?;
-        let transaction_adapter = self.create_with_same_env(transaction_ptr);
         Ok(TransactionAsync::new(Box::new(transaction_adapter)))
     }
 
-- 
2.43.0


From 5d24ec52fea8f110370c2ef742696f8592b108a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:41 +0000
Subject: [PATCH 24/74] fix: a panic in a synchronous section does not poison
 the connection

---
 butane_core/src/db/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index 1df43ad..b00d1e1 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -267,17 +267,26 @@ impl Connection {
     {
         let mut conn2 = Connection::new(Box::new(dummy::DummyConnection::new()));
         std::mem::swap(&mut conn2, self);
-        let ret: Result<(Result<T>, Connection)> = tokio::task::spawn_blocking(|| {
-            let mut sync_conn = SyncAdapter::new(conn2)?;
-            let f_ret = f(&mut sync_conn);
-            let async_conn = sync_conn.into_inner();
-            Ok((f_ret, async_conn))
-        })
-        .await?;
+        let ret: Result<(std::thread::Result<Result<T>>, Connection)> =
+            tokio::task::spawn_blocking(|| {
+                let mut sync_conn = SyncAdapter::new(conn2)?;
+                // A panic must not take the connection with it
+                let f_ret =
+                    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sync_conn)));
+                let async_conn = sync_conn.into_inner();
+                Ok((f_ret, async_conn))
+            })
+            .await?;
         match ret {
             Ok((inner_ret, mut conn)) => {
                 std::mem::swap(&mut conn, self);
-                inner_ret
+                match inner_ret {
+                    Ok(inner_ret) => inner_ret,
+                    // Report the panic as tokio would have
+                    Err(panic) => {
+                        tokio::task::spawn_blocking(|| std::panic::resume_unwind(panic)).await?
+                    }
+                }
             }
             // Self is poisoned
             Err(e) => Err(e),
-- 
2.43.0


From 2303064d2b9b9f692acc63cd0e8f03d255d4aa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:43 +0000
Subject: [PATCH 25/74] fix: looking for a table on Turso does not end the
 transaction

---
 butane_core/src/db/turso.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 48dce2f..dc49254 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -591,11 +591,17 @@ impl ConnectionMethods for TursoConnection {
             .query(sql, params)
             .await
             .map_err(|e| Error::Internal(e.to_string()))?;
-        Ok(rows
+        // Read to the end: an unfinished statement ends the transaction it is part of.
+        let mut found = false;
+        while rows
             .next()
             .await
             .map_err(|e| Error::Internal(e.to_string()))?
-            .is_some())
+            .is_some()
+        {
+            found = true;
+        }
+        Ok(found)
     }
 }
 
-- 
2.43.0


From dc384c6197955082fdabe676744c406da9a93154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:43 +0000
Subject: [PATCH 26/74] fix: has_table finds tables with mixed-case names

---
 butane_core/src/db/pg.rs     | 5 +++++
 butane_core/src/db/sqlite.rs | 5 +++--
 butane_core/src/db/turso.rs  | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index fd627a0..9194cd7 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -350,6 +350,11 @@ where
             .client()?
             .prepare("SELECT table_name FROM information_schema.tables WHERE table_name=$1;");
         let stmt = future.await?;
+        // The server folds names to lower case unless they are quoted
+        let table = match helper::quote_reserved_word(table) {
+            Cow::Borrowed(table) => table.to_ascii_lowercase(),
+            Cow::Owned(_) => table.to_string(),
+        };
         let tableref: &[&(dyn postgres::types::ToSql + Sync)] = &[&table];
         let future = self.client()?.query(&stmt, tableref);
         let rows = future.await?;
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 4a0c0e2..3c3aec4 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -389,8 +389,9 @@ impl ConnectionMethods for rusqlite::Connection {
         Ok(cnt)
     }
     fn has_table(&self, table: &str) -> Result<bool> {
-        let mut stmt =
-            self.prepare("SELECT name FROM sqlite_master WHERE type='table' AND name=?;")?;
+        let mut stmt = self.prepare(
+            "SELECT name FROM sqlite_master WHERE type='table' AND name=? COLLATE NOCASE;",
+        )?;
         let mut rows = stmt.query([table])?;
         Ok(rows.next()?.is_some())
     }
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index dc49254..1389d33 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -584,7 +584,8 @@ impl ConnectionMethods for TursoConnection {
     }
 
     async fn has_table(&self, table: &str) -> Result<bool> {
-        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND name=?";
+        // The engine keeps names in lower case
+        let sql = "SELECT name FROM sqlite_master WHERE type='table' AND lower(name)=lower(?)";
         let params = vec![turso::Value::Text(table.to_string())];
         let mut rows = self
             .conn()?
-- 
2.43.0


From 69031ed3916205fdc489ed07ac3fca41b83c6353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 27/74] fix: columns with constraints can be added and removed
 on SQLite

---
 butane_core/src/db/sqlite.rs | 90 +++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 22 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 3c3aec4..e690255 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -675,7 +675,7 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTableIfNotExists(table) => Ok(create_table(table, true)),
         Operation::RemoveTable(name) => Ok(drop_table(name)),
         Operation::RemoveTableConstraints(_table) => Ok("".to_owned()),
-        Operation::AddColumn(tbl, col) => add_column(tbl, col),
+        Operation::AddColumn(tbl, col) => add_column(current, tbl, col),
         Operation::RemoveColumn(tbl, name) => remove_column(current, tbl, name),
         Operation::ChangeColumn(tbl, old, new) => Ok(change_column(current, tbl, old, Some(new))),
     }
@@ -795,8 +795,18 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
-fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
+fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
+    // sqlite cannot add a unique column, nor a constraint along with a column.
+    if col.unique() || col.reference().is_some() {
+        let table = current
+            .get_table(tbl_name)
+            .ok_or_else(|| Error::TableNotFound(tbl_name.to_string()))?;
+        let mut new_table = table.clone();
+        new_table.add_column(col.clone());
+        let value = helper::sql_literal_value(&default)?;
+        return Ok(rebuild_table(current, new_table, Some((col, &value))));
+    }
     Ok(format!(
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
@@ -815,7 +825,7 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
         .ok_or_else(|| Error::ColumnNotFound(tbl_name.to_string(), name.to_string()))?;
     // "ALTER TABLE b DROP COLUMN fkey;" fails due to sqlite not being
     // able to remove the attached constraint.
-    if col.reference().is_some() {
+    if col.reference().is_some() || col.unique() {
         Ok(change_column(current, tbl_name, col, None))
     } else {
         Ok(format!(
@@ -826,18 +836,23 @@ fn remove_column(current: &mut ADB, tbl_name: &str, name: &str) -> Result<String
     }
 }
 
-fn copy_table(old: &ATable, new: &ATable) -> String {
+/// Copies the rows of `old` to `new`, for which a column of `new` that is missing in `old` is
+/// given by `added`, along with the literal which is its value.
+fn copy_table(old_name: &str, new: &ATable, added: Option<(&AColumn, &str)>) -> String {
     let column_names = new
         .columns
         .iter()
-        .map(|col| helper::quote_reserved_word(col.name()))
+        .map(|col| match added {
+            Some((added, value)) if added.name() == col.name() => Cow::Borrowed(value),
+            _ => helper::quote_reserved_word(col.name()),
+        })
         .collect::<Vec<Cow<str>>>()
         .join(", ");
     format!(
         "INSERT INTO {} SELECT {} FROM {};",
         helper::quote_reserved_word(&new.name),
         column_names,
-        helper::quote_reserved_word(&old.name)
+        helper::quote_reserved_word(old_name)
     )
 }
 
@@ -860,27 +875,58 @@ fn change_column(
         );
         return "".to_string();
     }
-    let old_table = table.unwrap();
-    let mut new_table = old_table.clone();
-    new_table.name = tmp_table_name(&new_table.name);
+    let mut new_table = table.unwrap().clone();
     match new {
         Some(col) => new_table.replace_column(col.clone()),
         None => new_table.remove_column(old.name()),
     }
-    let stmts: [&str; 4] = [
-        &create_table(&new_table, false),
-        &copy_table(old_table, &new_table),
-        &drop_table(&old_table.name),
-        &format!(
-            "ALTER TABLE {} RENAME TO {};",
-            helper::quote_reserved_word(&new_table.name),
-            helper::quote_reserved_word(tbl_name)
-        ),
-    ];
-    let result = stmts.join("\n");
-    new_table.name.clone_from(&old_table.name);
+    rebuild_table(current, new_table, None)
+}
+
+/// True if some column of some table refers to `table`.
+fn is_referenced(current: &ADB, table: &str) -> bool {
+    current.tables().flat_map(|t| &t.columns).any(
+        |col| matches!(col.reference(), Some(ARef::Literal(target)) if target.table_name() == table),
+    )
+}
+
+/// Replaces a table by `new_table`, of the same name, keeping its rows.
+fn rebuild_table(
+    current: &mut ADB,
+    mut new_table: ATable,
+    added: Option<(&AColumn, &str)>,
+) -> String {
+    let name = new_table.name.clone();
+    let tmp_name = tmp_table_name(&name);
+    let stmts: Vec<String> = if is_referenced(current, &name) {
+        // The rows which refer to this table's rows do so again once those are back, so
+        // it must be this very table that they are put into.
+        let quoted_tmp_name = helper::quote_reserved_word(&tmp_name);
+        let quoted_name = helper::quote_reserved_word(&name);
+        vec![
+            format!("CREATE TABLE {quoted_tmp_name} AS SELECT * FROM {quoted_name};"),
+            "PRAGMA defer_foreign_keys = ON;".to_string(),
+            drop_table(&name),
+            create_table(&new_table, false),
+            copy_table(&tmp_name, &new_table, added),
+            drop_table(&tmp_name),
+        ]
+    } else {
+        new_table.name.clone_from(&tmp_name);
+        vec![
+            create_table(&new_table, false),
+            copy_table(&name, &new_table, added),
+            drop_table(&name),
+            format!(
+                "ALTER TABLE {} RENAME TO {};",
+                helper::quote_reserved_word(&new_table.name),
+                helper::quote_reserved_word(&name)
+            ),
+        ]
+    };
+    new_table.name = name;
     current.replace_table(new_table);
-    result
+    stmts.join("\n")
 }
 
 /// Write SQL that performs an insert or update.
-- 
2.43.0


From 9581d77ab6d95e4e16279c5e562f04b37162a156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 28/74] fix: constraints of quoted PostgreSQL tables can be
 dropped

---
 butane_core/src/db/pg.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 9194cd7..ff7c58c 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -761,6 +761,31 @@ fn remove_column(tbl_name: &str, name: &str) -> String {
     )
 }
 
+/// Name the server gives by default to a constraint (or sequence) of a table's column.
+fn default_name(table: &str, column: Option<&str>, suffix: &str) -> String {
+    let parts: Vec<&str> = [Some(table), column, Some(suffix)]
+        .into_iter()
+        .flatten()
+        .collect();
+    // Names which are not quoted are folded to lower case by the server, whereas the name of
+    // a constraint keeps the upper case of the ones which are.
+    let is_folded = |part: &&str| {
+        let quoted = matches!(helper::quote_reserved_word(part), Cow::Owned(_));
+        !(quoted && part.contains(|c: char| c.is_ascii_uppercase()))
+    };
+    if parts.iter().all(is_folded) {
+        return parts.join("_");
+    }
+    let actual: Vec<String> = parts
+        .iter()
+        .map(|part| match helper::quote_reserved_word(part) {
+            Cow::Borrowed(_) => part.to_ascii_lowercase(),
+            Cow::Owned(_) => part.to_string(),
+        })
+        .collect();
+    format!("\"{}\"", actual.join("_"))
+}
+
 fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String> {
     use helper::quote_reserved_word;
     let tbl_name = &table.name;
@@ -801,9 +826,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if new.is_pk() {
             // Drop the old primary key
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {}_pkey;",
+                "ALTER TABLE {} DROP CONSTRAINT IF EXISTS {};",
                 quote_reserved_word(tbl_name),
-                tbl_name
+                default_name(tbl_name, None, "pkey")
             ));
 
             // add the new primary key
@@ -828,10 +853,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         } else {
             // Standard constraint naming scheme
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_key;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                default_name(tbl_name, Some(old.name()), "key")
             ));
         }
     }
@@ -856,10 +880,9 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         if old.reference().is_some() {
             // Drop the old reference
             stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {}_{}_fkey;",
+                "ALTER TABLE {} DROP CONSTRAINT {};",
                 quote_reserved_word(tbl_name),
-                tbl_name,
-                old.name()
+                default_name(tbl_name, Some(old.name()), "fkey")
             ));
         }
         if new.reference().is_some() {
-- 
2.43.0


From 537bdd95b257f8b731abbbb5d2d09eeafcb84714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 29/74] fix: PostgreSQL keys can become automatic, cease to be,
 and change type

---
 butane_core/src/db/pg.rs | 87 ++++++++++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index ff7c58c..f3fb74c 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -702,35 +702,39 @@ fn drop_fkey_constraints(table: &ATable, column: &AColumn) -> Result<String> {
     change_column(table, column, &modified_column)
 }
 fn col_sqltype(col: &AColumn) -> Result<Cow<'_, str>> {
+    if col.is_auto() {
+        if let TypeIdentifier::Ty(ty) = col.typeid()? {
+            return match ty {
+                SqlType::Int => Ok(Cow::Borrowed("SERIAL")),
+                SqlType::BigInt => Ok(Cow::Borrowed("BIGSERIAL")),
+                _ => Err(Error::InvalidAuto(col.name().to_string())),
+            };
+        }
+    }
+    col_basetype(col)
+}
+
+/// Type of the column's values, irrespective of whether the column is an automatic one.
+fn col_basetype(col: &AColumn) -> Result<Cow<'_, str>> {
     match col.typeid()? {
         TypeIdentifier::Name(name) => Ok(Cow::Owned(name)),
-        TypeIdentifier::Ty(ty) => {
-            if col.is_auto() {
-                match ty {
-                    SqlType::Int => Ok(Cow::Borrowed("SERIAL")),
-                    SqlType::BigInt => Ok(Cow::Borrowed("BIGSERIAL")),
-                    _ => Err(Error::InvalidAuto(col.name().to_string())),
-                }
-            } else {
-                Ok(match ty {
-                    SqlType::Bool => Cow::Borrowed("BOOLEAN"),
-                    SqlType::Int => Cow::Borrowed("INTEGER"),
-                    SqlType::BigInt => Cow::Borrowed("BIGINT"),
-                    SqlType::Real => Cow::Borrowed("DOUBLE PRECISION"),
-                    SqlType::Text => Cow::Borrowed("TEXT"),
-                    #[cfg(feature = "datetime")]
-                    SqlType::Date => Cow::Borrowed("DATE"),
-                    #[cfg(feature = "datetime")]
-                    SqlType::Timestamp => Cow::Borrowed("TIMESTAMP"),
-                    SqlType::Blob => Cow::Borrowed("BYTEA"),
-                    #[cfg(feature = "json")]
-                    SqlType::Json => Cow::Borrowed("JSONB"),
-                    SqlType::Custom(c) => match c {
-                        SqlTypeCustom::Pg(ref ty) => Cow::Owned(ty.name().to_string()),
-                    },
-                })
-            }
-        }
+        TypeIdentifier::Ty(ty) => Ok(match ty {
+            SqlType::Bool => Cow::Borrowed("BOOLEAN"),
+            SqlType::Int => Cow::Borrowed("INTEGER"),
+            SqlType::BigInt => Cow::Borrowed("BIGINT"),
+            SqlType::Real => Cow::Borrowed("DOUBLE PRECISION"),
+            SqlType::Text => Cow::Borrowed("TEXT"),
+            #[cfg(feature = "datetime")]
+            SqlType::Date => Cow::Borrowed("DATE"),
+            #[cfg(feature = "datetime")]
+            SqlType::Timestamp => Cow::Borrowed("TIMESTAMP"),
+            SqlType::Blob => Cow::Borrowed("BYTEA"),
+            #[cfg(feature = "json")]
+            SqlType::Json => Cow::Borrowed("JSONB"),
+            SqlType::Custom(c) => match c {
+                SqlTypeCustom::Pg(ref ty) => Cow::Owned(ty.name().to_string()),
+            },
+        }),
     }
 }
 
@@ -801,13 +805,38 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
             quote_reserved_word(new.name())
         ));
     }
-    if old.typeid()? != new.typeid()? {
+    let type_changed = old.typeid()? != new.typeid()?;
+    let sequence = default_name(tbl_name, Some(old.name()), "seq");
+    if old.is_auto() && (!new.is_auto() || type_changed) {
+        stmts.push(format!(
+            "ALTER TABLE {} ALTER COLUMN {} DROP DEFAULT;",
+            quote_reserved_word(tbl_name),
+            quote_reserved_word(old.name()),
+        ));
+        stmts.push(format!("DROP SEQUENCE IF EXISTS {sequence};"));
+    }
+    if type_changed {
         // column type change
         stmts.push(format!(
             "ALTER TABLE {} ALTER COLUMN {} SET DATA TYPE {};",
             quote_reserved_word(tbl_name),
             quote_reserved_word(old.name()),
-            col_sqltype(new)?,
+            col_basetype(new)?,
+        ));
+    }
+    if new.is_auto() && (!old.is_auto() || type_changed) {
+        // Set up what a SERIAL column is created with
+        let tbl_name = quote_reserved_word(tbl_name);
+        let col_name = quote_reserved_word(new.name());
+        stmts.push(format!(
+            "CREATE SEQUENCE {sequence} AS {} OWNED BY {tbl_name}.{col_name};",
+            col_basetype(new)?,
+        ));
+        stmts.push(format!(
+            "ALTER TABLE {tbl_name} ALTER COLUMN {col_name} SET DEFAULT nextval('{sequence}');",
+        ));
+        stmts.push(format!(
+            "SELECT setval('{sequence}', GREATEST(MAX({col_name}), 0) + 1, false) FROM {tbl_name};",
         ));
     }
     if old.nullable() != new.nullable() {
-- 
2.43.0


From e96949e7bb5dba7ac9222f12dfef15318a240029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 30/74] fix: defaults in migrations are written as valid
 literals

---
 butane_core/src/db/helper.rs |  6 +++---
 butane_core/src/db/pg.rs     | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 5cff086..8dcf1d4 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -345,12 +345,12 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         Int(val) => Ok(val.to_string()),
         BigInt(val) => Ok(val.to_string()),
         Real(val) => Ok(val.to_string()),
-        Text(val) => Ok(format!("'{val}'")),
+        Text(val) => Ok(format!("'{}'", val.replace('\'', "''"))),
         Blob(val) => Ok(format!("x'{}'", hex::encode_upper(val))),
         #[cfg(feature = "json")]
-        Json(val) => Ok(format!("{val}")),
+        Json(val) => Ok(format!("'{}'", val.to_string().replace('\'', "''"))),
         #[cfg(feature = "datetime")]
-        Date(val) => Ok(format!("'{}'", val.format("'%Y-%m-%d'"))),
+        Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
         Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index f3fb74c..6952cbb 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -748,7 +748,7 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
         "ALTER TABLE {} ADD COLUMN {} DEFAULT {};",
         helper::quote_reserved_word(tbl_name),
         define_column(col)?,
-        helper::sql_literal_value(&default)?
+        sql_literal_value(&default)?
     )];
     if col.reference().is_some() {
         stmts.push(define_fkey_constraint(tbl_name, col));
@@ -757,6 +757,13 @@ fn add_column(tbl_name: &str, col: &AColumn) -> Result<String> {
     Ok(result)
 }
 
+fn sql_literal_value(val: &SqlVal) -> Result<String> {
+    match val {
+        SqlVal::Blob(val) => Ok(format!("'\\x{}'", hex::encode(val))),
+        _ => helper::sql_literal_value(val),
+    }
+}
+
 fn remove_column(tbl_name: &str, name: &str) -> String {
     format!(
         "ALTER TABLE {} DROP COLUMN {};",
@@ -900,7 +907,7 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
                 "ALTER TABLE {} ALTER COLUMN {} SET DEFAULT {};",
                 quote_reserved_word(tbl_name),
                 quote_reserved_word(old.name()),
-                helper::sql_literal_value(val)?
+                sql_literal_value(val)?
             ),
         });
     }
-- 
2.43.0


From 7446724e6b3e440426aec244256d85a9f027c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:47 +0000
Subject: [PATCH 31/74] fix: tables are removed after what refers to them

---
 butane_core/src/migrations/adb.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 4afeb16..ea9e376 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -617,17 +617,13 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
         ));
     }
 
-    // Remove tables
+    // Detach the tables to be removed
     let removed_tables = old_names.difference(&new_names);
     for removed in removed_tables.clone() {
         let removed: &str = removed.as_ref();
         let table = old.tables.get(removed).expect("no table").clone();
         ops.push(Operation::RemoveTableConstraints(table));
     }
-    for removed in removed_tables {
-        ops.push(Operation::RemoveTable((*removed).to_string()));
-    }
-
     // Change existing tables
     for table in new_names.intersection(&old_names) {
         let table: &str = table.as_ref();
@@ -636,6 +632,12 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
             new.tables.get(table).expect("no table"),
         ));
     }
+
+    // Remove tables, now that no remaining table refers to them
+    for removed in referring_first(old, removed_tables.map(|name| name.as_str()).collect()) {
+        ops.push(Operation::RemoveTable(removed.to_string()));
+    }
+
     for added in new_tables {
         let added: &str = added.as_ref();
         let table = new.tables.get(added).expect("no table");
@@ -646,6 +648,25 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
     ops
 }
 
+/// Orders `names` such that tables come before the ones they refer to, as far as possible.
+fn referring_first<'a>(adb: &ADB, mut names: Vec<&'a str>) -> Vec<&'a str> {
+    let refers = |from: &str, to: &str| {
+        from != to
+            && adb.tables[from].columns.iter().any(
+                |col| matches!(&col.reference, Some(ARef::Literal(l)) if l.table_name == to),
+            )
+    };
+    let mut ordered = Vec::with_capacity(names.len());
+    while !names.is_empty() {
+        let next = names
+            .iter()
+            .position(|name| !names.iter().any(|other| refers(other, name)))
+            .unwrap_or(0);
+        ordered.push(names.remove(next));
+    }
+    ordered
+}
+
 fn col_by_name<'a>(columns: &'a [AColumn], name: &str) -> Option<&'a AColumn> {
     columns.iter().find(|c| c.name == name)
 }
-- 
2.43.0


From bbc870403101629104e6e70c122560f7ef069992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 32/74] fix: semicolons within literals do not end statements
 on Turso

---
 butane_core/src/db/turso.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 1389d33..d8194d8 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -329,7 +329,7 @@ impl ConnectionMethods for TursoConnection {
         }
         // Turso doesn't have execute_batch, so we need to execute statements one by one
         // Split on semicolons and execute each statement separately
-        for statement in sql.split(';').map(str::trim).filter(|s| !s.is_empty()) {
+        for statement in split_statements(sql) {
             self.conn()?
                 .execute(statement, ())
                 .await
@@ -775,6 +775,30 @@ impl<'c> Drop for TursoTransaction<'c> {
     }
 }
 
+/// The statements of `sql`, which are separated by semicolons. Semicolons in string literals,
+/// quoted identifiers and comments do not count.
+fn split_statements(sql: &str) -> Vec<&str> {
+    let mut statements = Vec::new();
+    let mut start = 0;
+    let mut chars = sql.char_indices().peekable();
+    while let Some((i, c)) = chars.next() {
+        let end = match c {
+            ';' => {
+                statements.push(&sql[start..i]);
+                start = i + 1;
+                continue;
+            }
+            '\'' | '"' => c,
+            '-' if chars.peek().is_some_and(|(_, next)| *next == '-') => '\n',
+            _ => continue,
+        };
+        chars.by_ref().find(|(_, c)| *c == end);
+    }
+    statements.push(&sql[start..]);
+    let trimmed = statements.into_iter().map(str::trim);
+    trimmed.filter(|s| !s.is_empty()).collect()
+}
+
 // Value conversion functions
 fn sqlval_to_turso(val: &SqlValRef<'_>) -> Result<turso::Value> {
     use SqlValRef::*;
-- 
2.43.0


From d61b620afb903f96cb74769ee0a0bdde09a4e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:26 +0000
Subject: [PATCH 33/74] fix: default timestamps are written the way they are
 read

---
 butane_core/src/db/helper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 8dcf1d4..8828d4a 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -352,7 +352,7 @@ pub fn sql_literal_value(val: &SqlVal) -> Result<String> {
         #[cfg(feature = "datetime")]
         Date(val) => Ok(val.format("'%Y-%m-%d'").to_string()),
         #[cfg(feature = "datetime")]
-        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%dT%H:%M:%S%.f'").to_string()),
+        Timestamp(ndt) => Ok(ndt.format("'%Y-%m-%d %H:%M:%S%.f'").to_string()),
         #[cfg(feature = "pg")]
         Custom(val) => Err(Error::LiteralForCustomUnsupported(*(*val).clone())),
     }
-- 
2.43.0


From 779de26a6182ec9f5ffdef8a8c81072e72f5d53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:13 +0000
Subject: [PATCH 34/74] fix: PostgreSQL reference columns can change type when
 they cease to refer

---
 butane_core/src/db/pg.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 6952cbb..4daf865 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -822,6 +822,14 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         ));
         stmts.push(format!("DROP SEQUENCE IF EXISTS {sequence};"));
     }
+    if old.reference() != new.reference() && old.reference().is_some() {
+        // Drop the old reference, which may not agree with the new type
+        stmts.push(format!(
+            "ALTER TABLE {} DROP CONSTRAINT {};",
+            quote_reserved_word(tbl_name),
+            default_name(tbl_name, Some(old.name()), "fkey")
+        ));
+    }
     if type_changed {
         // column type change
         stmts.push(format!(
@@ -912,18 +920,8 @@ fn change_column(table: &ATable, old: &AColumn, new: &AColumn) -> Result<String>
         });
     }
 
-    if old.reference() != new.reference() {
-        if old.reference().is_some() {
-            // Drop the old reference
-            stmts.push(format!(
-                "ALTER TABLE {} DROP CONSTRAINT {};",
-                quote_reserved_word(tbl_name),
-                default_name(tbl_name, Some(old.name()), "fkey")
-            ));
-        }
-        if new.reference().is_some() {
-            stmts.push(define_fkey_constraint(tbl_name, new));
-        }
+    if old.reference() != new.reference() && new.reference().is_some() {
+        stmts.push(define_fkey_constraint(tbl_name, new));
     }
 
     let result = stmts.join("\n");
-- 
2.43.0


From 782e27f2d1a94dae8a98124ce871c68e70e7fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:35 +0000
Subject: [PATCH 35/74] fix: a Turso transaction whose commit fails is rolled
 back

---
 butane_core/src/db/turso.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index d8194d8..2591e14 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -734,15 +734,16 @@ impl<'c> ConnectionMethods for TursoTransaction<'c> {
 #[async_trait]
 impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     async fn commit(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("COMMIT").await?;
+        // If this fails, the transaction is still open, and is rolled back when dropped.
+        self.get()?.execute("COMMIT").await?;
+        self.conn = None;
         self.committed = true;
         Ok(())
     }
 
     async fn rollback(&mut self) -> Result<()> {
-        let conn = self.conn.take().ok_or_else(Self::already_consumed)?;
-        conn.execute("ROLLBACK").await?;
+        self.get()?.execute("ROLLBACK").await?;
+        self.conn = None;
         Ok(())
     }
 
-- 
2.43.0


From ee47951a84dfda5e45606442657091ec9c86344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:59 +0000
Subject: [PATCH 36/74] fix: SQLite tables which refer to each other can be
 removed with their rows

---
 butane_core/src/db/sqlite.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index e690255..b2c46a9 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -673,7 +673,7 @@ fn sql_for_op(current: &mut ADB, op: &Operation) -> Result<String> {
         Operation::AddTable(table) => Ok(create_table(table, false)),
         Operation::AddTableConstraints(_table) => Ok("".to_owned()),
         Operation::AddTableIfNotExists(table) => Ok(create_table(table, true)),
-        Operation::RemoveTable(name) => Ok(drop_table(name)),
+        Operation::RemoveTable(name) => Ok(remove_table(current, name)),
         Operation::RemoveTableConstraints(_table) => Ok("".to_owned()),
         Operation::AddColumn(tbl, col) => add_column(current, tbl, col),
         Operation::RemoveColumn(tbl, name) => remove_column(current, tbl, name),
@@ -795,6 +795,17 @@ fn drop_table(name: &str) -> String {
     format!("DROP TABLE {};", helper::quote_reserved_word(name))
 }
 
+fn remove_table(current: &ADB, name: &str) -> String {
+    let mut others = current.clone();
+    others.remove_table(name);
+    if is_referenced(&others, name) {
+        // Tables which refer to each other: the rows that are left are removed later on.
+        format!("PRAGMA defer_foreign_keys = ON;\n{}", drop_table(name))
+    } else {
+        drop_table(name)
+    }
+}
+
 fn add_column(current: &mut ADB, tbl_name: &str, col: &AColumn) -> Result<String> {
     let default: SqlVal = helper::column_default(col)?;
     // sqlite cannot add a unique column, nor a constraint along with a column.
-- 
2.43.0


From d331d0abfd41dc9837bdd442ed5d4c0173f2a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:37 +0000
Subject: [PATCH 37/74] fix: empty statements can be stored in a file-backed
 migration

---
 butane_core/src/migrations/fsmigrations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index a1dc4a5..ba30c7c 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -115,7 +115,7 @@ impl FsMigration {
         self.ensure_dir()?;
         let path = self.root.join(fname);
         let mut contents: Vec<u8> = contents.into();
-        if contents[contents.len() - 1] != b'\n' {
+        if contents.last() != Some(&b'\n') {
             contents.push(b'\n');
         }
         self.fs
-- 
2.43.0


From d7b4830a578882b5e341609e4593d455ea7a6438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:37 +0000
Subject: [PATCH 38/74] fix: reading a malformed type key reports an error

---
 butane_core/src/migrations/adb.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index ea9e376..639e1a4 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -103,11 +103,10 @@ impl Visitor<'_> for TypeKeyVisitor {
     where
         E: serde::de::Error,
     {
-        let rest = v.to_string().split_off(3);
-        if v.starts_with("PK:") {
-            Ok(TypeKey::PK(rest))
-        } else if v.starts_with("CT:") {
-            Ok(TypeKey::CustomType(rest))
+        if let Some(rest) = v.strip_prefix("PK:") {
+            Ok(TypeKey::PK(rest.to_string()))
+        } else if let Some(rest) = v.strip_prefix("CT:") {
+            Ok(TypeKey::CustomType(rest.to_string()))
         } else {
             Err(E::custom("Unknown type key string".to_string()))
         }
-- 
2.43.0


From 9e0a04fe38e21832ae4c6e41a7dea972a5d9ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:38 +0000
Subject: [PATCH 39/74] fix: an inconsistent stored schema is reported as an
 error

---
 butane_core/src/migrations/adb.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 639e1a4..f907085 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -212,7 +212,7 @@ impl ADB {
         let current_tables = self.tables.clone();
         for table in &mut self.tables.values_mut() {
             for col in &mut table.columns {
-                col.resolve_reference_target(&self.extra_types, &current_tables);
+                col.resolve_reference_target(&self.extra_types, &current_tables)?;
             }
         }
 
@@ -226,7 +226,10 @@ impl ADB {
                         changed |= resolver.insert_pk(&table.name, pktype.clone());
                     }
                 } else if !table.name.ends_with(MANY_SUFFIX) {
-                    unreachable!();
+                    return Err(Error::MigrationError(format!(
+                        "Table {} has no primary key",
+                        table.name
+                    )));
                 }
 
                 for col in &mut table.columns {
@@ -514,7 +517,7 @@ impl AColumn {
         &mut self,
         extra_types: &BTreeMap<TypeKey, DeferredSqlType>,
         tables: &BTreeMap<String, ATable>,
-    ) {
+    ) -> Result<()> {
         match &self.reference {
             None | Some(ARef::Literal(_)) => {}
             Some(ARef::Deferred(DeferredSqlType::Deferred(referred_type_key))) => {
@@ -526,7 +529,7 @@ impl AColumn {
                 } else if let TypeKey::PK(referred_type) = referred_type_key {
                     referred_table_name = referred_type.to_owned();
                 } else {
-                    unreachable!("Unexpected reference {:?}", self.reference);
+                    return Err(Error::CannotResolveType(referred_type_key.to_string()));
                 }
                 if let Some(table) = tables.get(&referred_table_name) {
                     if let Some(pk) = table.pk() {
@@ -537,8 +540,14 @@ impl AColumn {
                     }
                 }
             }
-            _ => unreachable!("can only resolve deferred references"),
+            Some(reference) => {
+                return Err(Error::MigrationError(format!(
+                    "Column {} has an unexpected reference {reference:?}",
+                    self.name
+                )))
+            }
         }
+        Ok(())
     }
 
     pub fn is_auto(&self) -> bool {
-- 
2.43.0


From cd6a831abb53f7de785f94b976d52c253dec5391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 40/74] fix: a broken chain of migrations is reported instead
 of cut short or followed forever

---
 butane_core/src/migrations/fsmigrations.rs  | 10 ++++
 butane_core/src/migrations/memmigrations.rs | 11 +++-
 butane_core/src/migrations/mod.rs           | 62 +++++++++++++--------
 3 files changed, 58 insertions(+), 25 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index ba30c7c..00e17b4 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -445,6 +445,16 @@ impl Migrations for FsMigrations {
             Some(name) => self.get_migration(&name),
         })
     }
+
+    fn try_latest(&self) -> Result<Option<Self::M>> {
+        match self.get_state()?.latest {
+            None => Ok(None),
+            Some(name) => match self.get_migration(&name) {
+                None => Err(Error::MigrationError(format!("Migration {name} not found"))),
+                found => Ok(found),
+            },
+        }
+    }
 }
 
 impl MigrationsMut for FsMigrations {
diff --git a/butane_core/src/migrations/memmigrations.rs b/butane_core/src/migrations/memmigrations.rs
index b6ce3f5..b74e119 100644
--- a/butane_core/src/migrations/memmigrations.rs
+++ b/butane_core/src/migrations/memmigrations.rs
@@ -6,7 +6,7 @@ use serde::{Deserialize, Serialize};
 use super::adb::{ATable, DeferredSqlType, TypeKey, ADB};
 use super::{Migration, MigrationMut, Migrations, MigrationsMut};
 
-use crate::Result;
+use crate::{Error, Result};
 
 /// In-memory migration.
 #[derive(Clone, Debug, Deserialize, Serialize)]
@@ -137,6 +137,15 @@ impl Migrations for MemMigrations {
             Some(name) => self.get_migration(name),
         }
     }
+    fn try_latest(&self) -> Result<Option<Self::M>> {
+        match &self.latest {
+            None => Ok(None),
+            Some(name) => match self.get_migration(name) {
+                None => Err(Error::MigrationError(format!("Migration {name} not found"))),
+                found => Ok(found),
+            },
+        }
+    }
 }
 
 impl MigrationsMut for MemMigrations {
diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 87fe3c5..59ef67b 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -41,17 +41,20 @@ pub trait Migrations: Clone {
     /// no migrations have been created.
     fn latest(&self) -> Option<Self::M>;
 
+    /// Like [`latest`](Migrations::latest), but reports an error if there should be a most recent
+    /// migration and it cannot be retrieved.
+    fn try_latest(&self) -> Result<Option<Self::M>> {
+        Ok(self.latest())
+    }
+
     /// Retrieve migrations since the given migration.
     fn migrations_since(&self, since: &Self::M) -> Result<Vec<Self::M>> {
-        let mut last = self.latest();
+        let mut last = self.try_latest()?;
         let mut accum: Vec<Self::M> = Vec::new();
         while let Some(m) = last {
             if m != *since {
-                last = match m.migration_from()? {
-                    None => None,
-                    Some(name) => self.get_migration(&name),
-                };
                 accum.push(m);
+                last = previous_migration(self, &accum)?;
                 continue;
             }
 
@@ -62,14 +65,11 @@ pub trait Migrations: Clone {
 
     /// Retrieve all migrations.
     fn all_migrations(&self) -> Result<Vec<Self::M>> {
-        let mut last = self.latest();
+        let mut last = self.try_latest()?;
         let mut accum: Vec<Self::M> = Vec::new();
         while let Some(m) = last {
-            last = match m.migration_from()? {
-                None => None,
-                Some(name) => self.get_migration(&name),
-            };
             accum.push(m);
+            last = previous_migration(self, &accum)?;
         }
         Ok(accum.into_iter().rev().collect())
     }
@@ -101,16 +101,16 @@ pub trait Migrations: Clone {
             .mapped(ButaneMigration::from_row)
             .collect()?;
 
-        let mut m_opt = self.latest();
+        let mut m_opt = self.try_latest()?;
+        let mut accum: Vec<Self::M> = Vec::new();
         while let Some(m) = m_opt {
             if migrations.contains(&ButaneMigration {
                 name: m.name().to_string(),
             }) {
                 return Ok(Some(m));
             }
-            m_opt = m
-                .migration_from()?
-                .and_then(|name| self.get_migration(&name))
+            accum.push(m);
+            m_opt = previous_migration(self, &accum)?;
         }
         Ok(None)
     }
@@ -141,16 +141,13 @@ pub trait Migrations: Clone {
 
     /// Remove all applied migrations.
     fn unmigrate(&self, connection: &mut impl BackendConnection) -> Result<()> {
-        let mut migration = match self.last_applied_migration(connection)? {
-            Some(migration) => migration,
-            None => return Ok(()),
-        };
-        migration.downgrade(connection)?;
-
-        while let Ok(Some(migration_name)) = migration.migration_from() {
-            migration = self
-                .get_migration(&migration_name)
-                .ok_or(Error::MigrationError("Migration not in chain".to_string()))?;
+        let mut last = self.last_applied_migration(connection)?;
+        let mut accum: Vec<Self::M> = Vec::new();
+        while let Some(m) = last {
+            accum.push(m);
+            last = previous_migration(self, &accum)?;
+        }
+        for migration in accum {
             crate::info!("Rolling back migration {}", migration.name());
             migration.downgrade(connection)?;
         }
@@ -172,6 +169,23 @@ pub trait Migrations: Clone {
     }
 }
 
+/// Retrieve the migration before the last one of `seen`, which holds the migrations after it.
+fn previous_migration<T: Migrations>(migrations: &T, seen: &[T::M]) -> Result<Option<T::M>> {
+    let from = seen.last().map(|m| m.migration_from()).transpose()?;
+    let Some(name) = from.flatten() else {
+        return Ok(None);
+    };
+    let migration = migrations
+        .get_migration(&name)
+        .ok_or_else(|| Error::MigrationError(format!("Migration {name} not found")))?;
+    if seen.contains(&migration) {
+        return Err(Error::MigrationError(format!(
+            "Migration {name} comes before itself"
+        )));
+    }
+    Ok(Some(migration))
+}
+
 /// Extension of [`Migrations`] to modify the series of migrations.
 pub trait MigrationsMut: Migrations
 where
-- 
2.43.0


From 5907c1d1a70de6e86725756b179c6878e14ca73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 41/74] fix: a migration name which is no directory name does
 not panic

---
 butane_core/src/migrations/fsmigrations.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 00e17b4..d8cb869 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -427,6 +427,10 @@ impl Migrations for FsMigrations {
     type M = FsMigration;
 
     fn get_migration(&self, name: &str) -> Option<Self::M> {
+        // A migration is a directory immediately below the root
+        if Path::new(name).file_name() != Some(name.as_ref()) {
+            return None;
+        }
         let mut dir = self.root.clone();
         dir.push(name);
         if dir.is_dir() {
-- 
2.43.0


From 52bc2b68d86401d1a84e934ee1f78f05e5135b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 42/74] fix: embedded migrations may contain a quote followed
 by a hash

---
 butane_cli/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 4088bc6..f7722df 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -371,6 +371,11 @@ pub fn embed(base_dir: &Path) -> Result<()> {
         mem_ms.add_migration(new_m)?;
     }
     let json = serde_json::to_string_pretty(&mem_ms)?;
+    // Use enough hashes that nothing in the json terminates the raw string
+    let mut hashes = "#".to_string();
+    while json.contains(&format!("\"{hashes}")) {
+        hashes.push('#');
+    }
 
     let src = format!(
         "//! Butane migrations embedded in Rust.
@@ -379,7 +384,7 @@ use butane::migrations::MemMigrations;
 
 /// Load the butane migrations embedded in Rust.
 pub fn get_migrations() -> Result<MemMigrations, butane::Error> {{
-    let json = r#\"{json}\"#;
+    let json = r{hashes}\"{json}\"{hashes};
     MemMigrations::from_json(json)
 }}
 "
-- 
2.43.0


From 57618d326cbbb576c6e44965916eff9ede208e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 43/74] fix: types declared at the same time in a new directory
 are all kept

---
 butane_core/src/migrations/fsmigrations.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index d8cb869..3a05db2 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -241,7 +241,8 @@ impl MigrationMut for FsMigration {
     }
 
     fn add_type(&mut self, key: TypeKey, sqltype: DeferredSqlType) -> Result<()> {
-        let _lock = self.lock_exclusive();
+        self.ensure_dir()?;
+        let _lock = self.lock_exclusive()?;
         let typefile = self.root.join(TYPES_FILENAME);
 
         let mut types: SqlTypeMap = match self.fs.read(&typefile) {
-- 
2.43.0


From 13df83575a073450f90908a4d77cfd3fa6bd6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 44/74] fix: PostgreSQL key-value pairs may have a value
 containing ://

---
 butane_core/src/db/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index b00d1e1..4b0ca61 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -600,9 +600,14 @@ impl ConnectionSpec {
     }
 
     fn is_pg_key_value_pairs(connection_string: &str) -> bool {
-        // If it starts with a scheme (contains ://), it's a URI, not key-value pairs
-        if connection_string.contains("://") {
-            return false;
+        // If it starts with a scheme, it's a URI, not key-value pairs
+        if let Some((scheme, _)) = connection_string.split_once("://") {
+            if scheme
+                .chars()
+                .all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.'))
+            {
+                return false;
+            }
         }
         // host and hostaddr are optional in Postgresql, however this prevents connecting
         // without one of them: https://github.com/sfackler/rust-postgres/issues/1239
-- 
2.43.0


From 7cb8c857fa2ece61220e620758ceeaa2377e432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 45/74] fix: PostgreSQL URIs without a host, or with several,
 are not taken for SQLite files

---
 butane_core/src/db/mod.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index 4b0ca61..1c67f68 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -599,6 +599,12 @@ impl ConnectionSpec {
         url::Url::parse(self.connection_string()).ok()
     }
 
+    /// Includes the PostgreSQL URIs which are not valid URLs.
+    fn is_pg_uri(connection_string: &str) -> bool {
+        connection_string.starts_with("postgres://")
+            || connection_string.starts_with("postgresql://")
+    }
+
     fn is_pg_key_value_pairs(connection_string: &str) -> bool {
         // If it starts with a scheme, it's a URI, not key-value pairs
         if let Some((scheme, _)) = connection_string.split_once("://") {
@@ -686,20 +692,12 @@ impl TryFrom<&str> for ConnectionSpec {
                     }),
                 }
             }
-            Err(url::ParseError::InvalidPort) => {
-                // This occurs when using a PostgreSQL multi-host connection string.
-                if value.starts_with("postgres") {
-                    Ok(ConnectionSpec {
-                        backend_name: "pg".to_string(),
-                        conn_str: value.to_string(),
-                    })
-                } else {
-                    Ok(ConnectionSpec {
-                        backend_name: "sqlite".to_string(),
-                        conn_str: value.to_string(),
-                    })
-                }
-            }
+            // This occurs when using a PostgreSQL multi-host connection string, or one
+            // with a user or port but no host.
+            Err(_) if Self::is_pg_uri(value) => Ok(ConnectionSpec {
+                backend_name: "pg".to_string(),
+                conn_str: value.to_string(),
+            }),
             Err(_) => {
                 // Spaces are allowed between the key and the equals sign in a PostgreSQL connection string.
                 if Self::is_pg_key_value_pairs(value) {
-- 
2.43.0


From 6f5618070ad23ad82937224b8bdc20efb8832936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 46/74] fix: the scheme of a connection string is replaced in
 any letter case

---
 butane_core/src/db/mod.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index 1c67f68..4af07a4 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -660,19 +660,14 @@ impl TryFrom<&str> for ConnectionSpec {
     fn try_from(value: &str) -> Result<Self> {
         match url::Url::parse(value) {
             Ok(parsed) => {
+                let after_scheme = value.split_once(':').map_or(value, |(_, rest)| rest);
                 match parsed.scheme() {
-                    "sqlite" => {
-                        // SQLite uses file: URLs, but we want to accept sqlite:
-                        // in order that the URIs are more expressive.
-                        let value = value.replacen("sqlite:", "file:", 1);
-                        Ok(ConnectionSpec {
-                            backend_name: "sqlite".to_string(),
-                            conn_str: value,
-                        })
-                    }
-                    "file" => Ok(ConnectionSpec {
+                    // SQLite uses file: URLs, but we want to accept sqlite:
+                    // in order that the URIs are more expressive.
+                    // SQLite requires the scheme to be in lower case.
+                    "sqlite" | "file" => Ok(ConnectionSpec {
                         backend_name: "sqlite".to_string(),
-                        conn_str: value.to_string(),
+                        conn_str: format!("file:{after_scheme}"),
                     }),
                     "postgres" | "postgresql" => Ok(ConnectionSpec {
                         backend_name: "pg".to_string(),
@@ -680,10 +675,9 @@ impl TryFrom<&str> for ConnectionSpec {
                     }),
                     "libsql" => {
                         // libsql:// is an alias for turso://
-                        let value = value.replacen("libsql:", "turso:", 1);
                         Ok(ConnectionSpec {
                             backend_name: "turso".to_string(),
-                            conn_str: value,
+                            conn_str: format!("turso:{after_scheme}"),
                         })
                     }
                     _ => Ok(ConnectionSpec {
-- 
2.43.0


From c858f45062e63be215c3afd70e48d9ed572f6f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:05 +0000
Subject: [PATCH 47/74] fix: parameters added to a connection string are
 quoted, encoded and put in its query

---
 butane_core/src/db/mod.rs | 54 +++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/butane_core/src/db/mod.rs b/butane_core/src/db/mod.rs
index 4af07a4..2e00d56 100644
--- a/butane_core/src/db/mod.rs
+++ b/butane_core/src/db/mod.rs
@@ -623,27 +623,65 @@ impl ConnectionSpec {
 
     /// Add a query parameter to the connection string.
     pub fn add_parameter(&mut self, name: &str, value: &str) -> Result<()> {
-        if self.backend_name() == "pg" && Self::is_pg_key_value_pairs(&self.conn_str) {
+        let is_pg = self.backend_name() == "pg";
+        if is_pg && Self::is_pg_key_value_pairs(&self.conn_str) {
+            if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') {
+                return Err(crate::Error::UnknownConnectString(format!(
+                    "{name:?} is not a PostgreSQL parameter name"
+                )));
+            }
             // Append using PostgreSQL key-value pair syntax.
-            self.conn_str.push_str(&format!(" {}={}", name, value));
+            self.conn_str
+                .push_str(&format!(" {}={}", name, quote_pg_value(value)));
             return Ok(());
         }
-        if self.connection_string_uri().is_none() {
+        let is_pg_uri = is_pg && Self::is_pg_uri(&self.conn_str);
+        if name.is_empty() || !(is_pg_uri || self.connection_string_uri().is_some()) {
             return Err(crate::Error::UnknownConnectString(
                 "Cannot add query parameter to connection string that is not a postgres or URI"
                     .to_string(),
             ));
         }
 
-        if self.conn_str.contains('?') {
-            self.conn_str.push_str(&format!("&{}={}", name, value));
-        } else {
-            self.conn_str.push_str(&format!("?{}={}", name, value));
-        }
+        // The query ends where a fragment begins. PostgreSQL URIs have no fragment.
+        let end = match self.conn_str.find('#') {
+            Some(pos) if !is_pg_uri => pos,
+            _ => self.conn_str.len(),
+        };
+        let separator = match self.conn_str[..end].split_once('?') {
+            None => "?",
+            Some((_, query)) if query.is_empty() || query.ends_with('&') => "",
+            Some(_) => "&",
+        };
+        let parameter = format!("{separator}{}={}", uri_encode(name), uri_encode(value));
+        self.conn_str.insert_str(end, &parameter);
         Ok(())
     }
 }
 
+/// Quote a value for PostgreSQL key-value pair syntax, if it needs to be.
+fn quote_pg_value(value: &str) -> Cow<'_, str> {
+    let special = |c: char| c.is_whitespace() || matches!(c, '\'' | '\\');
+    if value.is_empty() || value.contains(special) {
+        let escaped = value.replace('\\', "\\\\").replace('\'', "\\'");
+        Cow::from(format!("'{escaped}'"))
+    } else {
+        Cow::from(value)
+    }
+}
+
+/// Percent-encode the characters which may not be in the name or value of a URI parameter.
+fn uri_encode(text: &str) -> String {
+    text.bytes()
+        .map(|b| match b {
+            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                char::from(b).to_string()
+            }
+            _ => format!("%{b:02X}"),
+        })
+        .collect()
+}
+
 /// Convert a string to a connection spec.
 ///
 /// The string may be any connection string supported by the database backend.
-- 
2.43.0


From 7e05c08bb16af096cf64c0d703974e9e207a46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:41 +0000
Subject: [PATCH 48/74] fix: an integer default may need 64 bits

---
 butane_core/src/codegen/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/codegen/mod.rs b/butane_core/src/codegen/mod.rs
index 6813275..f5848e5 100644
--- a/butane_core/src/codegen/mod.rs
+++ b/butane_core/src/codegen/mod.rs
@@ -636,7 +636,13 @@ fn sqlval_from_lit(lit: Lit) -> std::result::Result<SqlVal, CompilerErrorMsg> {
         Lit::ByteStr(lit) => Ok(SqlVal::Blob(lit.value())),
         Lit::Byte(_) => Err(make_compile_error!("single byte literal is not supported").into()),
         Lit::Char(_) => Err(make_compile_error!("single char literal is not supported").into()),
-        Lit::Int(lit) => Ok(SqlVal::Int(lit.base10_parse().unwrap())),
+        Lit::Int(lit) => match lit.base10_parse::<i64>() {
+            Ok(val) => Ok(match i32::try_from(val) {
+                Ok(val) => SqlVal::Int(val),
+                Err(_) => SqlVal::BigInt(val),
+            }),
+            Err(_) => Err(make_compile_error!("integer literal is too large").into()),
+        },
         Lit::Float(lit) => Ok(SqlVal::Real(lit.base10_parse().unwrap())),
         Lit::Bool(lit) => Ok(SqlVal::Bool(lit.value)),
         Lit::Verbatim(_) => {
-- 
2.43.0


From 09281cdc7ba8f724517c6d295678a62ad5c506df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:22 +0000
Subject: [PATCH 49/74] fix: a model's name may also be the name of another
 model's table

---
 butane_core/src/migrations/adb.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index f907085..49bfbea 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -213,6 +213,14 @@ impl ADB {
         for table in &mut self.tables.values_mut() {
             for col in &mut table.columns {
                 col.resolve_reference_target(&self.extra_types, &current_tables)?;
+                // A model's name may also be the name of another model's table.
+                if let DeferredSqlType::Deferred(key @ TypeKey::PK(_)) = &col.sqltype {
+                    if let Some(DeferredSqlType::Deferred(table_key @ TypeKey::PK(_))) =
+                        self.extra_types.get(key)
+                    {
+                        col.sqltype = DeferredSqlType::Deferred(table_key.clone());
+                    }
+                }
             }
         }
 
@@ -237,6 +245,10 @@ impl ADB {
                 }
             }
             for (key, ty) in self.extra_types.iter_mut() {
+                if matches!(key, TypeKey::PK(name) if current_tables.contains_key(name)) {
+                    // In the resolver, this stands for the table.
+                    continue;
+                }
                 match ty {
                     DeferredSqlType::Known(ty) => {
                         changed |= resolver.insert(key.clone(), ty.clone().into()) || changed;
-- 
2.43.0


From e05fa208d7904309e59ac9c3ad5bbcfaddc35055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:12 +0000
Subject: [PATCH 50/74] fix: definitions with a malformed table name or a
 default of another type are refused, and what is refused is not recorded

---
 butane_core/src/codegen/dbobj.rs  | 23 +++++-----
 butane_core/src/codegen/mod.rs    | 76 +++++++++++++++++++++++++++++--
 butane_core/src/migrations/adb.rs |  7 +--
 3 files changed, 88 insertions(+), 18 deletions(-)

diff --git a/butane_core/src/codegen/dbobj.rs b/butane_core/src/codegen/dbobj.rs
index 15235e7..a59f423 100644
--- a/butane_core/src/codegen/dbobj.rs
+++ b/butane_core/src/codegen/dbobj.rs
@@ -6,7 +6,8 @@ use syn::{spanned::Spanned, Field, ItemStruct, LitStr};
 
 use super::{
     extract_path_from_type, fields, get_autopk_sql_type, get_type_argument, is_auto,
-    is_many_to_many, is_row_field, make_ident_literal_str, make_lit, pk_field,
+    is_many_to_many, is_row_field, make_ident_literal_str, make_lit, pk_field, verify_default,
+    verify_table_attribute,
 };
 use crate::migrations::adb::{DeferredSqlType, TypeIdentifier, MANY_SUFFIX};
 use crate::SqlType;
@@ -23,11 +24,6 @@ pub fn impl_dbobject(ast_struct: &ItemStruct, config: &Config) -> TokenStream2 {
     let tablelit = make_tablelit(config, tyname);
     let fields_type = fields_type(tyname);
 
-    let err = verify_fields(ast_struct);
-    if let Some(err) = err {
-        return err;
-    }
-
     let pk_field = pk_field(ast_struct).unwrap();
     let pktype = &pk_field.ty;
     let pkident = pk_field.ident.clone().unwrap();
@@ -384,13 +380,18 @@ fn many_table_lit(ast_struct: &ItemStruct, field: &Field, config: &Config) -> Li
     make_lit(&format!("{}_{}{MANY_SUFFIX}", tyname, ident.strip_raw()))
 }
 
+/// Check that a model's definition is supported. Returns a compiler error if it is not.
+pub fn verify(ast_struct: &ItemStruct) -> Option<TokenStream2> {
+    verify_table_attribute(ast_struct).or_else(|| verify_fields(ast_struct))
+}
+
 fn verify_fields(ast_struct: &ItemStruct) -> Option<TokenStream2> {
-    let pk_field = pk_field(ast_struct);
-    if pk_field.is_none() {
-        return Some(make_compile_error!(ast_struct.span() => "No pk field found"));
-    };
-    let pk_field = pk_field.unwrap();
+    // Without a primary key there are no tables to make.
+    let pk_field = pk_field(ast_struct)?;
     for f in fields(ast_struct) {
+        if let Some(err) = verify_default(f) {
+            return Some(err);
+        }
         if is_auto(f) {
             let path = extract_path_from_type(&f.ty);
             match get_autopk_sql_type(path) {
diff --git a/butane_core/src/codegen/mod.rs b/butane_core/src/codegen/mod.rs
index f5848e5..4092e7f 100644
--- a/butane_core/src/codegen/mod.rs
+++ b/butane_core/src/codegen/mod.rs
@@ -9,12 +9,12 @@ use desynt::{create_static_resolver, PathResolver, StripRaw};
 use phf::{phf_map, Map};
 use proc_macro2::TokenStream as TokenStream2;
 use proc_macro2::{Ident, Span, TokenTree};
-use quote::{quote, ToTokens};
+use quote::{quote, quote_spanned, ToTokens};
 use regex::Regex;
 use syn::parse_quote;
 use syn::{
-    punctuated::Punctuated, Attribute, Field, ItemEnum, ItemStruct, ItemType, Lit, LitStr, Meta,
-    MetaNameValue,
+    punctuated::Punctuated, spanned::Spanned, Attribute, Field, ItemEnum, ItemStruct, ItemType,
+    Lit, LitStr, Meta, MetaNameValue,
 };
 
 use crate::migrations::adb::{DeferredSqlType, TypeIdentifier, TypeKey};
@@ -96,6 +96,10 @@ where
     M: MigrationMut,
 {
     let config: dbobj::Config = config_from_attributes(ast_struct);
+    // A definition which is refused must not be recorded.
+    if let Some(err) = dbobj::verify(ast_struct) {
+        return (err, dbobj::add_fieldexprs(ast_struct, &config));
+    }
     migration::write_table_to_disk(ms, ast_struct, &config).unwrap();
     let impltraits = dbobj::impl_dbobject(ast_struct, &config);
     let fieldexprs = dbobj::add_fieldexprs(ast_struct, &config);
@@ -328,6 +332,25 @@ fn config_from_attributes(ast_struct: &ItemStruct) -> dbobj::Config {
     config
 }
 
+/// Check that there is at most one `table` attribute, and that it names a table.
+fn verify_table_attribute(ast_struct: &ItemStruct) -> Option<TokenStream2> {
+    let mut attrs = ast_struct
+        .attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("table"));
+    let attr = attrs.next()?;
+    if attrs.next().is_some() {
+        return Some(make_compile_error!(attr.span()=> "More than one table attribute"));
+    }
+    match config_from_attributes(ast_struct).table_name {
+        None => Some(make_compile_error!(attr.span()=> "Expected #[table = \"NAME\"]")),
+        Some(name) if name.contains(['/', '\\', '\0']) => {
+            Some(make_compile_error!(attr.span()=> "Unsupported table name {name}"))
+        }
+        Some(_) => None,
+    }
+}
+
 fn remove_helper_field_attributes(
     fields: &mut syn::Fields,
 ) -> std::result::Result<&syn::FieldsNamed, TokenStream2> {
@@ -516,6 +539,48 @@ fn get_default(field: &Field) -> std::result::Result<Option<SqlVal>, CompilerErr
     Ok(Some(sqlval_from_lit(lit)?))
 }
 
+/// Check that the field's default, if any, is a value its type may have.
+fn verify_default(field: &Field) -> Option<TokenStream2> {
+    let mut attrs = field
+        .attrs
+        .iter()
+        .filter(|attr| attr.path().is_ident("default"));
+    let attr = attrs.next()?;
+    if attrs.next().is_some() {
+        return Some(make_compile_error!(attr.span()=> "More than one default attribute"));
+    }
+    // What is malformed is reported when the table is made.
+    let val = get_default(field).ok()??;
+    if !is_row_field(field) {
+        return None;
+    }
+    let ty = match get_deferred_sql_type(extract_path_from_type(&field.ty)) {
+        DeferredSqlType::KnownId(TypeIdentifier::Ty(ty)) => ty,
+        // Declared elsewhere
+        _ => return None,
+    };
+    let fits = match val {
+        SqlVal::Bool(_) => ty == SqlType::Bool,
+        SqlVal::Int(_) => matches!(
+            ty,
+            SqlType::Int | SqlType::BigInt | SqlType::Real | SqlType::Text
+        ),
+        SqlVal::BigInt(_) => matches!(ty, SqlType::BigInt | SqlType::Real | SqlType::Text),
+        SqlVal::Real(val) => ty == SqlType::Real && val.is_finite(),
+        SqlVal::Text(_) => !matches!(
+            ty,
+            SqlType::Bool | SqlType::Int | SqlType::BigInt | SqlType::Real | SqlType::Blob
+        ),
+        SqlVal::Blob(_) => ty == SqlType::Blob,
+        _ => true,
+    };
+    if fits {
+        None
+    } else {
+        Some(make_compile_error!(attr.span()=> "The default is not of the field's type"))
+    }
+}
+
 fn some_id(ty: SqlType) -> Option<TypeIdentifier> {
     Some(TypeIdentifier::Ty(ty))
 }
@@ -643,7 +708,10 @@ fn sqlval_from_lit(lit: Lit) -> std::result::Result<SqlVal, CompilerErrorMsg> {
             }),
             Err(_) => Err(make_compile_error!("integer literal is too large").into()),
         },
-        Lit::Float(lit) => Ok(SqlVal::Real(lit.base10_parse().unwrap())),
+        Lit::Float(lit) => match lit.base10_parse() {
+            Ok(val) => Ok(SqlVal::Real(val)),
+            Err(_) => Err(make_compile_error!("malformed float literal").into()),
+        },
         Lit::Bool(lit) => Ok(SqlVal::Bool(lit.value)),
         Lit::Verbatim(_) => {
             Err(make_compile_error!("raw verbatim literals are not supported").into())
diff --git a/butane_core/src/migrations/adb.rs b/butane_core/src/migrations/adb.rs
index 49bfbea..781e407 100644
--- a/butane_core/src/migrations/adb.rs
+++ b/butane_core/src/migrations/adb.rs
@@ -672,9 +672,10 @@ pub fn diff(old: &ADB, new: &ADB) -> Vec<Operation> {
 fn referring_first<'a>(adb: &ADB, mut names: Vec<&'a str>) -> Vec<&'a str> {
     let refers = |from: &str, to: &str| {
         from != to
-            && adb.tables[from].columns.iter().any(
-                |col| matches!(&col.reference, Some(ARef::Literal(l)) if l.table_name == to),
-            )
+            && adb.tables[from]
+                .columns
+                .iter()
+                .any(|col| matches!(&col.reference, Some(ARef::Literal(l)) if l.table_name == to))
     };
     let mut ordered = Vec::with_capacity(names.len());
     while !names.is_empty() {
-- 
2.43.0


From 59bb920119c1d75e3a5a478b1980da8328c95873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:34 +0000
Subject: [PATCH 51/74] fix: a FieldType with a raw name is recorded under the
 name its fields refer to

---
 butane_codegen/src/lib.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/butane_codegen/src/lib.rs b/butane_codegen/src/lib.rs
index f1e0486..7422fa4 100644
--- a/butane_codegen/src/lib.rs
+++ b/butane_codegen/src/lib.rs
@@ -13,6 +13,7 @@ use proc_macro::TokenStream;
 use proc_macro2::TokenStream as TokenStream2;
 use proc_macro2::TokenTree;
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{Expr, Ident};
 
 mod filter;
@@ -324,7 +325,7 @@ fn derive_field_type_for_newtype(ident: &Ident, sqltype: SqlType) -> TokenStream
     let mut migrations = migrations_for_dir();
     codegen::add_custom_type(
         &mut migrations,
-        ident.to_string(),
+        ident.unraw().to_string(),
         DeferredSqlType::KnownId(TypeIdentifier::Ty(sqltype)),
     )
     .unwrap();
@@ -368,7 +369,7 @@ fn derive_field_type_for_enum(ident: &Ident, data_enum: syn::DataEnum) -> TokenS
 
     codegen::add_custom_type(
         &mut migrations,
-        ident.to_string(),
+        ident.unraw().to_string(),
         DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Text)),
     )
     .unwrap();
@@ -441,7 +442,7 @@ fn derive_field_type_with_json(struct_name: &Ident) -> TokenStream2 {
 
     codegen::add_custom_type(
         &mut migrations,
-        struct_name.to_string(),
+        struct_name.unraw().to_string(),
         DeferredSqlType::KnownId(TypeIdentifier::Ty(SqlType::Json)),
     )
     .unwrap();
-- 
2.43.0


From 40c2c137e7d07f21cea8190049d265d3e8bfa366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:17 +0000
Subject: [PATCH 52/74] fix: filters may name fields with raw identifiers

---
 butane_codegen/src/filter.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/butane_codegen/src/filter.rs b/butane_codegen/src/filter.rs
index c8627e6..f9503fd 100755
--- a/butane_codegen/src/filter.rs
+++ b/butane_codegen/src/filter.rs
@@ -29,10 +29,6 @@ pub fn handle_expr(fields: &impl ToTokens, expr: &Expr) -> TokenStream2 {
     }
 }
 
-fn ident(name: &str) -> Ident {
-    Ident::new(name, Span::call_site())
-}
-
 fn handle_block(block: &syn::Block) -> TokenStream2 {
     let stmts = &block.stmts;
     quote!(#(#stmts)*)
@@ -128,7 +124,13 @@ fn fieldexpr<F>(fields: &impl ToTokens, field: &F) -> TokenStream2
 where
     F: ToTokens + Spanned,
 {
-    let fieldexpr_ident = ident(&format!("{}", field.into_token_stream()));
     let span = field.span();
-    quote_spanned!(span=> #fields.#fieldexpr_ident())
+    // Not made from text, as the identifier may be a raw one.
+    match syn::parse2::<Ident>(field.into_token_stream()) {
+        Ok(mut fieldexpr_ident) => {
+            fieldexpr_ident.set_span(Span::call_site());
+            quote_spanned!(span=> #fields.#fieldexpr_ident())
+        }
+        Err(_) => make_compile_error!(span=> "Expected the name of a field"),
+    }
 }
-- 
2.43.0


From 4f448fe5acc190284ecfd0178b8fd4acb078b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:17 +0000
Subject: [PATCH 53/74] fix: a field may be named default

---
 butane_core/src/codegen/dbobj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/codegen/dbobj.rs b/butane_core/src/codegen/dbobj.rs
index a59f423..877ee1e 100644
--- a/butane_core/src/codegen/dbobj.rs
+++ b/butane_core/src/codegen/dbobj.rs
@@ -243,7 +243,7 @@ pub fn add_fieldexprs(ast_struct: &ItemStruct, config: &Config) -> TokenStream2
         impl #tyname {
             /// Get fields.
             pub fn fields() -> #fields_type {
-                #fields_type::default()
+                #fields_type {}
             }
         }
         /// Helper struct for butane model.
-- 
2.43.0


From 32cd90b710ef673101e80e5dc3798cdd86ad4e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:16 +0000
Subject: [PATCH 54/74] fix: on PostgreSQL, an automatic key may be named like
 a keyword

---
 butane_core/src/db/pg.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 4daf865..4ed4e6e 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -241,7 +241,12 @@ where
             &mut PgPlaceholderSource::new(),
             &mut sql,
         );
-        write!(&mut sql, " RETURNING {}", pkcol.name()).unwrap();
+        write!(
+            &mut sql,
+            " RETURNING {}",
+            helper::quote_reserved_word(pkcol.name())
+        )
+        .unwrap();
         if cfg!(feature = "log") {
             debug!("insert sql {sql}");
         }
-- 
2.43.0


From 20248a2a728ea49e810f8bb8026c164cb85c4cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:53 +0000
Subject: [PATCH 55/74] fix: names may be keywords that sqlparser does not know

---
 butane_core/src/db/helper.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 8828d4a..b612d41 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -19,9 +19,15 @@ pub(crate) trait PlaceholderSource {
     fn next_placeholder(&mut self) -> Cow<'_, str>;
 }
 
+/// Words which are reserved by a backend, but not known to sqlparser.
+const MORE_KEYWORDS: [&str; 3] = ["ANALYSE", "ISNULL", "VARIADIC"];
+
 /// Quotes the `word` if it is a reserved word.
 pub fn quote_reserved_word(word: &str) -> Cow<'_, str> {
-    if sqlparser::keywords::ALL_KEYWORDS.contains(&word.to_uppercase().as_str()) {
+    let upper = word.to_uppercase();
+    if sqlparser::keywords::ALL_KEYWORDS.contains(&upper.as_str())
+        || MORE_KEYWORDS.contains(&upper.as_str())
+    {
         format!("\"{}\"", word).into()
     } else {
         word.into()
-- 
2.43.0


From 87fb3facca8cac557b8259645a01644a99341c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:05 +0000
Subject: [PATCH 56/74] fix: filters work in modules with a model named Box

---
 butane_codegen/src/filter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/butane_codegen/src/filter.rs b/butane_codegen/src/filter.rs
index f9503fd..6f44b5a 100755
--- a/butane_codegen/src/filter.rs
+++ b/butane_codegen/src/filter.rs
@@ -44,8 +44,12 @@ fn handle_bin_op(fields: &impl ToTokens, binop: &ExprBinary) -> TokenStream2 {
         BinOp::Gt(_) => quote!(#left.gt(&#right)),
         BinOp::Le(_) => quote!(#left.le(&#right)),
         BinOp::Ge(_) => quote!(#left.ge(&#right)),
-        BinOp::And(_) => quote!(butane::query::BoolExpr::And(Box::new(#left), Box::new(#right))),
-        BinOp::Or(_) => quote!(butane::query::BoolExpr::Or(Box::new(#left), Box::new(#right))),
+        BinOp::And(_) => {
+            quote!(butane::query::BoolExpr::And(std::boxed::Box::new(#left), std::boxed::Box::new(#right)))
+        }
+        BinOp::Or(_) => {
+            quote!(butane::query::BoolExpr::Or(std::boxed::Box::new(#left), std::boxed::Box::new(#right)))
+        }
         _ => quote!(compile_error!("Unsupported binary operator")),
     }
 }
-- 
2.43.0


From bfb0abf06541c551caf345c1bd991e72486fd8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 57/74] fix: a field may be named into

---
 butane_core/src/codegen/dbobj.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/codegen/dbobj.rs b/butane_core/src/codegen/dbobj.rs
index 877ee1e..46cf2b9 100644
--- a/butane_core/src/codegen/dbobj.rs
+++ b/butane_core/src/codegen/dbobj.rs
@@ -247,6 +247,7 @@ pub fn add_fieldexprs(ast_struct: &ItemStruct, config: &Config) -> TokenStream2
             }
         }
         /// Helper struct for butane model.
+        #[derive(Clone, Copy)]
         #vis struct #fields_type;
         impl #fields_type {
             #(#fieldexprs)*
@@ -298,9 +299,10 @@ fn fieldexpr_func(
             )
         }
     };
+    // By value, as a method of a trait such as `into` would otherwise take precedence.
     quote!(
         /// Create query expression.
-        #vis fn #fid(&self) -> #field_expr_type {
+        #vis fn #fid(self) -> #field_expr_type {
             #field_expr_ctor
         }
     )
-- 
2.43.0


From 3b9e53125722cad729e031312ee0f9fa47691a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:45 +0000
Subject: [PATCH 58/74] fix: on SQLite, an unconditional filter holds even for
 a model with a field named true

---
 butane_core/src/db/helper.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index b612d41..10ff525 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -59,7 +59,8 @@ where
         },
         Placeholder => w.write_str(&pls.next_placeholder()),
         Condition(c) => match *c {
-            True => write!(w, "TRUE"),
+            // Not TRUE, which SQLite takes for a column of that name.
+            True => write!(w, "1 = 1"),
             Eq(col, ex) => match ex {
                 Expr::Val(SqlVal::Null) => write!(w, "{} IS NULL", quote_reserved_word(col)),
                 _ => write!(w, "{} = ", quote_reserved_word(col))
@@ -86,7 +87,7 @@ where
                 let mut remaining = conds.len();
                 if conds.is_empty() {
                     // An empty conjunction holds for every row
-                    w.write_str("TRUE").unwrap();
+                    w.write_str("1 = 1").unwrap();
                 }
                 for cond in conds {
                     // future perf improvement: figure out a clean way to avoid the extra boxing
-- 
2.43.0


From 75083366134b632ad0b76915d56b7f50f7c1cf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:13 +0000
Subject: [PATCH 59/74] fix: conditions on a many-to-many field may use columns
 named owner or has

---
 butane_core/src/query/fieldexpr.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/butane_core/src/query/fieldexpr.rs b/butane_core/src/query/fieldexpr.rs
index f2c3f70..4ba2543 100644
--- a/butane_core/src/query/fieldexpr.rs
+++ b/butane_core/src/query/fieldexpr.rs
@@ -4,7 +4,7 @@ use std::borrow::{Borrow, Cow};
 use std::marker::PhantomData;
 
 use crate::fkey::ForeignKey;
-use crate::query::{BoolExpr, Column, Expr, Join};
+use crate::query::{BoolExpr, Expr};
 use crate::sqlval::{FieldType, SqlVal, ToSql};
 use crate::DataObject;
 
@@ -120,16 +120,18 @@ where
         }
     }
     pub fn contains(&self, q: BoolExpr) -> BoolExpr {
-        BoolExpr::SubqueryJoin {
+        // Nested rather than joined, as columns of the owned model may be named like the
+        // columns of the many table.
+        BoolExpr::Subquery {
             col: O::PKCOL,
-            tbl2: Cow::Borrowed(T::TABLE),
-            col2: Column::new(self.many_table, "owner"),
-            joins: vec![Join::Inner {
-                join_table: self.many_table,
-                col1: Column::new(self.many_table, "has"),
-                col2: Column::new(T::TABLE, T::PKCOL),
-            }],
-            expr: Box::new(q),
+            tbl2: Cow::Borrowed(self.many_table),
+            tbl2_col: "owner",
+            expr: Box::new(BoolExpr::Subquery {
+                col: "has",
+                tbl2: Cow::Borrowed(T::TABLE),
+                tbl2_col: T::PKCOL,
+                expr: Box::new(q),
+            }),
         }
     }
     pub fn containspk(&self, pk: impl Borrow<<T::PKType as FieldType>::RefType>) -> BoolExpr {
-- 
2.43.0


From b7f1f9e06f25484df0113e1cea71bb6a4f4f0c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:14 +0000
Subject: [PATCH 60/74] fix: on SQLite, a model with an automatic key may have
 a field named rowid

---
 butane_core/src/db/sqlite.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index b2c46a9..a3033d2 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -301,11 +301,17 @@ impl ConnectionMethods for rusqlite::Connection {
             debug!("values {values:?}");
         }
         self.execute(&sql, rusqlite::params_from_iter(values))?;
+        // A column may be named like the row id, in which case it hides it.
+        let rowid = ["ROWID", "_ROWID_", "OID"]
+            .into_iter()
+            .find(|name| !columns.iter().any(|c| c.name().eq_ignore_ascii_case(name)))
+            .unwrap_or(pkcol.name());
         let pk: SqlVal = self.query_row_and_then(
             &format!(
-                "SELECT {} FROM {} WHERE ROWID = last_insert_rowid()",
+                "SELECT {} FROM {} WHERE {} = last_insert_rowid()",
                 helper::quote_reserved_word(pkcol.name()),
                 helper::quote_reserved_word(table),
+                helper::quote_reserved_word(rowid),
             ),
             [],
             |row| sql_val_from_rusqlite(row.get_ref_unwrap(0), pkcol),
-- 
2.43.0


From 7b3ad23154edde2f1a80b37a2e9278321dfe17d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:14 +0000
Subject: [PATCH 61/74] fix: saving again works for a table named excluded

In ON CONFLICT DO UPDATE, excluded.x names the table itself when the table is
called excluded: on SQLite, saving a changed object silently changed nothing,
and PostgreSQL refused the statement. Such a table gets another name in the
statement.
---
 butane_core/src/db/helper.rs | 11 +++++++++++
 butane_core/src/db/pg.rs     |  2 +-
 butane_core/src/db/sqlite.rs |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/helper.rs b/butane_core/src/db/helper.rs
index 10ff525..3adc07e 100644
--- a/butane_core/src/db/helper.rs
+++ b/butane_core/src/db/helper.rs
@@ -34,6 +34,17 @@ pub fn quote_reserved_word(word: &str) -> Cow<'_, str> {
     }
 }
 
+/// The `table` as the target of an upsert, in which a table named excluded needs another name
+/// to be told from the row proposed for insertion.
+#[cfg(any(feature = "pg", feature = "sqlite"))]
+pub fn upsert_target(table: &str) -> Cow<'_, str> {
+    if table.eq_ignore_ascii_case("excluded") {
+        format!("{} AS upsert_target", quote_reserved_word(table)).into()
+    } else {
+        quote_reserved_word(table)
+    }
+}
+
 /// Writes to `w` the SQL to express the expression given in `expr`.
 ///
 /// Values contained in `expr` are rendered as placeholders in the SQL
diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 4ed4e6e..8f8c084 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -941,7 +941,7 @@ pub fn sql_insert_or_replace_with_placeholders(
     w: &mut impl Write,
 ) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {} (", helper::upsert_target(table)).unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold(1, |n, _| {
diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index a3033d2..9cf52cb 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -949,7 +949,7 @@ fn rebuild_table(
 /// Write SQL that performs an insert or update.
 pub fn sql_insert_or_update(table: &str, columns: &[Column], pkcol: &Column, w: &mut impl Write) {
     write!(w, "INSERT ").unwrap();
-    write!(w, "INTO {} (", helper::quote_reserved_word(table)).unwrap();
+    write!(w, "INTO {} (", helper::upsert_target(table)).unwrap();
     helper::list_columns(columns, w);
     write!(w, ") VALUES (").unwrap();
     columns.iter().fold("", |sep, _| {
-- 
2.43.0


From bf89c85e8a66b0c6cb38b928a137e281d8e3ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 62/74] fix: on Turso, a failed statement does not leave its
 locks behind

The database keeps the locks of a statement that failed outside of a
transaction until the next statement of the connection ends: a connection
which went back to its pool kept everybody else from writing.
---
 butane_core/src/db/turso.rs | 48 +++++++++++++++----------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 2591e14..3b05f13 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -173,6 +173,18 @@ impl TursoConnection {
         Ok(TursoConnection { conn })
     }
 
+    /// Executes a single statement.
+    async fn execute_one(&self, sql: &str, params: Vec<turso::Value>) -> Result<u64> {
+        let executed = self.conn.execute(sql, params).await;
+        if executed.is_err() && self.conn.is_autocommit().unwrap_or(false) {
+            // The database keeps what the failed statement locked until the next statement ends.
+            if let Ok(mut rows) = self.conn.query("SELECT 1", ()).await {
+                while let Ok(Some(_)) = rows.next().await {}
+            }
+        }
+        executed.map_err(|e| Error::Internal(e.to_string()))
+    }
+
     /// Transform Subquery expressions into In expressions by executing the subquery first.
     /// This is necessary because Turso/libSQL doesn't support subqueries in WHERE clauses.
     async fn transform_subqueries(&self, expr: BoolExpr) -> Result<BoolExpr> {
@@ -330,10 +342,7 @@ impl ConnectionMethods for TursoConnection {
         // Turso doesn't have execute_batch, so we need to execute statements one by one
         // Split on semicolons and execute each statement separately
         for statement in split_statements(sql) {
-            self.conn()?
-                .execute(statement, ())
-                .await
-                .map_err(|e| Error::Internal(e.to_string()))?;
+            self.execute_one(statement, Vec::new()).await?;
         }
         Ok(())
     }
@@ -443,10 +452,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(v))
             .collect::<Result<_>>()?;
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.execute_one(&sql, params).await?;
 
         // Get the last inserted rowid
         let query = "SELECT last_insert_rowid()".to_string();
@@ -490,10 +496,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(v))
             .collect::<Result<_>>()?;
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.execute_one(&sql, params).await?;
         Ok(())
     }
 
@@ -510,10 +513,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(v))
             .collect::<Result<_>>()?;
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.execute_one(&sql, params).await?;
         Ok(())
     }
 
@@ -538,10 +538,7 @@ impl ConnectionMethods for TursoConnection {
             .map(|v| sqlval_to_turso(v))
             .collect::<Result<_>>()?;
         params.push(sqlval_to_turso(&pk)?);
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.execute_one(&sql, params).await?;
         Ok(())
     }
 
@@ -552,10 +549,7 @@ impl ConnectionMethods for TursoConnection {
             helper::quote_reserved_word(pkcol)
         );
         let params = vec![sqlval_to_turso(&pk.as_ref())?];
-        self.conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        self.execute_one(&sql, params).await?;
         Ok(())
     }
 
@@ -575,11 +569,7 @@ impl ConnectionMethods for TursoConnection {
             .iter()
             .map(|v| sqlval_to_turso(&v.as_ref()))
             .collect::<Result<_>>()?;
-        let rows_affected = self
-            .conn()?
-            .execute(&sql, params)
-            .await
-            .map_err(|e| Error::Internal(e.to_string()))?;
+        let rows_affected = self.execute_one(&sql, params).await?;
         Ok(rows_affected as usize)
     }
 
-- 
2.43.0


From 58e112c8cf95471b9b426ed15fe71d8a67f64c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:49 +0000
Subject: [PATCH 63/74] fix: on Turso, a transaction which the database ended
 does not go on without one

The database rolls a transaction back when a statement of it is abandoned. What
followed in that transaction was then committed statement by statement. Now it
is refused.
---
 butane_core/src/db/turso.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 3b05f13..0a26807 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -634,7 +634,19 @@ impl<'c> TursoTransaction<'c> {
     }
 
     fn get(&self) -> Result<&'c TursoConnection> {
-        self.conn.ok_or_else(Self::already_consumed)
+        let conn = self.conn.ok_or_else(Self::already_consumed)?;
+        if Self::is_over(conn) {
+            return Err(Error::Internal(
+                "Transaction was rolled back by the database".to_string(),
+            ));
+        }
+        Ok(conn)
+    }
+
+    /// Whether the database has ended the transaction on its own, which it does when it cannot
+    /// complete a statement.
+    fn is_over(conn: &TursoConnection) -> bool {
+        conn.conn.is_autocommit().unwrap_or(true)
     }
 
     fn already_consumed() -> Error {
@@ -732,7 +744,10 @@ impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
     }
 
     async fn rollback(&mut self) -> Result<()> {
-        self.get()?.execute("ROLLBACK").await?;
+        let conn = self.conn.ok_or_else(Self::already_consumed)?;
+        if !Self::is_over(conn) {
+            conn.execute("ROLLBACK").await?;
+        }
         self.conn = None;
         Ok(())
     }
@@ -745,7 +760,7 @@ impl<'c> BackendTransaction<'c> for TursoTransaction<'c> {
 impl<'c> Drop for TursoTransaction<'c> {
     fn drop(&mut self) {
         if let Some(conn) = self.conn.take() {
-            if !self.committed {
+            if !self.committed && !Self::is_over(conn) {
                 // If transaction was not committed or rolled back, roll it back. Do so on a
                 // thread of its own: there may be no tokio runtime here, or one which does
                 // not permit blocking.
-- 
2.43.0


From 6715d1d5c546eb5385317b5bc64bac3ee22b8981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:32 +0000
Subject: [PATCH 64/74] fix: migrate applies nothing when the migration to
 migrate to is not one to apply

---
 butane_cli/src/lib.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index f7722df..ce61088 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -266,16 +266,27 @@ pub fn detach_latest_migration(base_dir: &PathBuf) -> Result<()> {
 pub fn migrate(base_dir: &PathBuf, name: Option<String>) -> Result<()> {
     let spec = load_connspec(base_dir)?;
     let mut conn = db::connect(&spec)?;
-    let to_apply = get_migrations(base_dir)?.unapplied_migrations(&conn)?;
+    let ms = get_migrations(base_dir)?;
+    let mut to_apply = ms.unapplied_migrations(&conn)?;
+    if let Some(ref name) = name {
+        match to_apply.iter().position(|m| m.name() == *name) {
+            Some(index) => to_apply.truncate(index + 1),
+            None => {
+                if ms.all_migrations()?.iter().any(|m| m.name() == *name) {
+                    eprintln!("Migration {name} is already applied");
+                } else {
+                    eprintln!("No such migration!");
+                }
+                std::process::exit(1);
+            }
+        }
+    }
     println!("{} migrations to apply", to_apply.len());
     for m in to_apply {
         println!("Applying migration {}", m.name());
         m.apply(&mut conn)?;
-        if let Some(ref name) = name {
-            if name == &m.name().to_string() {
-                println!("Finishing at migration {}", m.name());
-                break;
-            }
+        if name.as_deref() == Some(m.name().as_ref()) {
+            println!("Finishing at migration {}", m.name());
         }
     }
     Ok(())
-- 
2.43.0


From 63eae9c9f6fa3f3c06f156d2fb7c69897c80596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:32 +0000
Subject: [PATCH 65/74] fix: unmigrate to a migration which is not applied
 reports that

---
 butane_cli/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index ce61088..8b96ef6 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -339,7 +339,10 @@ pub fn unmigrate_to(base_dir: &Path, mut conn: Connection, to: &str) -> Result<(
         let index = to_unapply
             .iter()
             .position(|m| m.name() == latest.name())
-            .unwrap();
+            .unwrap_or_else(|| {
+                eprintln!("Migration {to} has not been applied");
+                std::process::exit(1);
+            });
         to_unapply = to_unapply.split_at(index + 1).0.into();
     }
 
-- 
2.43.0


From e396c57a9887235383bfb13f337224671839e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:32 +0000
Subject: [PATCH 66/74] fix: migrations are not given names which cannot be
 those of directories

---
 butane_cli/src/lib.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 8b96ef6..5832aeb 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -75,13 +75,24 @@ pub fn init(base_dir: &PathBuf, name: &str, connstr: &str, connect: bool) -> Res
     Ok(())
 }
 
-/// Make a migration.
-/// The backends are selected from the existing migrations, or the initialised connection.
-pub fn make_migration(base_dir: &Path, name: Option<&String>) -> Result<()> {
+/// The name of a new migration, which is also that of its directory.
+fn migration_name(name: Option<&String>) -> Result<String> {
     let name = match name {
         Some(name) => format!("{}_{}", default_name(), name),
         None => default_name(),
     };
+    if Path::new(&name).file_name() != Some(name.as_ref()) || name.len() > 255 {
+        return Err(anyhow::anyhow!(
+            "Migration name {name} is not suitable for a directory"
+        ));
+    }
+    Ok(name)
+}
+
+/// Make a migration.
+/// The backends are selected from the existing migrations, or the initialised connection.
+pub fn make_migration(base_dir: &Path, name: Option<&String>) -> Result<()> {
+    let name = migration_name(name)?;
     let mut ms = get_migrations(base_dir)?;
     if ms.all_migrations()?.iter().any(|m| m.name() == name) {
         eprintln!("Migration {name} already exists");
@@ -608,10 +619,7 @@ pub fn list_migrations(base_dir: &PathBuf) -> Result<()> {
 
 /// Collapse multiple applied migrations into a new migration.
 pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>) -> Result<()> {
-    let name = match new_initial_name {
-        Some(name) => format!("{}_{}", default_name(), name),
-        None => default_name(),
-    };
+    let name = migration_name(new_initial_name)?;
 
     let mut ms = get_migrations(base_dir)?;
 
-- 
2.43.0


From 757250c2ed77d0095db29eeb3a729025008114b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:13 +0000
Subject: [PATCH 67/74] fix: collapse leaves the migrations alone when the
 database refuses the change

---
 butane_cli/src/lib.rs             | 11 +++++++----
 butane_core/src/migrations/mod.rs |  3 +--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 5832aeb..75b3da0 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -15,7 +15,7 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use butane::db::Backend;
+use butane::db::{Backend, BackendConnection};
 use butane::db::{Connection, ConnectionMethods};
 use butane::migrations::adb;
 use butane::migrations::adb::{diff, AColumn, ARef, Operation, ADB};
@@ -643,7 +643,7 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
     // TODO: it should also be possible to collapse migrations on the filesystem
     // when the database hasnt been migrated at all.
     let spec = load_connspec(base_dir)?;
-    let conn = db::connect(&spec)?;
+    let mut conn = db::connect(&spec)?;
     let latest = ms.last_applied_migration(&conn)?;
     if latest.is_none() {
         eprintln!("There are no applied migrations to collapse");
@@ -651,10 +651,13 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
     }
 
     let latest_db = latest.unwrap().db()?;
-    ms.clear_migrations(&conn)?;
+    // The migrations are only replaced if the database can be changed accordingly
+    let tx = conn.transaction()?;
+    ms.clear_migrations(&tx)?;
     ms.create_migration_to(&backends, &name, None, latest_db)?;
     let new_migration = ms.latest().unwrap();
-    new_migration.mark_applied(&conn)?;
+    new_migration.mark_applied(&tx)?;
+    tx.commit()?;
 
     update_embedded(base_dir)?;
 
diff --git a/butane_core/src/migrations/mod.rs b/butane_core/src/migrations/mod.rs
index 59ef67b..826576c 100644
--- a/butane_core/src/migrations/mod.rs
+++ b/butane_core/src/migrations/mod.rs
@@ -212,9 +212,8 @@ where
     /// the record of their existence/application from the database. The database
     /// schema is not modified, nor is any other data removed. Use carefully.
     fn clear_migrations(&mut self, conn: &impl ConnectionMethods) -> Result<()> {
-        self.delete_migrations()?;
         conn.delete_where(ButaneMigration::TABLE, query::BoolExpr::True)?;
-        Ok(())
+        self.delete_migrations()
     }
 
     /// Get a pseudo-migration representing the current state.
-- 
2.43.0


From c973e3cac4771f98cafa5730968bab3c75883fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:13 +0000
Subject: [PATCH 68/74] fix: migrations which end without tables are not lost
 by collapse

---
 butane_cli/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 75b3da0..15f8648 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -651,6 +651,10 @@ pub fn collapse_migrations(base_dir: &PathBuf, new_initial_name: Option<&String>
     }
 
     let latest_db = latest.unwrap().db()?;
+    if latest_db.tables().next().is_none() {
+        eprintln!("There are no tables in the applied migrations to collapse");
+        std::process::exit(1);
+    }
     // The migrations are only replaced if the database can be changed accordingly
     let tx = conn.transaction()?;
     ms.clear_migrations(&tx)?;
-- 
2.43.0


From f14e63becf946b1b573f9367f618f22de5f7da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:55 +0000
Subject: [PATCH 69/74] fix: clear data deletes rows other rows refer to, or
 nothing at all

---
 butane_cli/src/lib.rs | 85 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 79 insertions(+), 6 deletions(-)

diff --git a/butane_cli/src/lib.rs b/butane_cli/src/lib.rs
index 15f8648..cb9fb7e 100644
--- a/butane_cli/src/lib.rs
+++ b/butane_cli/src/lib.rs
@@ -16,14 +16,14 @@ use std::{
 };
 
 use butane::db::{Backend, BackendConnection};
-use butane::db::{Connection, ConnectionMethods};
+use butane::db::{BackendRows, Column, Connection, ConnectionMethods};
 use butane::migrations::adb;
-use butane::migrations::adb::{diff, AColumn, ARef, Operation, ADB};
+use butane::migrations::adb::{diff, AColumn, ARef, ATable, Operation, TypeIdentifier, ADB};
 use butane::migrations::{
     copy_migration, FsMigrations, MemMigrations, Migration, MigrationMut, Migrations, MigrationsMut,
 };
 use butane::query::BoolExpr;
-use butane::{db, migrations};
+use butane::{db, migrations, SqlVal, SqlValRef};
 use cargo_metadata::MetadataCommand;
 use chrono::Utc;
 use nonempty::NonEmpty;
@@ -678,7 +678,7 @@ pub fn delete_table(base_dir: &Path, name: &str) -> Result<()> {
 
 pub fn clear_data(base_dir: &PathBuf) -> Result<()> {
     let spec = load_connspec(base_dir)?;
-    let conn = db::connect(&spec)?;
+    let mut conn = db::connect(&spec)?;
     let latest = match get_migrations(base_dir)?.last_applied_migration(&conn)? {
         Some(m) => m,
         None => {
@@ -686,9 +686,82 @@ pub fn clear_data(base_dir: &PathBuf) -> Result<()> {
             std::process::exit(1);
         }
     };
-    for table in latest.db()?.tables() {
+    let latest_db = latest.db()?;
+    let mut tables: Vec<&ATable> = latest_db.tables().collect();
+    let mut optional = true;
+    let tx = conn.transaction()?;
+    while !tables.is_empty() {
+        // Rows can be deleted once no row of another table refers to them.
+        let referred = |t: &ATable| {
+            tables
+                .iter()
+                .any(|o| o.name != t.name && o.columns.iter().any(|c| refers(c, t, optional)))
+        };
+        let index = match tables.iter().position(|t| !referred(t)) {
+            Some(index) => index,
+            None if optional => {
+                // The tables refer to each other.
+                for table in &tables {
+                    clear_optional_references(&tx, table)?;
+                }
+                optional = false;
+                continue;
+            }
+            None => 0,
+        };
+        let table = tables.remove(index);
         println!("Deleting data from {}", table.name);
-        conn.delete_where(&table.name, BoolExpr::True)?;
+        tx.delete_where(&table.name, BoolExpr::True)?;
+    }
+    tx.commit()?;
+    Ok(())
+}
+
+/// Whether the column is a reference to the table, among those that are required or, if `optional`, all.
+fn refers(column: &AColumn, table: &ATable, optional: bool) -> bool {
+    match column.reference() {
+        Some(ARef::Literal(reference)) => {
+            reference.table_name() == table.name && (optional || !column.nullable())
+        }
+        _ => false,
+    }
+}
+
+/// Set all references in rows of the table that need not be there to NULL.
+fn clear_optional_references(conn: &impl ConnectionMethods, table: &ATable) -> Result<()> {
+    let db_column = |c: &AColumn| -> Result<Column> {
+        match c.typeid()? {
+            TypeIdentifier::Ty(ty) => Ok(Column::new(c.name().to_string().leak(), ty)),
+            TypeIdentifier::Name(name) => Err(anyhow::anyhow!("Unknown type {name}")),
+        }
+    };
+    let references: Vec<Column> = table
+        .columns
+        .iter()
+        .filter(|c| c.nullable() && c.reference().is_some())
+        .map(db_column)
+        .collect::<Result<_>>()?;
+    let Some(pk) = table.pk() else { return Ok(()) };
+    if references.is_empty() {
+        return Ok(());
+    }
+    let pk = db_column(pk)?;
+    let mut keys: Vec<SqlVal> = Vec::new();
+    let mut rows = conn.query(
+        &table.name,
+        std::slice::from_ref(&pk),
+        None,
+        None,
+        None,
+        None,
+    )?;
+    while let Some(row) = rows.next()? {
+        keys.push(row.get(0, pk.ty().clone())?.into());
+    }
+    drop(rows);
+    let nulls = vec![SqlValRef::Null; references.len()];
+    for key in keys {
+        conn.update(&table.name, pk.clone(), key.as_ref(), &references, &nulls)?;
     }
     Ok(())
 }
-- 
2.43.0


From 9b24c587dc1fd258b403dca6ff668ff58c81f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:21 +0000
Subject: [PATCH 70/74] fix: PostgreSQL statements can have more than 126
 parameters

---
 butane_core/src/db/pg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 8f8c084..85031da 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -1002,7 +1002,7 @@ fn pgtype_for_val(val: &SqlVal) -> postgres::types::Type {
 
 #[derive(Debug)]
 struct PgPlaceholderSource {
-    n: i8,
+    n: usize,
 }
 impl PgPlaceholderSource {
     fn new() -> Self {
-- 
2.43.0


From 20dd218edf298390557b51ff1c5adba278604778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:36 +0000
Subject: [PATCH 71/74] fix: integers which do not fit a field are refused, not
 truncated

---
 butane_core/src/db/sqlite.rs | 4 +++-
 butane_core/src/db/turso.rs  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/butane_core/src/db/sqlite.rs b/butane_core/src/db/sqlite.rs
index 9cf52cb..6978fa8 100644
--- a/butane_core/src/db/sqlite.rs
+++ b/butane_core/src/db/sqlite.rs
@@ -652,7 +652,9 @@ fn sql_valref_from_rusqlite<'a>(
     }
     Ok(match ty {
         SqlType::Bool => SqlValRef::Bool(val.as_i64()? != 0),
-        SqlType::Int => SqlValRef::Int(val.as_i64()? as i32),
+        SqlType::Int => {
+            SqlValRef::Int(i32::try_from(val.as_i64()?).map_err(|_| Error::OutOfRange)?)
+        }
         SqlType::BigInt => SqlValRef::BigInt(val.as_i64()?),
         SqlType::Real => SqlValRef::Real(val.as_f64()?),
         SqlType::Text => SqlValRef::Text(val.as_str()?),
diff --git a/butane_core/src/db/turso.rs b/butane_core/src/db/turso.rs
index 0a26807..c6904d3 100644
--- a/butane_core/src/db/turso.rs
+++ b/butane_core/src/db/turso.rs
@@ -863,7 +863,7 @@ fn turso_value_to_sqlval_typed(val: &turso::Value, ty: &SqlType) -> Result<SqlVa
                     )))
                 }
             };
-            SqlVal::Int(i as i32)
+            SqlVal::Int(i32::try_from(i).map_err(|_| Error::OutOfRange)?)
         }
         SqlType::BigInt => {
             let i = match val {
-- 
2.43.0


From d3541c5888298370d96a387457772f861dd52152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:12 +0000
Subject: [PATCH 72/74] fix: the current row of a query is the one next
 returned

---
 butane_core/src/db/connmethods.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butane_core/src/db/connmethods.rs b/butane_core/src/db/connmethods.rs
index 597b128..e1b0762 100644
--- a/butane_core/src/db/connmethods.rs
+++ b/butane_core/src/db/connmethods.rs
@@ -182,7 +182,8 @@ where
     }
 
     fn current(&self) -> Option<&dyn BackendRow> {
-        self.rows.get(self.idx).map(|row| row as &dyn BackendRow)
+        let idx = self.idx.checked_sub(1)?;
+        self.rows.get(idx).map(|row| row as &dyn BackendRow)
     }
 }
 
-- 
2.43.0


From 483c603b9c14822f1fd6f149d561f0d04842274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:30 +0000
Subject: [PATCH 73/74] fix: has_table looks only where a table's name is
 looked up

---
 butane_core/src/db/pg.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/db/pg.rs b/butane_core/src/db/pg.rs
index 85031da..292e85c 100644
--- a/butane_core/src/db/pg.rs
+++ b/butane_core/src/db/pg.rs
@@ -350,10 +350,11 @@ where
         Ok(cnt as usize)
     }
     async fn has_table(&self, table: &str) -> Result<bool> {
-        // future improvement, should be schema-aware
-        let future = self
-            .client()?
-            .prepare("SELECT table_name FROM information_schema.tables WHERE table_name=$1;");
+        // Only in the schemas in which the name of a table is looked up
+        let future = self.client()?.prepare(
+            "SELECT table_name FROM information_schema.tables WHERE table_name=$1 \
+                 AND table_schema = ANY(current_schemas(true)) AND table_schema <> 'pg_catalog';",
+        );
         let stmt = future.await?;
         // The server folds names to lower case unless they are quoted
         let table = match helper::quote_reserved_word(table) {
-- 
2.43.0


From 87685df082bccf804afb44720cda1c17d447eebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:33 +0000
Subject: [PATCH 74/74] fix: a migration may be created from any other, not
 only from one leading to the latest

---
 butane_core/src/migrations/fsmigrations.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/butane_core/src/migrations/fsmigrations.rs b/butane_core/src/migrations/fsmigrations.rs
index 3a05db2..1d0917e 100644
--- a/butane_core/src/migrations/fsmigrations.rs
+++ b/butane_core/src/migrations/fsmigrations.rs
@@ -191,10 +191,9 @@ impl MigrationMut for FsMigration {
             .parent()
             .ok_or(Error::MigrationError("Migrations fs not found".into()))?;
         let migrations = crate::migrations::from_root(migrations_dir);
-        let migration_list = migrations.all_migrations()?;
-        let from_info = migration_list
-            .iter()
-            .find(|&m| m.name() == *from_migration_name)
+        // It need not be one of those leading up to the latest migration.
+        let from_info = migrations
+            .get_migration(from_migration_name)
             .ok_or(Error::MigrationError("Migration not found".into()))?
             .info()?;
         let from_table_bases = from_info.table_bases;
-- 
2.43.0

