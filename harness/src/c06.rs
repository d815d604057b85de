//! C06 relational conditions follow the relations; relational deletes (C05).
use crate::db::*;
use crate::engine::*;
use crate::models::*;
use crate::{ensure, fail};
use butane::filter;
use butane_core::db::Column;
use butane_core::fkey::ForeignKey;
use butane_core::many::Many;
use butane_core::query::{BoolExpr, Expr, Join, OrderDirection};
use butane_core::{AutoPk, DataObject, DataResult, SqlVal};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;

const TAGS: [&str; 4] = ["x", "y", "it's", "%"];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Graph {
    /// (name index, score, parent: an earlier blog or itself)
    blogs: Vec<(u8, Option<i8>, Option<u8>)>,
    tags: Vec<Option<i8>>,
    /// (title index, likes, blog, alt, top, tags, seen)
    posts: Vec<(u8, Option<i8>, u8, Option<u8>, Option<u8>, Vec<u8>, Vec<u8>)>,
}
pub fn s_graph(links: bool) -> BoxedStrategy<Graph> {
    let n = || proptest::option::weighted(0.75, 0i8..4);
    let lk = if links { 4 } else { 1 };
    (
        proptest::collection::vec((0u8..3, n(), proptest::option::of(any::<u8>())), 1..5),
        proptest::collection::vec(n(), 0..4),
        proptest::collection::vec(
            (0u8..3, n(), any::<u8>(), proptest::option::of(any::<u8>()), proptest::option::of(any::<u8>()),
             proptest::collection::vec(any::<u8>(), 0..lk), proptest::collection::vec(any::<u8>(), 0..lk)),
            0..6,
        ),
    )
        .prop_map(|(blogs, tags, posts)| Graph { blogs, tags, posts })
        .boxed()
}
pub struct Built {
    blogs: Vec<Blog>,
    tags: Vec<Tag>,
    pub posts: Vec<Post>,
    ptags: Vec<Vec<usize>>,
    pseen: Vec<Vec<usize>>,
    pparent: Vec<Option<usize>>,
}
pub fn build_graph(c: &C, g: &Graph) -> Result<Built, Fail> {
    let e = |e: butane_core::Error| Fail::new("operation-failed", e.to_string());
    let mut b = Built { blogs: vec![], tags: vec![], posts: vec![], ptags: vec![], pseen: vec![], pparent: vec![] };
    for (i, (nm, sc, par)) in g.blogs.iter().enumerate() {
        let par = par.map(|p| p as usize % (i + 1));
        let mut x = Blog {
            id: AutoPk::uninitialized(),
            name: format!("b{nm}"),
            score: sc.map(|x| x as i32),
            parent: par.filter(|p| *p < i).map(|p| (&b.blogs[p]).into()),
        };
        c.save(&mut x).map_err(e)?;
        if par == Some(i) {
            x.parent = Some(ForeignKey::from_pk(x.id));
            c.save(&mut x).map_err(e)?;
        }
        b.pparent.push(par);
        b.blogs.push(x);
    }
    for (i, w) in g.tags.iter().enumerate() {
        let mut x = Tag { tag: TAGS[i].into(), w: w.map(|x| x as i32) };
        c.save(&mut x).map_err(e)?;
        b.tags.push(x);
    }
    for p in &g.posts {
        let (nb, nt) = (b.blogs.len(), b.tags.len());
        let mut x = Post {
            id: AutoPk::uninitialized(),
            title: format!("t{}", p.0),
            likes: p.1.map(|x| x as i32),
            blog: (&b.blogs[p.2 as usize % nb]).into(),
            alt: p.3.map(|i| (&b.blogs[i as usize % nb]).into()),
            top: p.4.filter(|_| nt > 0).map(|i| (&b.tags[i as usize % nt]).into()),
            tags: Many::new(),
            seen: Many::new(),
        };
        let ts: Vec<usize> = if nt > 0 { p.5.iter().map(|i| *i as usize % nt).collect() } else { vec![] };
        let ss: Vec<usize> = p.6.iter().map(|i| *i as usize % nb).collect();
        for i in &ts {
            x.tags.add(&b.tags[*i]).map_err(e)?;
        }
        for i in &ss {
            x.seen.add(&b.blogs[*i]).map_err(e)?;
        }
        c.save(&mut x).map_err(e)?;
        b.posts.push(x);
        b.ptags.push(ts);
        b.pseen.push(ss);
    }
    Ok(b)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RT {
    W(u8, i8),
    WNull,
    Name(u8),
    And(Box<RT>, Box<RT>),
    Or(Box<RT>, Box<RT>),
    Not(Box<RT>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RB {
    Score(u8, i8),
    Name(u8),
    ParentNull(bool),
    Parent(Box<RB>),
    ParentIs(u8),
    And(Box<RB>, Box<RB>),
    Or(Box<RB>, Box<RB>),
    Not(Box<RB>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RP {
    Likes(u8, i8),
    Title(u8),
    Blog(RB),
    Alt(RB),
    Top(RT),
    Tags(RT),
    Seen(RB),
    BlogIs(u8),
    AltNull(bool),
    TagIs(u8),
    And(Box<RP>, Box<RP>),
    Or(Box<RP>, Box<RP>),
    Not(Box<RP>),
    AllOf(Vec<RP>),
}
fn s_rt() -> BoxedStrategy<RT> {
    prop_oneof![
        4 => (0u8..6, 0i8..4).prop_map(|(o, v)| RT::W(o, v)),
        1 => Just(RT::WNull),
        3 => (0u8..4).prop_map(RT::Name),
    ]
    .prop_recursive(2, 4, 2, |i| {
        prop_oneof![
            (i.clone(), i.clone()).prop_map(|(a, b)| RT::And(Box::new(a), Box::new(b))),
            (i.clone(), i.clone()).prop_map(|(a, b)| RT::Or(Box::new(a), Box::new(b))),
            i.prop_map(|a| RT::Not(Box::new(a))),
        ]
    })
    .boxed()
}
fn s_rb() -> BoxedStrategy<RB> {
    prop_oneof![
        4 => (0u8..6, 0i8..4).prop_map(|(o, v)| RB::Score(o, v)),
        2 => (0u8..3).prop_map(RB::Name),
        1 => any::<bool>().prop_map(RB::ParentNull),
        1 => any::<u8>().prop_map(RB::ParentIs),
    ]
    .prop_recursive(3, 8, 2, |i| {
        prop_oneof![
            3 => i.clone().prop_map(|a| RB::Parent(Box::new(a))),
            1 => (i.clone(), i.clone()).prop_map(|(a, b)| RB::And(Box::new(a), Box::new(b))),
            1 => (i.clone(), i.clone()).prop_map(|(a, b)| RB::Or(Box::new(a), Box::new(b))),
            1 => i.prop_map(|a| RB::Not(Box::new(a))),
        ]
    })
    .boxed()
}
pub fn s_rp() -> BoxedStrategy<RP> {
    prop_oneof![
        1 => (0u8..6, 0i8..4).prop_map(|(o, v)| RP::Likes(o, v)),
        1 => (0u8..3).prop_map(RP::Title),
        3 => s_rb().prop_map(RP::Blog),
        2 => s_rb().prop_map(RP::Alt),
        2 => s_rt().prop_map(RP::Top),
        4 => s_rt().prop_map(RP::Tags),
        3 => s_rb().prop_map(RP::Seen),
        1 => any::<u8>().prop_map(RP::BlogIs),
        1 => any::<bool>().prop_map(RP::AltNull),
        1 => (0u8..4).prop_map(RP::TagIs),
    ]
    .prop_recursive(3, 8, 3, |i| {
        prop_oneof![
            2 => (i.clone(), i.clone()).prop_map(|(a, b)| RP::And(Box::new(a), Box::new(b))),
            2 => (i.clone(), i.clone()).prop_map(|(a, b)| RP::Or(Box::new(a), Box::new(b))),
            2 => i.clone().prop_map(|a| RP::Not(Box::new(a))),
            1 => proptest::collection::vec(i, 0..3).prop_map(RP::AllOf),
        ]
    })
    .boxed()
}

type B3 = Option<bool>;
fn and3(a: B3, b: B3) -> B3 {
    match (a, b) {
        (Some(false), _) | (_, Some(false)) => Some(false),
        (Some(true), Some(true)) => Some(true),
        _ => None,
    }
}
fn not3(a: B3) -> B3 {
    a.map(|x| !x)
}
fn or3(a: B3, b: B3) -> B3 {
    not3(and3(not3(a), not3(b)))
}
fn cmp3(o: u8, a: Option<i32>, b: i8) -> B3 {
    let b = b as i32;
    a.map(|a| match o % 6 {
        0 => a == b,
        1 => a != b,
        2 => a < b,
        3 => a > b,
        4 => a <= b,
        _ => a >= b,
    })
}
/// `col IN (set)`: false for an empty set, unknown for a NULL column.
fn in3(col: Option<usize>, set: &[usize]) -> B3 {
    if set.is_empty() {
        Some(false)
    } else {
        col.map(|c| set.contains(&c))
    }
}
impl Built {
    fn rt(&self, c: &RT, i: usize) -> B3 {
        let t = &self.tags[i];
        match c {
            RT::W(o, v) => cmp3(*o, t.w, *v),
            RT::WNull => Some(t.w.is_none()),
            RT::Name(n) => Some(t.tag == TAGS[*n as usize % 4]),
            RT::And(a, b) => and3(self.rt(a, i), self.rt(b, i)),
            RT::Or(a, b) => or3(self.rt(a, i), self.rt(b, i)),
            RT::Not(a) => not3(self.rt(a, i)),
        }
    }
    fn blogs_with(&self, c: &RB) -> Vec<usize> {
        (0..self.blogs.len()).filter(|i| self.rb(c, *i) == Some(true)).collect()
    }
    fn tags_with(&self, c: &RT) -> Vec<usize> {
        (0..self.tags.len()).filter(|i| self.rt(c, *i) == Some(true)).collect()
    }
    fn rb(&self, c: &RB, i: usize) -> B3 {
        let b = &self.blogs[i];
        match c {
            RB::Score(o, v) => cmp3(*o, b.score, *v),
            RB::Name(n) => Some(b.name == format!("b{}", n % 3)),
            RB::ParentNull(n) => Some(self.pparent[i].is_none() == *n),
            RB::Parent(x) => in3(self.pparent[i], &self.blogs_with(x)),
            RB::ParentIs(j) => self.pparent[i].map(|p| p == *j as usize % self.blogs.len()),
            RB::And(a, b) => and3(self.rb(a, i), self.rb(b, i)),
            RB::Or(a, b) => or3(self.rb(a, i), self.rb(b, i)),
            RB::Not(a) => not3(self.rb(a, i)),
        }
    }
    fn blog_of(&self, f: &Option<ForeignKey<Blog>>) -> Option<usize> {
        f.as_ref().map(|f| self.blogs.iter().position(|b| b.id == f.pk()).unwrap())
    }
    pub fn rp(&self, c: &RP, i: usize) -> B3 {
        let p = &self.posts[i];
        match c {
            RP::Likes(o, v) => cmp3(*o, p.likes, *v),
            RP::Title(n) => Some(p.title == format!("t{}", n % 3)),
            RP::Blog(x) => in3(self.blog_of(&Some(p.blog.clone())), &self.blogs_with(x)),
            RP::Alt(x) => in3(self.blog_of(&p.alt), &self.blogs_with(x)),
            RP::Top(x) => in3(
                p.top.as_ref().map(|f| self.tags.iter().position(|t| t.tag == f.pk()).unwrap()),
                &self.tags_with(x),
            ),
            RP::Tags(x) => Some(self.ptags[i].iter().any(|t| self.rt(x, *t) == Some(true))),
            RP::Seen(x) => Some(self.pseen[i].iter().any(|t| self.rb(x, *t) == Some(true))),
            RP::BlogIs(j) => Some(p.blog.pk() == self.blogs[*j as usize % self.blogs.len()].id),
            RP::AltNull(n) => Some(p.alt.is_none() == *n),
            RP::TagIs(n) => Some(self.ptags[i].iter().any(|t| self.tags[*t].tag == TAGS[*n as usize % 4])),
            RP::And(a, b) => and3(self.rp(a, i), self.rp(b, i)),
            RP::Or(a, b) => or3(self.rp(a, i), self.rp(b, i)),
            RP::Not(a) => not3(self.rp(a, i)),
            RP::AllOf(v) => v.iter().fold(Some(true), |x, c| and3(x, self.rp(c, i))),
        }
    }
    fn xt(&self, c: &RT) -> BoolExpr {
        match c {
            RT::W(o, v) => cmp_e("w", *o, *v),
            RT::WNull => BoolExpr::Eq("w", Expr::Val(SqlVal::Null)),
            RT::Name(n) => BoolExpr::Eq("tag", Expr::Val(SqlVal::Text(TAGS[*n as usize % 4].into()))),
            RT::And(a, b) => BoolExpr::And(Box::new(self.xt(a)), Box::new(self.xt(b))),
            RT::Or(a, b) => BoolExpr::Or(Box::new(self.xt(a)), Box::new(self.xt(b))),
            RT::Not(a) => BoolExpr::Not(Box::new(self.xt(a))),
        }
    }
    fn xb(&self, c: &RB, fe: bool) -> BoolExpr {
        let f = Blog::fields();
        match c {
            RB::Score(o, v) => cmp_e("score", *o, *v),
            RB::Name(n) => BoolExpr::Eq("name", Expr::Val(SqlVal::Text(format!("b{}", n % 3)))),
            RB::ParentNull(true) => BoolExpr::Eq("parent", Expr::Val(SqlVal::Null)),
            RB::ParentNull(false) => BoolExpr::Ne("parent", Expr::Val(SqlVal::Null)),
            RB::ParentIs(j) => {
                let b = &self.blogs[*j as usize % self.blogs.len()];
                if fe && j & 64 != 0 {
                    butane_core::query::FieldExpr::<ForeignKey<Blog>>::new("parent").subfilterpk(b.id)
                } else if fe {
                    f.parent().eq(&Some(ForeignKey::from(b)))
                } else {
                    BoolExpr::Eq("parent", Expr::Val(SqlVal::BigInt(b.id.unwrap())))
                }
            }
            RB::Parent(x) => sub("parent", "Blog", "id", self.xb(x, fe)),
            RB::And(a, b) => BoolExpr::And(Box::new(self.xb(a, fe)), Box::new(self.xb(b, fe))),
            RB::Or(a, b) => BoolExpr::Or(Box::new(self.xb(a, fe)), Box::new(self.xb(b, fe))),
            RB::Not(a) => BoolExpr::Not(Box::new(self.xb(a, fe))),
        }
    }
    pub fn xp(&self, c: &RP, fe: bool) -> BoolExpr {
        let f = Post::fields();
        match c {
            RP::Likes(o, v) => cmp_e("likes", *o, *v),
            RP::Title(n) => BoolExpr::Eq("title", Expr::Val(SqlVal::Text(format!("t{}", n % 3)))),
            RP::Blog(x) if fe => f.blog().subfilter(self.xb(x, fe)),
            RP::Blog(x) => sub("blog", "Blog", "id", self.xb(x, fe)),
            RP::Alt(x) => sub("alt", "Blog", "id", self.xb(x, fe)),
            RP::Top(x) => sub("top", "Tag", "tag", self.xt(x)),
            RP::Tags(x) if fe => f.tags().contains(self.xt(x)),
            RP::Tags(x) => join("Tag", "tag", "Post_tags_Many", self.xt(x)),
            RP::Seen(x) if fe => f.seen().contains(self.xb(x, fe)),
            RP::Seen(x) => join("Blog", "id", "Post_seen_Many", self.xb(x, fe)),
            RP::BlogIs(j) => {
                let b = &self.blogs[*j as usize % self.blogs.len()];
                if fe && j & 64 != 0 {
                    f.blog().eq(b)
                } else if fe || j % 3 == 0 {
                    f.blog().subfilterpk(b.id)
                } else {
                    BoolExpr::Eq("blog", Expr::Val(SqlVal::BigInt(b.id.unwrap())))
                }
            }
            RP::AltNull(true) => BoolExpr::Eq("alt", Expr::Val(SqlVal::Null)),
            RP::AltNull(false) => BoolExpr::Ne("alt", Expr::Val(SqlVal::Null)),
            RP::TagIs(n) => f.tags().containspk(TAGS[*n as usize % 4]),
            RP::And(a, b) => BoolExpr::And(Box::new(self.xp(a, fe)), Box::new(self.xp(b, fe))),
            RP::Or(a, b) => BoolExpr::Or(Box::new(self.xp(a, fe)), Box::new(self.xp(b, fe))),
            RP::Not(a) => BoolExpr::Not(Box::new(self.xp(a, fe))),
            RP::AllOf(v) => BoolExpr::AllOf(v.iter().map(|c| self.xp(c, fe)).collect()),
        }
    }
}
fn sub(col: &'static str, t: &'static str, pk: &'static str, e: BoolExpr) -> BoolExpr {
    BoolExpr::Subquery { col, tbl2: Cow::Borrowed(t), tbl2_col: pk, expr: Box::new(e) }
}
fn join(t: &'static str, pk: &'static str, many: &'static str, e: BoolExpr) -> BoolExpr {
    let ty = || butane_core::SqlType::BigInt;
    let _ = ty;
    BoolExpr::SubqueryJoin {
        col: "id",
        tbl2: Cow::Borrowed(t),
        col2: butane_core::query::Column::new(many, "owner"),
        joins: vec![Join::Inner {
            join_table: many,
            col1: butane_core::query::Column::new(many, "has"),
            col2: butane_core::query::Column::new(t, pk),
        }],
        expr: Box::new(e),
    }
}
fn cmp_e(col: &'static str, o: u8, v: i8) -> BoolExpr {
    let v = Expr::Val(SqlVal::Int(v as i32));
    match o % 6 {
        0 => BoolExpr::Eq(col, v),
        1 => BoolExpr::Ne(col, v),
        2 => BoolExpr::Lt(col, v),
        3 => BoolExpr::Gt(col, v),
        4 => BoolExpr::Le(col, v),
        _ => BoolExpr::Ge(col, v),
    }
}
/// Turso's engine mis-evaluates IN on NULL and inside and/or (see DESIGN.md), and butane turns
/// subqueries into IN lists there: only single relational conditions on columns without NULLs.
/// `full`: every blog of the graph has a parent.
fn turso_rb(c: &RB, full: bool, top: bool) -> RB {
    let t = |x: &RB| Box::new(turso_rb(x, full, false));
    match c {
        RB::Parent(x) if full && top => RB::Parent(Box::new(turso_rb(x, full, true))),
        RB::Parent(_) => RB::ParentNull(false),
        RB::And(a, b) => RB::And(t(a), t(b)),
        RB::Or(a, b) => RB::Or(t(a), t(b)),
        RB::Not(a) => RB::Not(t(a)),
        RB::ParentIs(j) => RB::ParentIs(j & !64),
        x => x.clone(),
    }
}
pub fn turso_rp(c: &RP, full: bool, top: bool) -> RP {
    let t = |x: &RP| Box::new(turso_rp(x, full, false));
    match c {
        RP::Blog(x) if top => RP::Blog(turso_rb(x, full, true)),
        RP::Tags(x) if top => RP::Tags(x.clone()),
        RP::Seen(x) if top => RP::Seen(turso_rb(x, full, true)),
        RP::TagIs(x) if top => RP::TagIs(*x),
        RP::Alt(RB::ParentNull(n)) => RP::AltNull(*n),
        RP::BlogIs(j) if !top => RP::BlogIs(j | 64),
        RP::Blog(_) | RP::Alt(_) | RP::Top(_) | RP::Tags(_) | RP::Seen(_) | RP::TagIs(_) => RP::Likes(4, 2),
        RP::BlogIs(j) => RP::BlogIs(if j % 3 == 0 { 1 } else { *j }),
        RP::And(a, b) => RP::And(t(a), t(b)),
        RP::Or(a, b) => RP::Or(t(a), t(b)),
        // a negated single relational condition is evaluated properly
        RP::Not(a) if top => match &**a {
            RP::Blog(_) | RP::Tags(_) | RP::Seen(_) | RP::TagIs(_) => RP::Not(Box::new(turso_rp(a, full, true))),
            _ => RP::Not(t(a)),
        },
        RP::Not(a) => RP::Not(t(a)),
        RP::AllOf(v) if v.len() == 1 => RP::AllOf(vec![turso_rp(&v[0], full, top)]),
        RP::AllOf(v) => RP::AllOf(v.iter().map(|c| turso_rp(c, full, false)).collect()),
        x => x.clone(),
    }
}
/// The graph with every blog given a parent (itself when it had none).
pub fn with_parents(g: &Graph) -> Graph {
    let mut g = g.clone();
    for (i, b) in g.blogs.iter_mut().enumerate() {
        b.2 = b.2.or(Some(i as u8));
    }
    g
}
pub fn relational(c: &RP) -> usize {
    match c {
        RP::Blog(_) | RP::Alt(_) | RP::Top(_) | RP::Tags(_) | RP::Seen(_) | RP::TagIs(_) => 1,
        RP::And(a, b) | RP::Or(a, b) => relational(a) + relational(b),
        RP::Not(a) => relational(a),
        RP::AllOf(v) => v.iter().map(relational).sum(),
        _ => 0,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    fl: Fl,
    g: Graph,
    conds: Vec<RP>,
    fe: bool,
    in_tx: bool,
    full: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BCase {
    fl: Fl,
    g: Graph,
    conds: Vec<RB>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MCase {
    fl: Fl,
    g: Graph,
    tpl: u8,
    v: i8,
    n: u8,
}
pub fn models() -> std::sync::Arc<crate::schema::Schema> {
    crate::schema::schema(&["Tag", "Blog", "Post"])
}
pub fn ids(v: &[Post]) -> Vec<i64> {
    v.iter().map(|p| p.id.unwrap()).collect()
}

pub fn c06(ctx: &Ctx) {
    ctx.explore(
        "posts",
        "1-3 nested relational conditions over a graph of up to 4 blogs, 3 tags and 5 posts, by hand and as field expressions; non-trivial: a relational condition selects a proper non-empty subset",
        ctx.cases(5000, 200_000),
        || {
            (any_fl(), s_graph(true), proptest::collection::vec(s_rp(), 1..4), any::<bool>(), any::<bool>(), any::<bool>())
                .prop_map(|(fl, g, conds, fe, in_tx, full)| Case { fl, g, conds, fe, in_tx, full })
                .boxed()
        },
        Env::new,
        |env, q| {
            let mut db = env.fresh(q.fl, &models());
            let full = q.fl.is_tu() && q.full;
            let b = build_graph(&db.c(), &if full { with_parents(&q.g) } else { q.g.clone() })?;
            let mut o = Obs::new();
            o.label(q.fl.name());
            for c in &q.conds {
                let c = &if q.fl.is_tu() { turso_rp(c, full, true) } else { c.clone() };
                let want: Vec<i64> = (0..b.posts.len())
                    .filter(|i| b.rp(c, *i) == Some(true))
                    .map(|i| b.posts[i].id.unwrap())
                    .collect();
                let mk = || Post::query().filter(b.xp(c, q.fe)).order(Post::PKCOL, OrderDirection::Ascending);
                let r = if q.in_tx {
                    match db.tx(|c| (c.load(mk()), TxEnd::Commit)) {
                        Ok((r, _)) => r,
                        Err(e) => Err(e),
                    }
                } else {
                    db.c().load(mk())
                };
                let got = match r {
                    Ok(v) => v,
                    Err(e) => fail!("error", "{}: {c:?}: {e}", q.fl.name()),
                };
                ensure!(ids(&got) == want, "wrong-rows", "{}: {c:?} selected {:?}, expected {want:?} (expression {:?})", q.fl.name(), ids(&got), b.xp(c, q.fe));
                if relational(c) > 0 && !want.is_empty() && want.len() < b.posts.len() {
                    o.nontrivial = true;
                }
                if relational(c) > 1 {
                    o.label("several-relational");
                }
            }
            Ok(o)
        },
    );
    ctx.explore(
        "self-reference",
        "nested conditions on a self-referential optional foreign key; non-trivial: a proper non-empty subset of at least 2 blogs is selected",
        ctx.cases(1000, 40_000),
        || {
            (sqlpg_fl(), s_graph(false), proptest::collection::vec(s_rb(), 1..4))
                .prop_map(|(fl, g, conds)| BCase { fl, g, conds })
                .boxed()
        },
        Env::new,
        |env, q| {
            let db = env.fresh(q.fl, &models());
            let b = build_graph(&db.c(), &q.g)?;
            let mut o = Obs::new();
            for c in &q.conds {
                let want: Vec<i64> = (0..b.blogs.len())
                    .filter(|i| b.rb(c, *i) == Some(true))
                    .map(|i| b.blogs[i].id.unwrap())
                    .collect();
                let got: Vec<Blog> = match db.c().load(Blog::query().filter(b.xb(c, true)).order("id", OrderDirection::Ascending)) {
                    Ok(v) => v,
                    Err(e) => fail!("error", "{}: {c:?}: {e}", q.fl.name()),
                };
                let got: Vec<i64> = got.iter().map(|x| x.id.unwrap()).collect();
                ensure!(got == want, "wrong-rows", "{}: {c:?} selected {got:?}, expected {want:?}", q.fl.name());
                o.nontrivial_if(!want.is_empty() && want.len() < b.blogs.len());
            }
            Ok(o)
        },
    );
    ctx.explore(
        "macro",
        "relational conditions written with filter! against the same conditions evaluated on the graph; non-trivial: a proper non-empty subset",
        ctx.cases(1000, 40_000),
        || {
            (any_fl(), s_graph(true), 0u8..11, 0i8..4, 0u8..4)
                .prop_map(|(fl, g, tpl, v, n)| MCase { fl, g, tpl, v, n })
                .boxed()
        },
        Env::new,
        |env, q| {
            let db = env.fresh(q.fl, &models());
            let b = build_graph(&db.c(), &q.g)?;
            let v = q.v as i32;
            let ov = Some(v);
            let nm = TAGS[q.n as usize];
            let bn = format!("b{}", q.n % 3);
            let bx = |x: RP| Box::new(x);
            let tpl = if q.fl.is_tu() { q.tpl % 5 } else { q.tpl };
            let b0 = &b.blogs[q.n as usize % b.blogs.len()];
            let (e, r) = match tpl {
                0 => (filter!(Post, blog.matches(score == { ov })), RP::Blog(RB::Score(0, q.v))),
                1 => (filter!(Post, blog.matches(name == { bn.as_str() } && score > { v })), RP::Blog(RB::And(Box::new(RB::Name(q.n)), Box::new(RB::Score(3, q.v))))),
                2 => (filter!(Post, tags.contains(tag == { nm })), RP::Tags(RT::Name(q.n))),
                3 => (filter!(Post, tags.contains("x")), RP::TagIs(0)),
                4 => (filter!(Post, blog == { b0 }), RP::BlogIs(q.n)),
                5 => (filter!(Post, blog.matches(score <= { v }) && tags.contains(w == { ov })), RP::And(bx(RP::Blog(RB::Score(4, q.v))), bx(RP::Tags(RT::W(0, q.v))))),
                6 => (filter!(Post, blog.matches(score != { ov }) || likes == { ov }), RP::Or(bx(RP::Blog(RB::Score(1, q.v))), bx(RP::Likes(0, q.v)))),
                7 => (filter!(Post, tags.contains(w >= { v }) && title == "t0"), RP::And(bx(RP::Tags(RT::W(5, q.v))), bx(RP::Title(0)))),
                8 => (filter!(Post, blog.matches(score < { v }) && seen.contains(score > { v })), RP::And(bx(RP::Blog(RB::Score(2, q.v))), bx(RP::Seen(RB::Score(3, q.v))))),
                9 => (filter!(Post, seen.contains(score == { ov } || name == { bn.as_str() })), RP::Seen(RB::Or(Box::new(RB::Score(0, q.v)), Box::new(RB::Name(q.n))))),
                _ => (filter!(Post, seen.contains(name == { bn.as_str() }) || tags.contains("y")), RP::Or(bx(RP::Seen(RB::Name(q.n))), bx(RP::TagIs(1)))),
            };
            let want: Vec<i64> = (0..b.posts.len()).filter(|i| b.rp(&r, *i) == Some(true)).map(|i| b.posts[i].id.unwrap()).collect();
            let got = match db.c().load(Post::query().filter(e).order("id", OrderDirection::Ascending)) {
                Ok(v) => ids(&v),
                Err(e) => fail!("error", "{}: template {tpl}: {e}", q.fl.name()),
            };
            ensure!(got == want, "wrong-rows", "{}: template {tpl} {r:?} selected {got:?}, expected {want:?}", q.fl.name());
            let mut o = Obs::new();
            o.label(format!("template-{tpl}"));
            o.nontrivial = !want.is_empty() && want.len() < b.posts.len();
            Ok(o)
        },
    );
}

/// For C05: deletes with relational conditions.
pub fn relational_delete(ctx: &Ctx) {
    ctx.explore(
        "relational",
        "a query delete with a relational condition over posts without links; non-trivial: a proper non-empty subset is deleted",
        ctx.cases(1000, 40_000),
        || {
            (any_fl(), s_graph(false), s_rp(), any::<bool>(), any::<bool>(), any::<bool>())
                .prop_map(|(fl, g, c, fe, in_tx, full)| Case { fl, g, conds: vec![c], fe, in_tx, full })
                .boxed()
        },
        Env::new,
        |env, q| {
            let mut db = env.fresh(q.fl, &models());
            let full = q.fl.is_tu() && q.full;
            let b = build_graph(&db.c(), &if full { with_parents(&q.g) } else { q.g.clone() })?;
            let c = &if q.fl.is_tu() { turso_rp(&q.conds[0], full, true) } else { q.conds[0].clone() };
            let hit: Vec<bool> = (0..b.posts.len()).map(|i| b.rp(c, i) == Some(true)).collect();
            let n = hit.iter().filter(|h| **h).count();
            let mk = || Post::query().filter(b.xp(c, q.fe));
            let r = if q.in_tx {
                match db.tx(|c| (c.delete_q(mk()), TxEnd::Commit)) {
                    Ok((r, _)) => r,
                    Err(e) => Err(e),
                }
            } else {
                db.c().delete_q(mk())
            };
            let e = |e: butane_core::Error| Fail::new("error", format!("{}: {c:?}: {e}", q.fl.name()));
            let cnt = r.map_err(e)?;
            let left: Vec<i64> = ids(&db.c().load(Post::query().order("id", OrderDirection::Ascending)).map_err(e)?);
            let want: Vec<i64> = (0..hit.len()).filter(|i| !hit[*i]).map(|i| b.posts[i].id.unwrap()).collect();
            ensure!(left == want, "wrong-rows-left", "{}: after delete {c:?} posts {left:?} are left, expected {want:?}", q.fl.name());
            ensure!(cnt == n, "wrong-count", "{}: delete {c:?} reported {cnt}, expected {n}", q.fl.name());
            let bl: Vec<Blog> = db.c().all().map_err(e)?;
            let tl: Vec<Tag> = db.c().all().map_err(e)?;
            ensure!(bl.len() == b.blogs.len() && tl.len() == b.tags.len(), "other-table", "{}: other tables changed", q.fl.name());
            let mut o = Obs::new();
            o.nontrivial = n > 0 && n < hit.len() && relational(c) > 0;
            o.label(q.fl.name());
            Ok(o)
        },
    );
    ctx.explore(
        "indexed-count",
        "query deletes on a table with unique columns report how many objects were removed; non-trivial: at least one removed",
        ctx.cases(300, 6000),
        || (any_fl(), 0u8..5, 0u8..5, any::<bool>()).boxed(),
        Env::new,
        |env, (fl, rows, below, by_name)| {
            let db = env.fresh(*fl, &crate::hist::schema());
            let c = db.c();
            let e = |e: butane_core::Error| Fail::new("error", format!("{}: {e}", fl.name()));
            for i in 0..*rows {
                c.save(&mut UniqK { id: i as i64, name: format!("n{i}"), n: Some(i as i32), plain: i as i32 }).map_err(e)?;
            }
            let n = (*below).min(*rows) as usize;
            let got = c.delete_q(UniqK::query().filter(if *by_name && *below == 1 { BoolExpr::Eq("name", Expr::Val(SqlVal::Text("n0".into()))) } else { BoolExpr::Lt("plain", Expr::Val(SqlVal::Int(*below as i32))) })).map_err(e)?;
            let left = c.all::<UniqK>().map_err(e)?.len();
            ensure!(left == *rows as usize - n, "wrong-rows-left", "{}: {left} left", fl.name());
            ensure!(got == n, if fl.is_tu() { "turso-count-indexed" } else { "wrong-count" }, "{}: deleting {n} objects of a table with unique columns reported {got}", fl.name());
            let mut o = Obs::new();
            o.nontrivial = n > 0;
            Ok(o)
        },
    );
}
#[allow(dead_code)]
fn _unused() -> Column {
    Column::new("", butane_core::SqlType::Int)
}
