//! Support code linked into the generated programs.
#![allow(clippy::all)]

use std::cell::Cell;
use std::io::Write;

pub use {chrono, opg, serde, serde_json, serde_repr, serde_yaml, uuid};

pub mod prelude {
    pub use crate::{ex_fn, sk, ExShow, EX_CONST, EX_NUM, HasItem, NoSchema, Out, Srv, WithStr, WithU8};
    pub use opg::{Components, ContextParams, OpgModel};
    pub use rtm::Noop;
    pub use serde::Serialize;
    pub use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
}

/// Results of one case: named texts, in order.
#[derive(Default)]
pub struct Out {
    items: Vec<(String, String)>,
}

fn js<T: serde::Serialize + ?Sized>(v: &T) -> String {
    match serde_json::to_string(v) {
        Ok(s) => s,
        Err(e) => format!("{{\"!err\":{}}}", serde_json::Value::String(e.to_string())),
    }
}

impl Out {
    pub fn text(&mut self, k: &str, v: impl ToString) {
        self.items.push((k.to_owned(), v.to_string()));
    }

    /// Any serializable value
    pub fn val<T: serde::Serialize + ?Sized>(&mut self, k: &str, v: &T) {
        let s = js(v);
        self.text(k, s);
    }

    /// The same, while `sk` answers `skip`
    pub fn val_sk<T: serde::Serialize + ?Sized>(&mut self, k: &str, skip: bool, v: &T) {
        SKIP.with(|x| x.set(skip));
        let s = js(v);
        SKIP.with(|x| x.set(false));
        self.text(k, s);
    }

    /// Schema of the type itself, and what it registered
    pub fn schema<T: opg::OpgModel + ?Sized>(&mut self, k: &str) {
        let mut cx = opg::Components::new();
        let model = T::get_schema(&mut cx);
        let v = format!(
            "{{\"s\":{},\"c\":{},\"n\":{},\"v\":{}}}",
            js(&model),
            js(&cx),
            js(&T::type_name()),
            js(&cx.verify_schemas().err())
        );
        self.text(k, v);
    }

    /// Reference obtained by mentioning, and what it registered
    pub fn mention<T: opg::OpgModel + ?Sized>(&mut self, k: &str, inline: bool) {
        let mut cx = opg::Components::new();
        let r = cx.mention_schema::<T>(inline, &Default::default());
        let v = format!(
            "{{\"r\":{},\"c\":{},\"v\":{}}}",
            js(&r),
            js(&cx),
            js(&cx.verify_schemas().err())
        );
        self.text(k, v);
    }

    pub fn mention_with<T: opg::OpgModel + ?Sized>(
        &mut self,
        k: &str,
        inline: bool,
        params: &opg::ContextParams,
    ) {
        let mut cx = opg::Components::new();
        let r = cx.mention_schema::<T>(inline, params);
        let v = format!("{{\"r\":{},\"c\":{}}}", js(&r), js(&cx));
        self.text(k, v);
    }

    pub fn schema_with<T: opg::OpgModel + ?Sized>(&mut self, k: &str, params: &opg::ContextParams) {
        let mut cx = opg::Components::new();
        let model = T::get_schema_with_params(&mut cx, params);
        let v = format!("{{\"s\":{},\"c\":{}}}", js(&model), js(&cx));
        self.text(k, v);
    }

    /// A reference and the state of the components after it
    pub fn step(&mut self, k: &str, r: &opg::ModelReference, cx: &opg::Components) {
        let v = format!(
            "{{\"r\":{},\"c\":{},\"v\":{}}}",
            js(r),
            js(cx),
            js(&cx.verify_schemas().err())
        );
        self.text(k, v);
    }

    /// A document: JSON text, YAML text
    pub fn doc(&mut self, k: &str, v: &opg::Opg) {
        let s = js(v);
        self.text(k, s);
        let y = match serde_yaml::to_string(v) {
            Ok(y) => y,
            Err(e) => format!("!err: {:?}", e.to_string()),
        };
        // YAML is read back by serde_yaml, independent of the crate under test
        let back = match serde_yaml::from_str::<serde_yaml::Value>(&y) {
            Ok(v) => js(&v),
            Err(e) => format!("{{\"!err\":{}}}", serde_json::Value::String(e.to_string())),
        };
        self.text(&format!("{}.yaml", k), back);
        let ver = js(&v.components.verify_schemas().err());
        self.text(&format!("{}.verify", k), ver);
    }
}

/// Both forms of a document
pub fn render(v: &opg::Opg) -> String {
    format!("{}\n{}", js(v), serde_yaml::to_string(v).unwrap_or_else(|e| e.to_string()))
}

thread_local! {
    static SKIP: Cell<bool> = Cell::new(false);
}

/// `skip_serializing_if` predicate under control of the program
pub fn sk<T: ?Sized>(_: &T) -> bool {
    SKIP.with(|x| x.get())
}

/// the same under other names
pub mod skip {
    pub use super::sk as is_zero;
    pub use super::sk as is_default;
    pub use super::sk as r#if;
    pub struct By;
    impl By {
        pub fn skip<T: ?Sized>(x: &T) -> bool {
            super::sk(x)
        }
    }
}

/// What examples may be computed from
pub fn ex_fn(n: u8) -> String {
    format!("ex{}", n)
}
pub const EX_CONST: &str = "a constant";
pub static EX_NUM: u8 = 255;
pub struct ExShow;
impl std::fmt::Display for ExShow {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("shown {}")
    }
}

/// A type without a schema
#[derive(Debug, Clone, Default, serde::Serialize, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct NoSchema;

/// Holds for every type
pub trait Anything {}
impl<T: ?Sized> Anything for T {}

pub trait HasItem {
    type Item;
}
pub struct WithU8;
impl HasItem for WithU8 {
    type Item = u8;
}
pub struct WithStr;
impl HasItem for WithStr {
    type Item = String;
}

impl HasItem for i32 {
    type Item = u8;
}
impl HasItem for bool {
    type Item = String;
}

/// Something that converts into a server url
#[derive(Clone)]
pub struct Srv(pub &'static str);
impl From<Srv> for String {
    fn from(v: Srv) -> String {
        v.0.to_owned()
    }
}

pub type CaseFn = fn(&mut Out);

/// Run the cases from the number given as first argument on.
pub fn run_main(cases: &[(usize, CaseFn)]) {
    let from: usize = std::env::args()
        .nth(1)
        .and_then(|x| x.parse().ok())
        .unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<(usize, CaseFn)> = cases.iter().copied().filter(|x| x.0 >= from).collect();
    let th = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let out = std::io::stdout();
            for (k, f) in cases {
                {
                    let mut o = out.lock();
                    writeln!(o, "B {}", k).unwrap();
                    o.flush().unwrap();
                }
                SKIP.with(|x| x.set(false));
                let r = std::panic::catch_unwind(|| {
                    let mut o = Out::default();
                    f(&mut o);
                    o
                });
                let mut w = out.lock();
                match r {
                    Ok(o) => {
                        writeln!(w, "R {} {}", k, js(&o.items)).unwrap();
                    }
                    Err(e) => {
                        let msg = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                            .unwrap_or_default();
                        writeln!(w, "P {} {}", k, js(&msg)).unwrap();
                    }
                }
                w.flush().unwrap();
            }
        })
        .unwrap();
    th.join().unwrap();
    println!("E");
}
