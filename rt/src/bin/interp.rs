//! Executes operation sequences on the public model API. Requests come as JSON, one per line,
//! answers follow the protocol of the generated programs.
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, LinkedList, VecDeque};
use std::io::Write;

use opg::*;
use serde_json::{json, Value};

// ------------------------------------------------------------ building from JSON

fn ostr(v: &Value) -> Option<String> {
    v.as_str().map(|x| x.to_owned())
}
fn st(v: &Value) -> String {
    v.as_str().expect("string").to_owned()
}
fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().expect("array")
}
fn strs(v: &Value) -> Vec<String> {
    arr(v).iter().map(st).collect()
}
fn b(v: &Value) -> bool {
    v.as_bool().unwrap_or(false)
}

fn params(v: &Value) -> ContextParams {
    ContextParams {
        description: ostr(&v["description"]),
        nullable: v["nullable"].as_bool(),
        variants: v["variants"].as_array().map(|_| strs(&v["variants"])),
        format: ostr(&v["format"]),
        example: ostr(&v["example"]),
    }
}

fn simple(v: &Value) -> ModelSimple {
    ModelSimple {
        format: ostr(&v["format"]),
        example: ostr(&v["example"]),
    }
}

fn object(v: &Value, cx: &mut Components) -> ModelObject {
    ModelObject {
        properties: arr(&v["props"])
            .iter()
            .map(|p| (st(&p[0]), reference(&p[1], cx)))
            .collect(),
        additional_properties: match &v["add"] {
            Value::Null => None,
            r => Some(Box::new(reference(r, cx))),
        },
        required: strs(&v["req"]),
    }
}

fn model(v: &Value, cx: &mut Components) -> Model {
    let kind = v["k"].as_str().expect("kind");
    let data = match kind {
        "oneOf" | "allOf" | "anyOf" => {
            let alts: Vec<_> = arr(&v["alts"]).iter().map(|r| reference(r, cx)).collect();
            match kind {
                "oneOf" => ModelData::OneOf(ModelOneOf { one_of: alts }),
                "allOf" => ModelData::AllOf(ModelAllOf { all_of: alts }),
                _ => ModelData::AnyOf(ModelAnyOf { any_of: alts }),
            }
        }
        _ => ModelData::Single(ModelType {
            nullable: b(&v["nullable"]),
            type_description: match kind {
                "string" => ModelTypeDescription::String(ModelString {
                    variants: v["enum"].as_array().map(|_| strs(&v["enum"])),
                    data: simple(v),
                }),
                "number" => ModelTypeDescription::Number(simple(v)),
                "integer" => ModelTypeDescription::Integer(simple(v)),
                "boolean" => ModelTypeDescription::Boolean,
                "array" => ModelTypeDescription::Array(ModelArray {
                    items: Box::new(reference(&v["items"], cx)),
                }),
                "object" => ModelTypeDescription::Object(object(v, cx)),
                k => panic!("unknown kind {}", k),
            },
        }),
    };
    Model {
        description: ostr(&v["desc"]),
        data,
    }
}

fn reference(v: &Value, cx: &mut Components) -> ModelReference {
    if let Some(l) = v["link"].as_str() {
        ModelReference::Link(l.to_owned())
    } else if v["model"].is_object() {
        ModelReference::Inline(model(&v["model"], cx))
    } else if v["at"].is_array() {
        mention(&v["at"], cx)
    } else {
        ModelReference::Any
    }
}

// ------------------------------------------------------------ dumping, without the serializers under test

fn dump_simple(o: &mut Value, s: &ModelSimple) {
    o["format"] = json!(s.format);
    o["example"] = json!(s.example);
}

fn dump(m: &Model) -> Value {
    let mut o = match &m.data {
        ModelData::OneOf(x) => json!({"k": "oneOf", "alts": x.one_of.iter().map(dump_ref).collect::<Vec<_>>()}),
        ModelData::AllOf(x) => json!({"k": "allOf", "alts": x.all_of.iter().map(dump_ref).collect::<Vec<_>>()}),
        ModelData::AnyOf(x) => json!({"k": "anyOf", "alts": x.any_of.iter().map(dump_ref).collect::<Vec<_>>()}),
        ModelData::Single(t) => {
            let mut o = match &t.type_description {
                ModelTypeDescription::String(s) => {
                    let mut o = json!({"k": "string", "enum": s.variants});
                    dump_simple(&mut o, &s.data);
                    o
                }
                ModelTypeDescription::Number(s) => {
                    let mut o = json!({"k": "number"});
                    dump_simple(&mut o, s);
                    o
                }
                ModelTypeDescription::Integer(s) => {
                    let mut o = json!({"k": "integer"});
                    dump_simple(&mut o, s);
                    o
                }
                ModelTypeDescription::Boolean => json!({"k": "boolean"}),
                ModelTypeDescription::Array(a) => json!({"k": "array", "items": dump_ref(&a.items)}),
                ModelTypeDescription::Object(x) => dump_object(x),
            };
            o["nullable"] = json!(t.nullable);
            o
        }
    };
    o["desc"] = json!(m.description);
    o
}

fn dump_object(x: &ModelObject) -> Value {
    json!({
        "k": "object",
        "props": x.properties.iter().map(|(k, v)| json!([k, dump_ref(v)])).collect::<Vec<_>>(),
        "add": x.additional_properties.as_ref().map(|x| dump_ref(x)),
        "req": x.required,
    })
}

fn dump_ref(r: &ModelReference) -> Value {
    match r {
        ModelReference::Link(l) => json!({"link": l}),
        ModelReference::Inline(m) => json!({"model": dump(m)}),
        ModelReference::Any => json!({"any": true}),
    }
}

fn dump_loc(p: &ParameterIn) -> &'static str {
    match p {
        ParameterIn::Query => "query",
        ParameterIn::Header => "header",
        ParameterIn::Path => "path",
        ParameterIn::Cookie => "cookie",
    }
}

fn dump_sec(s: &SecurityScheme) -> Value {
    match s {
        SecurityScheme::Http(HttpSecurityScheme::Basic { description }) => json!({"k": "basic", "desc": description}),
        SecurityScheme::Http(HttpSecurityScheme::Bearer { format, description }) => {
            json!({"k": "bearer", "format": format, "desc": description})
        }
        SecurityScheme::ApiKey(x) => {
            json!({"k": "apiKey", "in": dump_loc(&x.parameter_in), "name": x.name, "desc": x.description})
        }
    }
}

fn dump_cx(cx: &Components) -> Value {
    json!({
        "schemas": cx.schemas.iter().map(|(k, v)| json!([k, dump(v)])).collect::<Vec<_>>(),
        "sec": cx.security_schemes.iter().map(|(k, v)| json!([k, dump_sec(v)])).collect::<Vec<_>>(),
    })
}

// ------------------------------------------------------------ types given as data

#[derive(Clone, Default)]
struct Node {
    name: Option<String>,
    schema: Value,
}

thread_local! {
    static NODES: RefCell<Vec<Node>> = RefCell::new(Vec::new());
    static CALLS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
}

#[derive(serde::Serialize)]
struct D<const N: usize>;

impl<const N: usize> OpgModel for D<N> {
    fn get_schema(cx: &mut Components) -> Model {
        CALLS.with(|c| {
            let mut c = c.borrow_mut();
            c[N] += 1;
            if c[N] > 4000 {
                panic!("type {} described more than 4000 times", N);
            }
        });
        let node = NODES.with(|n| n.borrow()[N].clone());
        model(&node.schema, cx)
    }

    fn type_name() -> Option<Cow<'static, str>> {
        NODES.with(|n| n.borrow()[N].name.clone().map(Cow::Owned))
    }
}

fn m<const N: usize>(cx: &mut Components, via: &str, inline: bool, p: &ContextParams) -> ModelReference {
    match via {
        "self" => cx.mention_schema::<D<N>>(inline, p),
        "ref" => cx.mention_schema::<&D<N>>(inline, p),
        "box" => cx.mention_schema::<Box<D<N>>>(inline, p),
        "rc" => cx.mention_schema::<std::rc::Rc<D<N>>>(inline, p),
        "arc" => cx.mention_schema::<std::sync::Arc<D<N>>>(inline, p),
        "cell" => cx.mention_schema::<std::cell::RefCell<D<N>>>(inline, p),
        "opt" => cx.mention_schema::<Option<D<N>>>(inline, p),
        "optbox" => cx.mention_schema::<Option<Box<D<N>>>>(inline, p),
        "boxopt" => cx.mention_schema::<Box<Option<D<N>>>>(inline, p),
        "optopt" => cx.mention_schema::<Option<Option<D<N>>>>(inline, p),
        "vec" => cx.mention_schema::<Vec<D<N>>>(inline, p),
        "slice" => cx.mention_schema::<[D<N>]>(inline, p),
        "deque" => cx.mention_schema::<VecDeque<D<N>>>(inline, p),
        "list" => cx.mention_schema::<LinkedList<D<N>>>(inline, p),
        "arr" => cx.mention_schema::<[D<N>; 3]>(inline, p),
        "vecopt" => cx.mention_schema::<Vec<Option<D<N>>>>(inline, p),
        "optvec" => cx.mention_schema::<Option<Vec<D<N>>>>(inline, p),
        "map" => cx.mention_schema::<HashMap<String, D<N>>>(inline, p),
        "bmap" => cx.mention_schema::<BTreeMap<String, D<N>>>(inline, p),
        "mapvec" => cx.mention_schema::<HashMap<String, Vec<D<N>>>>(inline, p),
        "tup1" => cx.mention_schema::<(D<N>,)>(inline, p),
        "tup" => cx.mention_schema::<(D<N>, bool)>(inline, p),
        "tup3" => cx.mention_schema::<(u8, Option<D<N>>, Vec<D<N>>)>(inline, p),
        v => panic!("unknown via {}", v),
    }
}

fn mention(v: &Value, cx: &mut Components) -> ModelReference {
    let n = v[0].as_u64().unwrap();
    let via = v[1].as_str().unwrap();
    let inline = b(&v[2]);
    let p = params(&v[3]);
    macro_rules! go {
        ($($n:literal)*) => {
            match n {
                $($n => m::<$n>(cx, via, inline, &p),)*
                _ => panic!("too many types"),
            }
        };
    }
    go!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79)
}

fn nodes(v: &Value) {
    let list: Vec<Node> = arr(v)
        .iter()
        .map(|x| Node {
            name: ostr(&x["name"]),
            schema: x["schema"].clone(),
        })
        .collect();
    CALLS.with(|c| *c.borrow_mut() = vec![0; list.len()]);
    NODES.with(|n| *n.borrow_mut() = list);
}

fn calls() -> Value {
    CALLS.with(|c| {
        let r = json!(*c.borrow());
        c.borrow_mut().iter_mut().for_each(|x| *x = 0);
        r
    })
}

// ------------------------------------------------------------ documents

fn sec(v: &Value) -> SecurityScheme {
    match v["k"].as_str().unwrap() {
        "basic" => SecurityScheme::Http(HttpSecurityScheme::Basic {
            description: ostr(&v["desc"]),
        }),
        "bearer" => SecurityScheme::Http(HttpSecurityScheme::Bearer {
            format: ostr(&v["format"]),
            description: ostr(&v["desc"]),
        }),
        _ => SecurityScheme::ApiKey(api_key(v)),
    }
}

fn loc(v: &Value) -> ParameterIn {
    match v.as_str().unwrap() {
        "query" => ParameterIn::Query,
        "header" => ParameterIn::Header,
        "path" => ParameterIn::Path,
        "cookie" => ParameterIn::Cookie,
        x => panic!("unknown location {}", x),
    }
}

fn api_key(v: &Value) -> ApiKeySecurityScheme {
    ApiKeySecurityScheme {
        parameter_in: loc(&v["in"]),
        name: st(&v["name"]),
        description: ostr(&v["desc"]),
    }
}

fn method(v: &Value) -> HttpMethod {
    match v.as_str().unwrap() {
        "get" => HttpMethod::GET,
        "put" => HttpMethod::PUT,
        "post" => HttpMethod::POST,
        "delete" => HttpMethod::DELETE,
        "options" => HttpMethod::OPTIONS,
        "head" => HttpMethod::HEAD,
        "patch" => HttpMethod::PATCH,
        _ => HttpMethod::TRACE,
    }
}

fn parameters<M: std::iter::FromIterator<(String, OperationParameter)>>(v: &Value, cx: &mut Components) -> M {
    arr(v)
        .iter()
        .map(|p| {
            let q = &p[1];
            (
                st(&p[0]),
                OperationParameter {
                    description: ostr(&q["desc"]),
                    parameter_in: loc(&q["in"]),
                    required: b(&q["required"]),
                    deprecated: b(&q["deprecated"]),
                    schema: match &q["schema"] {
                        Value::Null => None,
                        r => Some(reference(r, cx)),
                    },
                },
            )
        })
        .collect()
}

fn operation(v: &Value, cx: &mut Components) -> Operation {
    let mut o = Operation::default();
    o.tags = strs(&v["tags"]);
    if b(&v["fluent"]) {
        if let Some(x) = ostr(&v["summary"]) {
            o.with_summary(&x);
        }
        if let Some(x) = ostr(&v["id"]) {
            o.with_operation_id(&x);
        }
        if let Some(x) = ostr(&v["desc"]) {
            o.with_description(&x);
        }
        o.mark_deprecated(b(&v["deprecated"]));
    } else {
        o.summary = ostr(&v["summary"]);
        o.operation_id = ostr(&v["id"]);
        o.description = ostr(&v["desc"]);
        o.deprecated = b(&v["deprecated"]);
    }
    o.security = arr(&v["security"])
        .iter()
        .map(|s| arr(s).iter().map(|x| (st(&x[0]), strs(&x[1]))).collect())
        .collect();
    if v["body"].is_object() {
        let body = RequestBody {
            description: ostr(&v["body"]["desc"]),
            required: b(&v["body"]["required"]),
            schema: reference(&v["body"]["schema"], cx),
        };
        if b(&v["fluent"]) {
            o.with_request_body(body);
        } else {
            o.request_body = Some(body);
        }
    }
    o.responses = arr(&v["responses"])
        .iter()
        .map(|r| {
            (
                r[0].as_u64().unwrap() as u16,
                Response {
                    description: st(&r[1]["desc"]),
                    schema: match &r[1]["schema"] {
                        Value::Null => None,
                        x => Some(reference(x, cx)),
                    },
                },
            )
        })
        .collect();
    o.parameters = parameters(&v["params"], cx);
    o.callbacks = arr(&v["callbacks"])
        .iter()
        .map(|c| (st(&c[0]), CallbackObject { paths: paths(&c[1], cx) }))
        .collect();
    o
}

fn paths(v: &Value, cx: &mut Components) -> Vec<(Path, PathValue)> {
    arr(v)
        .iter()
        .map(|p| {
            let path = Path(
                arr(&p[0])
                    .iter()
                    .map(|e| match e[0].as_str().unwrap() {
                        "lit" => PathElement::Path(st(&e[1])),
                        _ => PathElement::Parameter(st(&e[1])),
                    })
                    .collect(),
            );
            let q = &p[1];
            let value = PathValue {
                summary: ostr(&q["summary"]),
                description: ostr(&q["desc"]),
                operations: arr(&q["ops"])
                    .iter()
                    .map(|o| (method(&o[0]), operation(&o[1], cx)))
                    .collect(),
                parameters: parameters(&q["params"], cx),
            };
            (path, value)
        })
        .collect()
}

fn document(v: &Value) -> Opg {
    let mut doc = Opg::default();
    let mut cx = Components::new();
    doc.info = Info {
        title: st(&v["info"]["title"]),
        description: ostr(&v["info"]["desc"]),
        version: st(&v["info"]["version"]),
    };
    doc.tags = arr(&v["tags"])
        .iter()
        .map(|t| (st(&t[0]), Tag { description: ostr(&t[1]) }))
        .collect();
    doc.servers = arr(&v["servers"])
        .iter()
        .map(|t| Server {
            url: st(&t[0]),
            description: ostr(&t[1]),
        })
        .collect();
    doc.paths = paths(&v["paths"], &mut cx);
    for s in arr(&v["schemas"]) {
        let x = model(&s[1], &mut cx);
        cx.add_model(st(&s[0]), x);
    }
    for s in arr(&v["sec"]) {
        cx.security_schemes.insert(st(&s[0]), sec(&s[1]));
    }
    doc.components = cx;
    doc
}

// ------------------------------------------------------------ requests

fn text<T: serde::Serialize>(v: &T) -> String {
    serde_json::to_string(v).unwrap()
}

fn yaml_back<T: serde::Serialize>(v: &T) -> Result<serde_yaml::Value, String> {
    let y = serde_yaml::to_string(v).map_err(|e| e.to_string())?;
    serde_yaml::from_str(&y).map_err(|e| e.to_string())
}

fn stringify(v: &serde_yaml::Value) -> Value {
    // all mapping keys as strings
    use serde_yaml::Value as Y;
    match v {
        Y::Mapping(m) => Value::Object(
            m.iter()
                .map(|(k, v)| {
                    let k = match k {
                        Y::String(s) => s.clone(),
                        k => serde_json::to_string(k).unwrap(),
                    };
                    (k, stringify(v))
                })
                .collect(),
        ),
        Y::Sequence(s) => Value::Array(s.iter().map(stringify).collect()),
        x => serde_json::to_value(x).unwrap(),
    }
}

fn handle(v: &Value) -> Vec<(String, String)> {
    let mut out = Vec::new();
    match v["op"].as_str().unwrap() {
        // serialized document: JSON text, the same document after a YAML round trip
        "doc" => {
            let doc = document(&v["doc"]);
            let js = text(&doc);
            out.push(("json".to_owned(), js.clone()));
            let ya = serde_yaml::to_string(&doc).ok();
            let doc2 = document(&v["doc"]);
            let same = text(&doc) == js
                && text(&doc2) == js
                && serde_yaml::to_string(&doc).ok() == ya
                && serde_yaml::to_string(&doc2).ok() == ya;
            out.push(("repeat".to_owned(), same.to_string()));
            let plain: Value = serde_json::from_str(&js).unwrap();
            // what serde_yaml makes of the same content, to leave its own quirks out
            let want = yaml_back(&plain).map(|x| stringify(&x));
            let got = yaml_back(&doc).map(|x| stringify(&x));
            out.push(("yaml".to_owned(), text(&json!({"got": got.clone().ok(), "err": got.clone().err(),
                "same": got == want, "want_err": want.err()}))));
        }
        // any single schema
        "model" => {
            let mut cx = Components::new();
            let m = model(&v["model"], &mut cx);
            out.push(("json".to_owned(), text(&m)));
            out.push(("dump".to_owned(), text(&dump(&m))));
        }
        "verify" => {
            let mut cx = Components::new();
            for s in arr(&v["schemas"]) {
                let x = model(&s[1], &mut Components::new());
                cx.schemas.insert(st(&s[0]), x);
            }
            let before = dump_cx(&cx);
            let r = cx.verify_schemas();
            out.push(("r".to_owned(), text(&json!({"err": r.err(), "same": before == dump_cx(&cx)}))));
        }
        "apply" => {
            let mut cx = Components::new();
            let mut cur = model(&v["model"], &mut cx);
            let mut steps = vec![dump(&cur)];
            for p in arr(&v["params"]) {
                let how = p["how"].as_str().unwrap_or("model");
                let q = params(p);
                cur = match how {
                    "data" => Model {
                        description: cur.description.clone(),
                        data: cur.data.apply_params(&q),
                    },
                    "type" => Model {
                        description: cur.description.clone(),
                        data: match cur.data {
                            ModelData::Single(t) => ModelData::Single(t.apply_params(&q)),
                            x => x,
                        },
                    },
                    _ => cur.apply_params(&q),
                };
                steps.push(dump(&cur));
            }
            out.push(("steps".to_owned(), text(&steps)));
        }
        "merge" => {
            let mut cx = Components::new();
            let mut cur = model(&v["model"], &mut cx);
            let mut steps = vec![json!({"s": dump(&cur)})];
            for s in arr(&v["steps"]) {
                let r = match s[0].as_str().unwrap() {
                    "try" => {
                        let other = model(&s[1], &mut cx);
                        cur.try_merge(other).is_ok()
                    }
                    k => {
                        let obj = match &mut cur.data {
                            ModelData::Single(ModelType {
                                type_description: ModelTypeDescription::Object(o),
                                ..
                            }) => o,
                            _ => panic!("not an object"),
                        };
                        match k {
                            "add" => {
                                let r = reference(&s[2], &mut cx);
                                obj.add_property(st(&s[1]), r, b(&s[3])).is_ok()
                            }
                            _ => {
                                let other = object(&s[1], &mut cx);
                                obj.merge(other).is_ok()
                            }
                        }
                    }
                };
                steps.push(json!({"ok": r, "s": dump(&cur)}));
            }
            out.push(("steps".to_owned(), text(&steps)));
        }
        "history" => {
            nodes(&v["nodes"]);
            let mut cx = Components::new();
            let mut steps = Vec::new();
            for s in arr(&v["steps"]) {
                let r = match s[0].as_str().unwrap() {
                    "mention" => dump_ref(&mention(&s[1], &mut cx)),
                    "add" => {
                        let x = model(&s[2], &mut Components::new());
                        if b(&s[3]) {
                            cx.add_model(s[1].as_str().unwrap(), x);
                        } else {
                            cx.add_model(st(&s[1]), x);
                        }
                        Value::Null
                    }
                    "sec" => {
                        let name = st(&s[1]);
                        json!(match s[2]["k"].as_str().unwrap() {
                            "apiKey" if b(&s[3]) => cx.mention_security_scheme(name, &api_key(&s[2])),
                            "basic" | "bearer" if b(&s[3]) => match sec(&s[2]) {
                                SecurityScheme::Http(h) => cx.mention_security_scheme(name, &h),
                                _ => unreachable!(),
                            },
                            _ => cx.mention_security_scheme(name, &sec(&s[2])),
                        })
                    }
                    "contains" => json!(cx.contains_model(s[1].as_str().unwrap())),
                    "verify" => json!(cx.verify_schemas().err()),
                    "fresh" => {
                        cx = Components::new();
                        Value::Null
                    }
                    k => panic!("unknown step {}", k),
                };
                steps.push(json!({"r": r, "cx": dump_cx(&cx), "calls": calls()}));
            }
            out.push(("steps".to_owned(), text(&steps)));
        }
        k => panic!("unknown request {}", k),
    }
    out
}

fn main() {
    let file = std::env::args().nth(1).unwrap();
    let from: usize = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
    std::panic::set_hook(Box::new(|_| {}));
    let input = std::fs::read_to_string(file).unwrap();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let out = std::io::stdout();
            for line in input.lines() {
                let (k, rest) = line.split_once(' ').unwrap();
                let k: usize = k.parse().unwrap();
                if k < from {
                    continue;
                }
                let mut w = out.lock();
                writeln!(w, "B {}", k).unwrap();
                w.flush().unwrap();
                let req: Value = serde_json::from_str(rest).unwrap();
                match std::panic::catch_unwind(|| handle(&req)) {
                    Ok(r) => writeln!(w, "R {} {}", k, text(&r)).unwrap(),
                    Err(e) => {
                        let msg = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
                            .unwrap_or_default();
                        writeln!(w, "P {} {}", k, text(&msg)).unwrap()
                    }
                }
                w.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
    println!("E");
}
