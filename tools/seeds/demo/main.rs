// Runs the cases of cases.json through the library and compares each result with the one expected.
use futures::executor::block_on;
use json_ld::syntax::{IntoJsonWithContext, Parse, Print, TryFromJson, Value};
use json_ld::{JsonLdProcessor, Loader, LoadError, RemoteContextReference, RemoteDocument, RemoteDocumentReference};
use iref::{Iri, IriBuf};
use std::collections::HashMap;

#[derive(Debug)]
struct Missing;
impl std::fmt::Display for Missing {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "missing") }
}
impl std::error::Error for Missing {}

#[derive(Default)]
struct Store { docs: HashMap<String, Value>, moved: HashMap<String, String>, log: std::cell::RefCell<Vec<String>> }
impl Loader for Store {
    async fn load(&self, url: &Iri) -> Result<RemoteDocument<IriBuf>, LoadError> {
        self.log.borrow_mut().push(url.to_string());
        match self.docs.get(url.as_str()) {
            Some(d) => {
                let at = self.moved.get(url.as_str()).map(|u| IriBuf::new(u.clone()).unwrap()).unwrap_or(url.to_owned());
                Ok(RemoteDocument::new(Some(at), None, d.clone()))
            }
            None => Err(LoadError::new(url.to_owned(), Missing)),
        }
    }
}

fn get<'a>(c: &'a Value, k: &str) -> Option<&'a Value> { c.as_object()?.get(k).next() }
fn text(v: &Value) -> String { v.compact_print().to_string() }
fn iri(c: &Value, k: &str) -> Option<IriBuf> { get(c, k).map(|v| IriBuf::new(v.as_str().unwrap().to_string()).unwrap()) }
fn flag(c: &Value, k: &str, d: bool) -> bool { match get(c, k) { Some(Value::Boolean(b)) => *b, _ => d } }
fn context(v: &Value) -> RemoteContextReference<IriBuf> {
    RemoteDocumentReference::Loaded(RemoteDocument::new(None, None, json_ld::syntax::Context::try_from_json(v.clone()).expect("context")))
}

/// Objects by key, arrays other than lists as sets.
fn norm(v: &Value, list: bool) -> String {
    match v {
        Value::Object(o) => {
            let json = get(v, "@type").map(|t| t.as_str() == Some("@json")).unwrap_or(false);
            let mut e: Vec<String> = o.iter().map(|e| format!("{:?}:{}", e.key.as_str(), norm(&e.value, e.key.as_str() == "@list" || (json && e.key.as_str() == "@value")))).collect();
            e.sort();
            format!("{{{}}}", e.join(","))
        }
        Value::Array(a) => {
            let mut e: Vec<String> = a.iter().map(|x| norm(x, list)).collect();
            if !list { e.sort(); }
            format!("[{}]", e.join(","))
        }
        x => text(x),
    }
}

fn run(c: &Value) -> String {
    let mut store = Store::default();
    if let Some(Value::Object(o)) = get(c, "remote") {
        for e in o.iter() { store.docs.insert(e.key.to_string(), e.value.clone()); }
    }
    if let Some(Value::Object(o)) = get(c, "moved") {
        for e in o.iter() { store.moved.insert(e.key.to_string(), e.value.as_str().unwrap().to_string()); }
    }
    let doc = RemoteDocument::new(iri(c, "url"), None, get(c, "doc").cloned().unwrap_or(Value::Null));
    let options = json_ld::Options {
        base: iri(c, "base"),
        compact_arrays: flag(c, "compactArrays", true),
        compact_to_relative: flag(c, "compactToRelative", true),
        expand_context: get(c, "expandContext").map(context),
        ordered: flag(c, "ordered", false),
        rdf_direction: match get(c, "rdfDirection").and_then(|v| v.as_str()) {
            Some("i18n-datatype") => Some(json_ld::rdf::RdfDirection::I18nDatatype),
            Some("compound-literal") => Some(json_ld::rdf::RdfDirection::CompoundLiteral),
            _ => None,
        },
        produce_generalized_rdf: flag(c, "generalized", false),
        ..Default::default()
    };
    let r = match get(c, "op").unwrap().as_str().unwrap() {
        "expand" => match block_on(JsonLdProcessor::expand_using(&doc, &store, options)) {
            Ok(d) => norm(&IntoJsonWithContext::into_json_with(d.into_objects(), &()), false),
            Err(e) => format!("error: {}", e.code()),
        },
        "compact" => match block_on(JsonLdProcessor::compact_using(&doc, context(get(c, "ctx").unwrap()), &store, options)) {
            Ok(v) => norm(&v, false),
            Err(e) => format!("error: {}", e.code()),
        },
        "flatten" => {
            let mut g = rdf_types::generator::Blank::new();
            match block_on(JsonLdProcessor::flatten_using(&doc, &mut g, &store, options)) {
                Ok(v) => norm(&v, false),
                Err(e) => format!("error: {}", e.code()),
            }
        }
        "rdf" => match block_on(JsonLdProcessor::to_rdf_using(&doc, rdf_types::generator::Blank::new(), &store, options)) {
            Ok(mut r) => {
                use rdf_types::RdfDisplay;
                let mut q: Vec<String> = r.cloned_quads().map(|q| q.rdf_display().to_string()).collect();
                q.sort();
                q.join("\n")
            }
            Err(e) => format!("error: {}", e.code()),
        },
        "fromrdf" => {
            use rdf_types::Quad;
            let quads: Vec<_> = get(c, "quads").unwrap().as_array().unwrap().iter().map(|q| {
                let q = q.as_array().unwrap();
                Quad(term(&q[0]).unwrap(), term(&q[1]).unwrap(), term(&q[2]).unwrap(), term(&q[3]))
            }).collect();
            match json_ld::ExpandedDocument::<iref::IriBuf, rdf_types::BlankIdBuf>::from_interpreted_quads(&(), &(), quads.iter().map(|q| q.as_ref())) {
                Ok(d) => norm(&IntoJsonWithContext::into_json_with(d.into_objects(), &()), false),
                Err(_) => "error".to_string(),
            }
        }
        x => panic!("{x}"),
    };
    if flag(c, "log", false) { format!("{r} {:?}", store.log.borrow()) } else { r }
}

/// A term: an IRI, a blank node label, or ["value", type IRI or "@language"].
fn term(v: &Value) -> Option<rdf_types::Term> {
    use rdf_types::{Id, Literal, LiteralType, Term};
    match v {
        Value::String(s) if s.starts_with("_:") => Some(Term::Id(Id::Blank(rdf_types::BlankIdBuf::new(s.to_string()).unwrap()))),
        Value::String(s) => Some(Term::Id(Id::Iri(iref::IriBuf::new(s.to_string()).unwrap()))),
        Value::Array(a) => {
            let t = a[1].as_str().unwrap();
            let ty = LiteralType::Any(iref::IriBuf::new(t.to_string()).unwrap());
            Some(Term::Literal(Literal::new(a[0].as_str().unwrap().to_string(), ty)))
        }
        _ => None,
    }
}

fn main() {
    let path = std::env::args().nth(1).unwrap();
    let show = std::env::args().nth(2).is_some();
    let (v, _) = Value::parse_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let mut bad = 0;
    for c in v.as_array().unwrap() {
        let c2 = c.clone();
        let got = std::thread::Builder::new().stack_size(64 << 20).spawn(move || run(&c2)).unwrap().join().unwrap_or_else(|_| "panic".to_string());
        if show { println!("{got}\n--"); continue; }
        let want = get(c, "want").unwrap().as_str().unwrap();
        if got != want {
            bad += 1;
            println!("case {}\n  got  {got}\n  want {want}", text(c));
        }
    }
    if bad > 0 { std::process::exit(1) }
}
