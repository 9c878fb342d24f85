use crate::enc::*;
use futures::executor::block_on;
use hashbrown::HashSet;
use iref::{Iri, IriBuf};
use json_ld::rdf_types::BlankIdBuf;
use json_ld::syntax::{self, IntoJsonWithContext, TryFromJson};
use json_ld::{
    Context, ContextLoadError, ExpandError, ExpandedDocument, JsonLdProcessor, LoadError, Loader, Process,
    ProcessingMode, RemoteContextReference, RemoteDocument, RemoteDocumentReference,
};
use json_ld_core::context::TermDefinitionRef;
use json_ld_core::{RdfQuads, Term, Type};
use json_syntax::object::Object;
use json_syntax::Value;
use rdf_types::vocabulary::IndexVocabulary;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ej(d: ExpandedDocument<IriBuf, BlankIdBuf>) -> Value {
    IntoJsonWithContext::into_json_with(d.into_objects(), &())
}

#[derive(Debug)]
pub struct NotFound;
impl std::fmt::Display for NotFound {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "not found")
    }
}
impl std::error::Error for NotFound {}

/// In-memory loader recording every request.
#[derive(Default)]
pub struct RecLoader {
    pub docs: HashMap<String, (String, Value)>,
    pub log: RefCell<Vec<String>>,
}

impl RecLoader {
    fn from_case(case: &Object) -> Self {
        let mut docs = HashMap::new();
        if let Some(Value::Array(a)) = get(case, "remote") {
            for e in a {
                if let Value::Array(p) = e {
                    let fin = p.get(2).unwrap_or(&p[0]).as_str().unwrap().to_string();
                    docs.insert(p[0].as_str().unwrap().to_string(), (fin, p[1].clone()));
                }
            }
        }
        Self { docs, log: Default::default() }
    }
}

impl Loader for RecLoader {
    async fn load(&self, url: &Iri) -> Result<RemoteDocument<IriBuf>, LoadError> {
        self.log.borrow_mut().push(url.to_string());
        match self.docs.get(url.as_str()) {
            Some((u, d)) => Ok(RemoteDocument::new(Some(IriBuf::new(u.clone()).unwrap()), None, d.clone())),
            None => Err(LoadError::new(url.to_owned(), NotFound)),
        }
    }
}

pub struct Event(Vec<(String, String)>);
impl Event {
    fn new() -> Self {
        Event(Vec::new())
    }
    fn put(&mut self, k: &str, v: impl Into<String>) {
        self.0.push((k.to_string(), v.into()))
    }
}
impl std::fmt::Display for Event {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{{")?;
        for (i, (k, v)) in self.0.iter().enumerate() {
            if i > 0 {
                write!(f, ",")?
            }
            write!(f, "{}:{}", q(k), v)?
        }
        write!(f, "}}")
    }
}

fn opt_iri(o: &Object, k: &str) -> Option<IriBuf> {
    gstr(o, k).filter(|s| !s.is_empty()).map(|s| IriBuf::new(s.to_string()).expect("bad iri in case"))
}

pub fn mode(o: &Object) -> ProcessingMode {
    match gstr(o, "mode") {
        Some("1.0") => ProcessingMode::JsonLd1_0,
        _ => ProcessingMode::JsonLd1_1,
    }
}

fn options(o: &Object) -> json_ld::Options<IriBuf> {
    let action = |k: &str| match gstr(o, k) {
        Some("drop") => json_ld::expansion::Action::Drop,
        Some("reject") => json_ld::expansion::Action::Reject,
        _ => json_ld::expansion::Action::Keep,
    };
    json_ld::Options {
        base: opt_iri(o, "base"),
        compact_arrays: gbool(o, "compactArrays").unwrap_or(true),
        compact_to_relative: gbool(o, "compactToRelative").unwrap_or(true),
        expand_context: match get(o, "expandContext") {
            None | Some(Value::Null) => None,
            Some(c) => Some(ctx_ref(c)),
        },
        ordered: gbool(o, "ordered").unwrap_or(false),
        processing_mode: mode(o),
        rdf_direction: match gstr(o, "rdfDirection") {
            Some("i18n-datatype") => Some(json_ld_core::rdf::RdfDirection::I18nDatatype),
            Some("compound-literal") => Some(json_ld_core::rdf::RdfDirection::CompoundLiteral),
            _ => None,
        },
        produce_generalized_rdf: gbool(o, "generalized").unwrap_or(false),
        expansion_policy: json_ld::expansion::Policy {
            invalid: action("policyInvalid"),
            vocab: action("policyVocab"),
            allow_undefined: gbool(o, "allowUndefined").unwrap_or(true),
        },
    }
}

/// A context for the API: {"@ref": iri} loads it, anything else is parsed in place.
fn ctx_ref(c: &Value) -> RemoteContextReference<IriBuf> {
    if let Value::Object(o) = c {
        if let Some(i) = gstr(o, "@ref") {
            return RemoteContextReference::Iri(IriBuf::new(i.to_string()).unwrap());
        }
    }
    match syntax::Context::try_from_json(c.clone()) {
        Ok(c) => RemoteDocumentReference::Loaded(RemoteDocument::new(None, None, c)),
        Err(_) => std::panic::panic_any("CTXPARSE".to_string()),
    }
}

fn parse_ctx(c: &Value) -> Result<syntax::Context, String> {
    syntax::Context::try_from_json(c.clone()).map_err(|e| e.code().as_str().to_string())
}

fn ok(v: &Value) -> String {
    format!("[\"ok\",{}]", enc(v))
}
fn err(code: &str) -> String {
    format!("[\"err\",{}]", q(code))
}

/// Runs `f`, turning a panic of the code under test into a result.
fn guard(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(s) => s,
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else {
                "?".to_string()
            };
            if m == "CTXPARSE" {
                return err("invalid local context");
            }
            format!("[\"panic\",{}]", q(&m))
        }
    }
}

fn dump_term(t: &Term<IriBuf, BlankIdBuf>) -> String {
    match t {
        Term::Null => "[\"null\"]".to_string(),
        Term::Keyword(k) => format!("[\"kw\",{}]", q(k.into_str())),
        Term::Id(i) => match i {
            json_ld_core::Id::Valid(json_ld_core::ValidId::Iri(i)) => format!("[\"iri\",{}]", q(i.as_str())),
            json_ld_core::Id::Valid(json_ld_core::ValidId::Blank(b)) => format!("[\"bnode\",{}]", q(b.as_str())),
            json_ld_core::Id::Invalid(s) => format!("[\"invalid\",{}]", q(s)),
        },
    }
}

fn dump_nullable_lang(l: Option<syntax::Nullable<String>>) -> String {
    match l {
        None => "[\"unset\"]".into(),
        Some(syntax::Nullable::Null) => "[\"null\"]".into(),
        Some(syntax::Nullable::Some(s)) => format!("[\"v\",{}]", q(&s)),
    }
}

fn dump_ctx(c: &Context<IriBuf, BlankIdBuf>) -> String {
    let opt = |s: Option<String>| match s {
        None => "[\"null\"]".to_string(),
        Some(s) => format!("[\"v\",{}]", q(&s)),
    };
    let mut terms: Vec<(String, String)> = Vec::new();
    for b in c.definitions().iter() {
        let term = b.term().as_str().to_string();
        let d = match b.definition() {
            TermDefinitionRef::Type(t) => format!(
                "{{\"kind\":\"type\",\"protected\":{},\"container\":[\"@set\"]}}",
                q(if t.protected { "true" } else { "false" })
            ),
            TermDefinitionRef::Normal(d) => {
                let mut kinds: Vec<String> = Vec::new();
                use json_ld_core::ContainerKind as K;
                for (k, n) in [
                    (K::Graph, "@graph"),
                    (K::Id, "@id"),
                    (K::Index, "@index"),
                    (K::Language, "@language"),
                    (K::List, "@list"),
                    (K::Set, "@set"),
                    (K::Type, "@type"),
                ] {
                    if d.container.contains(k) {
                        kinds.push(q(n))
                    }
                }
                let typ = match &d.typ {
                    None => "[\"unset\"]".to_string(),
                    Some(Type::Id) => "[\"v\",\"@id\"]".to_string(),
                    Some(Type::Json) => "[\"v\",\"@json\"]".to_string(),
                    Some(Type::None) => "[\"v\",\"@none\"]".to_string(),
                    Some(Type::Vocab) => "[\"v\",\"@vocab\"]".to_string(),
                    Some(Type::Iri(i)) => format!("[\"v\",{}]", q(i.as_str())),
                };
                format!(
                    "{{\"kind\":\"term\",\"value\":{},\"prefix\":{},\"protected\":{},\"reverse\":{},\"base_url\":{},\"context\":{},\"container\":[{}],\"direction\":{},\"index\":{},\"language\":{},\"nest\":{},\"typ\":{}}}",
                    d.value.as_ref().map(dump_term).unwrap_or("[\"null\"]".into()),
                    q(if d.prefix { "true" } else { "false" }),
                    q(if d.protected { "true" } else { "false" }),
                    q(if d.reverse_property { "true" } else { "false" }),
                    opt(d.base_url.as_ref().map(|i| i.to_string())),
                    match &d.context {
                        None => "[\"unset\"]".to_string(),
                        Some(c) => format!("[\"set\",{}]", enc(&syntax::IntoJson::into_json((**c).clone()))),
                    },
                    kinds.join(","),
                    dump_nullable_lang(d.direction.map(|n| match n {
                        syntax::Nullable::Null => syntax::Nullable::Null,
                        syntax::Nullable::Some(d) => syntax::Nullable::Some(d.into_str().to_string()),
                    })),
                    opt(d.index.as_ref().map(|i| i.as_str().to_string())),
                    dump_nullable_lang(d.language.as_ref().map(|n| match n {
                        syntax::Nullable::Null => syntax::Nullable::Null,
                        syntax::Nullable::Some(l) => syntax::Nullable::Some(l.as_str().to_string()),
                    })),
                    opt(d.nest.as_ref().map(|n| n.as_str().to_string())),
                    typ,
                )
            }
        };
        terms.push((term, d));
    }
    terms.sort();
    let ts: Vec<String> = terms.iter().map(|(t, d)| format!("[{},{}]", q(t), d)).collect();
    format!(
        "{{\"base\":{},\"obase\":{},\"vocab\":{},\"lang\":{},\"dir\":{},\"prev\":{},\"terms\":[{}]}}",
        opt(c.base_iri().map(|i| i.to_string())),
        opt(c.original_base_url().map(|i| i.to_string())),
        c.vocabulary().map(dump_term).unwrap_or("[\"null\"]".into()),
        opt(c.default_language().map(|l| l.as_str().to_string())),
        opt(c.default_base_direction().map(|d| d.into_str().to_string())),
        match c.previous_context() {
            None => "[\"null\"]".to_string(),
            Some(p) => format!("[\"v\",{}]", dump_ctx(p)),
        },
        ts.join(",")
    )
}

fn expand_err<T>(r: &Result<T, ExpandError>) -> Option<String> {
    match r {
        Ok(_) => None,
        Err(e) => Some(err(e.code().as_str())),
    }
}

fn ctx_load_code(_: &ContextLoadError) -> &'static str {
    "loading remote context failed"
}

fn remote_doc(case: &Object) -> RemoteDocument<IriBuf> {
    RemoteDocument::new_full(
        opt_iri(case, "url"),
        None,
        opt_iri(case, "contextUrl"),
        HashSet::new(),
        get(case, "doc").cloned().unwrap_or(Value::Null),
    )
}

fn do_expand(case: &Object, loader: &RecLoader) -> Result<ExpandedDocument<IriBuf, BlankIdBuf>, String> {
    let doc = remote_doc(case);
    let opts = options(case);
    let r = block_on(JsonLdProcessor::expand_using(&doc, loader, opts));
    match expand_err(&r) {
        Some(e) => Err(e),
        None => Ok(r.ok().unwrap()),
    }
}

fn op_expand(case: &Object, loader: &RecLoader) -> String {
    match do_expand(case, loader) {
        Ok(d) => ok(&ej(d)),
        Err(e) => e,
    }
}

/// Expands the expanded document again, without any context or base.
fn op_again(case: &Object, loader: &RecLoader, ev: &mut Event) {
    let r = guard(|| {
        let d = match do_expand(case, loader) {
            Ok(d) => d,
            Err(e) => return e,
        };
        let mut again = case.clone();
        again.remove("doc").count();
        again.remove("expandContext").count();
        again.remove("contextUrl").count();
        again.remove("base").count();
        again.remove("url").count();
        again.push("doc".into(), ej(d));
        op_expand(&again, loader)
    });
    ev.put("again", r);
}

/// Expands other versions of the document and contexts, ordered or not.
fn op_perms(case: &Object, docs: &[Value], loader: &RecLoader, ev: &mut Event) {
    let mut out = Vec::new();
    for d in docs {
        for ordered in [false, true] {
            let a = d.as_array().unwrap();
            let mut c = case.clone();
            for k in ["doc", "expandContext", "ordered"] {
                c.remove(k).count();
            }
            c.push("doc".into(), a[0].clone());
            c.push("ordered".into(), Value::Boolean(ordered));
            if let Some(x) = a.get(1) {
                c.push("expandContext".into(), x.clone());
            }
            let l = RecLoader::from_case(&c);
            out.push(guard(|| op_expand(&c, &l)));
        }
    }
    let _ = loader;
    ev.put("variants", format!("[{}]", out.join(",")));
}

fn op_ctx(case: &Object, loader: &RecLoader, ev: &mut Event) {
    // {"ctxs":[{"c":ctx,"propagate":b,"override":b,"base":iri}], "base": iri}
    let mut active: Context<IriBuf, BlankIdBuf> = Context::new(opt_iri(case, "base"));
    let mut results: Vec<String> = Vec::new();
    if let Some(Value::Array(steps)) = get(case, "ctxs") {
        for s in steps {
            let s = s.as_object().unwrap();
            let before = loader.log.borrow().len();
            let mut next: Option<Context<IriBuf, BlankIdBuf>> = None;
            let r = guard(|| {
                let lc = match parse_ctx(get(s, "c").unwrap()) {
                    Ok(c) => c,
                    Err(e) => return format!("[\"parse\",{}]", q(&e)),
                };
                let opts = json_ld_context_processing::Options {
                    processing_mode: mode(case),
                    override_protected: gbool(s, "override").unwrap_or(false),
                    propagate: gbool(s, "propagate").unwrap_or(true),
                    vocab: Default::default(),
                };
                let r = block_on(lc.process_full(
                    &mut (),
                    &active,
                    loader,
                    opt_iri(s, "curl"),
                    opts,
                    json_ld_core::warning::Print,
                ));
                match r {
                    Ok(p) => {
                        let p = p.into_processed();
                        let d = dump_ctx(&p);
                        next = Some(p);
                        format!("[\"ok\",{}]", d)
                    }
                    Err(e) => err(e.code().as_str()),
                }
            });
            let loads: Vec<String> = loader.log.borrow()[before..].iter().map(|s| q(s)).collect();
            results.push(format!("{{\"res\":{},\"loads\":[{}]}}", r, loads.join(",")));
            match next {
                Some(n) => active = n,
                None => {
                    if gbool(case, "continue").unwrap_or(false) {
                        continue;
                    }
                    break;
                }
            }
        }
    }
    ev.put("steps", format!("[{}]", results.join(",")));
}

fn op_compact(case: &Object, loader: &RecLoader, ev: &mut Event) {
    let mut compacted: Option<Value> = None;
    let mut expanded: Option<Value> = None;
    let r = guard(|| {
        let doc = remote_doc(case);
        let opts = options(case);
        let ex = match do_expand(case, loader) {
            Ok(d) => d,
            Err(e) => return format!("[\"experr\",{}]", e),
        };
        expanded = Some(ej(ex));
        let ctx = ctx_ref(get(case, "ctx").unwrap());
        match block_on(JsonLdProcessor::compact_using(&doc, ctx, loader, opts)) {
            Ok(v) => {
                compacted = Some(v.clone());
                ok(&v)
            }
            Err(e) => err(e.code().as_str()),
        }
    });
    ev.put("res", r);
    if let Some(e) = expanded {
        ev.put("expanded", enc(&e));
    }
    if let Some(c) = compacted {
        // expand the compacted document again, with the same base
        let rr = guard(|| {
            let mut o = options(case);
            o.expand_context = None;
            o.expansion_policy = Default::default();
            let doc = RemoteDocument::new(opt_iri(case, "url"), None, c.clone());
            match block_on(JsonLdProcessor::expand_using(&doc, loader, o)) {
                Ok(d) => ok(&ej(d)),
                Err(e) => err(e.code().as_str()),
            }
        });
        ev.put("reexp", rr);
    }
}


type RQuad = rdf_types::Quad<
    rdf_types::Id<IriBuf, BlankIdBuf>,
    rdf_types::Id<IriBuf, BlankIdBuf>,
    rdf_types::Term<rdf_types::Id<IriBuf, BlankIdBuf>, rdf_types::Literal<IriBuf>>,
    rdf_types::Id<IriBuf, BlankIdBuf>,
>;

fn dump_id(i: &rdf_types::Id<IriBuf, BlankIdBuf>) -> String {
    match i {
        rdf_types::Id::Iri(i) => format!("[\"iri\",{}]", q(i.as_str())),
        rdf_types::Id::Blank(b) => format!("[\"bnode\",{}]", q(b.as_str())),
    }
}

fn dump_quad(quad: &RQuad) -> String {
    let obj = match &quad.2 {
        rdf_types::Term::Id(i) => dump_id(i),
        rdf_types::Term::Literal(l) => match &l.type_ {
            rdf_types::LiteralType::Any(t) => format!("[\"lit\",{},{},\"\"]", q(&l.value), q(t.as_str())),
            rdf_types::LiteralType::LangString(t) => format!("[\"lit\",{},\"@\",{}]", q(&l.value), q(t.as_str())),
        },
    };
    let g = match &quad.3 {
        None => "[\"default\"]".to_string(),
        Some(g) => dump_id(g),
    };
    format!("[{},{},{},{}]", dump_id(&quad.0), dump_id(&quad.1), obj, g)
}

fn dump_quads(it: impl Iterator<Item = RQuad>) -> String {
    let v: Vec<String> = it.map(|x| dump_quad(&x)).collect();
    format!("[{}]", v.join(","))
}

fn gen(case: &Object, k: &str) -> rdf_types::generator::Blank {
    rdf_types::generator::Blank::new_with_prefix(gstr(case, k).unwrap_or("b").to_string())
}

fn op_rdf(case: &Object, loader: &RecLoader) -> String {
    let doc = remote_doc(case);
    let r = block_on(JsonLdProcessor::to_rdf_using(&doc, gen(case, "gen"), loader, options(case)));
    match r {
        Ok(mut r) => format!("[\"ok\",{}]", dump_quads(r.cloned_quads())),
        Err(e) => err(e.code().as_str()),
    }
}

fn op_flatten(case: &Object, loader: &RecLoader, ev: &mut Event) {
    // flattened JSON, dataset of the flattened JSON read back, dataset of the original
    let flat = RefCell::new(None);
    let r = guard(|| {
        let doc = remote_doc(case);
        let mut g = gen(case, "gen");
        let ctx = match get(case, "ctx") {
            None | Some(Value::Null) => None,
            Some(c) => Some(ctx_ref(c)),
        };
        match block_on(JsonLdProcessor::flatten_full(&doc, rdf_types::vocabulary::no_vocabulary_mut(), &mut g, ctx, loader, options(case), ())) {
            Ok(v) => {
                *flat.borrow_mut() = Some(v.clone());
                ok(&v)
            }
            Err(e) => err(e.code().as_str()),
        }
    });
    ev.put("res", r);
    let ex = guard(|| op_expand(case, loader));
    ev.put("expanded", ex);
    if gbool(case, "rdf").unwrap_or(false) {
        ev.put("rdf0", guard(|| op_rdf(case, loader)));
        if let Some(v) = flat.into_inner() {
            ev.put(
                "rdf1",
                guard(|| {
                    // the identifiers of the flattened document need no base
                    let doc = RemoteDocument::new(None, None, v);
                    let mut o = options(case);
                    o.expand_context = None;
                    o.base = None;
                    match block_on(JsonLdProcessor::to_rdf_using(&doc, gen(case, "gen2"), loader, o)) {
                        Ok(mut r) => format!("[\"ok\",{}]", dump_quads(r.cloned_quads())),
                        Err(e) => err(e.code().as_str()),
                    }
                }),
            );
        }
    }
}

/// Same content through the different entry points.
fn op_variants(case: &Object, loader: &RecLoader, ev: &mut Event) {
    let mut out: Vec<(&str, &str, String)> = Vec::new();
    let exp_json = |r: Result<ExpandedDocument<IriBuf, BlankIdBuf>, ExpandError>| match r {
        Ok(d) => ok(&ej(d)),
        Err(e) => err(e.code().as_str()),
    };
    type Refd = RemoteDocumentReference<IriBuf>;
    // the document by reference
    let byref = || -> Option<Refd> {
        let u = opt_iri(case, "url")?;
        if loader.docs.contains_key(u.as_str()) && opt_iri(case, "contextUrl").is_none() {
            Some(RemoteDocumentReference::Iri(u))
        } else {
            None
        }
    };
    macro_rules! add {
        ($kind:expr, $how:expr, $e:expr) => {{
            let r = guard(|| $e);
            out.push(($kind, $how, r))
        }};
    }
    use rdf_types::vocabulary::IriVocabularyMut;
    macro_rules! voc_doc {
        ($voc:ident) => {
            remote_doc(case).map_iris(|i| $voc.insert(&i))
        };
    }
    macro_rules! jres {
        ($r:expr) => {
            match $r {
                Ok(v) => ok(&v),
                Err(e) => err(e.code().as_str()),
            }
        };
    }
    macro_rules! qres {
        ($r:expr) => {
            match $r {
                Ok(mut r) => format!("[\"ok\",{}]", dump_quads(r.cloned_quads())),
                Err(e) => err(e.code().as_str()),
            }
        };
    }
    macro_rules! vqres {
        ($r:expr) => {
            match $r {
                Ok(mut r) => {
                    let qs: Vec<_> = r.cloned_quads().collect();
                    let voc = r.into_vocabulary();
                    dump_voc_quads(&voc, qs)
                }
                Err(e) => err(e.code().as_str()),
            }
        };
    }
    let novoc = || rdf_types::vocabulary::no_vocabulary_mut();

    // -- expansion
    add!("expand", "doc", exp_json(block_on(JsonLdProcessor::expand_using(&remote_doc(case), loader, options(case)))));
    if let Some(r) = byref() {
        add!("expand", "ref", exp_json(block_on(JsonLdProcessor::expand_using(&r, loader, options(case)))));
        add!("expand", "plain-ref", exp_json(block_on(JsonLdProcessor::expand(&r, loader))));
        add!("expand", "ref-document", match block_on(JsonLdProcessor::into_document_full(r.clone(), novoc(), loader, options(case), ())) {
            Ok(d) => ok(&ej(d.into_expanded())),
            Err(e) => err(e.code().as_str()),
        });
    }
    add!("expand", "loaded", {
        let r: Refd = RemoteDocumentReference::Loaded(remote_doc(case));
        exp_json(block_on(JsonLdProcessor::expand_using(&r, loader, options(case))))
    });
    add!("expand", "voc", {
        let mut voc: IndexVocabulary = IndexVocabulary::new();
        let d = voc_doc!(voc);
        let o = voc_options(case, &mut voc);
        match block_on(JsonLdProcessor::expand_with_using(&d, &mut voc, loader, o)) {
            Ok(d) => ok(&IntoJsonWithContext::into_json_with(d.into_objects(), &voc)),
            Err(e) => err(e.code().as_str()),
        }
    });
    add!("expand", "plain", exp_json(block_on(JsonLdProcessor::expand(&remote_doc(case), loader))));
    add!("expand", "plain-voc", {
        let mut voc: IndexVocabulary = IndexVocabulary::new();
        let d = voc_doc!(voc);
        match block_on(JsonLdProcessor::expand_with(&d, &mut voc, loader)) {
            Ok(d) => ok(&IntoJsonWithContext::into_json_with(d.into_objects(), &voc)),
            Err(e) => err(e.code().as_str()),
        }
    });
    add!("expand", "document", match block_on(JsonLdProcessor::into_document_full(remote_doc(case), novoc(), loader, options(case), ())) {
        Ok(d) => ok(&ej(d.into_expanded())),
        Err(e) => err(e.code().as_str()),
    });
    add!("expand", "plain-document", match block_on(JsonLdProcessor::into_document(remote_doc(case), loader)) {
        Ok(d) => ok(&ej(d.into_expanded())),
        Err(e) => err(e.code().as_str()),
    });
    // the same context, embedded, given as an option, or linked
    if let Some(c) = get(case, "outer") {
        let with = |kind: &str| {
            let mut o = case.clone();
            o.remove("expandContext").for_each(drop);
            match kind {
                "embedded" => {
                    let mut d = get(case, "doc").unwrap().as_object().unwrap().clone();
                    d.insert("@context".into(), c.clone());
                    o.insert("doc".into(), Value::Object(d));
                }
                "option" => {
                    o.insert("expandContext".into(), c.clone());
                }
                _ => {
                    o.insert("contextUrl".into(), get(case, "outerUrl").unwrap().clone());
                }
            }
            o
        };
        for kind in ["embedded", "option", "link"] {
            let o = with(kind);
            add!("expand", kind, exp_json(block_on(JsonLdProcessor::expand_using(&remote_doc(&o), loader, options(&o)))));
        }
    }

    // -- compaction
    let compact_manual = |expanded: &ExpandedDocument<IriBuf, BlankIdBuf>, c: &Value| {
        use json_ld::Compact;
        let opts = options(case);
        let url = opt_iri(case, "url");
        let cx = match block_on(ctx_ref(c).load_context_with(&mut (), loader)) {
            Ok(c) => c.into_document(),
            Err(e) => return err(ctx_load_code(&e)),
        };
        let base = match &opts.base {
            Some(b) => Some(b.clone()),
            None if opts.compact_to_relative => url.clone(),
            None => None,
        };
        let active = match block_on(cx.process_full(
            &mut (),
            &Context::new(base),
            loader,
            url.clone().or(opts.base.clone()),
            opts.context_processing_options(),
            (),
        )) {
            Ok(a) => a,
            Err(e) => return err(e.code().as_str()),
        };
        jres!(block_on(expanded.compact_full(&mut (), active.as_ref(), loader, opts.compaction_options())))
    };
    if let Some(c) = get(case, "ctx") {
        add!("compact", "doc", jres!(block_on(JsonLdProcessor::compact_using(&remote_doc(case), ctx_ref(c), loader, options(case)))));
        add!("compact", "plain", jres!(block_on(JsonLdProcessor::compact(&remote_doc(case), ctx_ref(c), loader))));
        if let Some(r) = byref() {
            add!("compact", "ref", jres!(block_on(JsonLdProcessor::compact_using(&r, ctx_ref(c), loader, options(case)))));
        }
        if let Some(u) = get(case, "ctxUrl") {
            let i = || RemoteContextReference::Iri(IriBuf::new(u.as_str().unwrap().to_string()).unwrap());
            add!("compact", "cref", jres!(block_on(JsonLdProcessor::compact_using(&remote_doc(case), i(), loader, options(case)))));
        }
        macro_rules! voc_ctx {
            ($voc:ident) => {
                match ctx_ref(c) {
                    RemoteDocumentReference::Iri(i) => RemoteDocumentReference::Iri($voc.insert(&i)),
                    RemoteDocumentReference::Loaded(l) => RemoteDocumentReference::Loaded(l.map_iris(|i| $voc.insert(&i))),
                }
            };
        }
        add!("compact", "voc", {
            let mut voc: IndexVocabulary = IndexVocabulary::new();
            let d = voc_doc!(voc);
            let o = voc_options(case, &mut voc);
            let cx = voc_ctx!(voc);
            jres!(block_on(JsonLdProcessor::compact_with_using(&d, &mut voc, cx, loader, o)))
        });
        add!("compact", "plain-voc", {
            let mut voc: IndexVocabulary = IndexVocabulary::new();
            let d = voc_doc!(voc);
            let cx = voc_ctx!(voc);
            jres!(block_on(JsonLdProcessor::compact_with(&d, &mut voc, cx, loader)))
        });
        add!("compact", "manual", match do_expand(case, loader) {
            Ok(e) => compact_manual(&e, c),
            Err(e) => e,
        });
        add!("flatcompact", "doc", {
            let mut g = gen(case, "gen");
            jres!(block_on(JsonLdProcessor::flatten_full(&remote_doc(case), novoc(), &mut g, Some(ctx_ref(c)), loader, options(case), ())))
        });
        if let Some(r) = byref() {
            add!("flatcompact", "ref", {
                let mut g = gen(case, "gen");
                jres!(block_on(JsonLdProcessor::flatten_full(&r, novoc(), &mut g, Some(ctx_ref(c)), loader, options(case), ())))
            });
        }
    }

    // -- flattening
    add!("flatten", "doc", {
        let mut g = gen(case, "gen");
        jres!(block_on(JsonLdProcessor::flatten_using(&remote_doc(case), &mut g, loader, options(case))))
    });
    add!("flatten", "plain", {
        let mut g = gen(case, "gen");
        jres!(block_on(JsonLdProcessor::flatten(&remote_doc(case), &mut g, loader)))
    });
    if let Some(r) = byref() {
        add!("flatten", "ref", {
            let mut g = gen(case, "gen");
            jres!(block_on(JsonLdProcessor::flatten_using(&r, &mut g, loader, options(case))))
        });
    }
    add!("flatten", "voc", {
        let mut voc: IndexVocabulary = IndexVocabulary::new();
        let d = voc_doc!(voc);
        let o = voc_options(case, &mut voc);
        let mut g = gen(case, "gen");
        jres!(block_on(JsonLdProcessor::flatten_with_using(&d, &mut voc, &mut g, loader, o)))
    });
    add!("flatten", "manual", {
        use json_ld::Flatten;
        match do_expand(case, loader) {
            Err(e) => e,
            Ok(ex) => {
                let mut g = gen(case, "gen");
                match ex.flatten_with(&mut (), &mut g, false) {
                    Ok(f) => ok(&IntoJsonWithContext::into_json_with(f, &())),
                    Err(_) => err("conflicting indexes"),
                }
            }
        }
    });

    // -- RDF
    add!("rdf", "doc", qres!(block_on(JsonLdProcessor::to_rdf_using(&remote_doc(case), gen(case, "gen"), loader, options(case)))));
    add!("rdf", "plain", qres!(block_on(JsonLdProcessor::to_rdf(&remote_doc(case), gen(case, "gen"), loader))));
    if let Some(r) = byref() {
        add!("rdf", "ref", qres!(block_on(JsonLdProcessor::to_rdf_using(&r, gen(case, "gen"), loader, options(case)))));
    }
    add!("rdf", "voc", {
        let mut voc: IndexVocabulary = IndexVocabulary::new();
        let d = voc_doc!(voc);
        let o = voc_options(case, &mut voc);
        vqres!(block_on(JsonLdProcessor::to_rdf_with_using(&d, voc, gen(case, "gen"), loader, o)))
    });
    add!("rdf", "plain-voc", {
        let mut voc: IndexVocabulary = IndexVocabulary::new();
        let d = voc_doc!(voc);
        vqres!(block_on(JsonLdProcessor::to_rdf_with(&d, voc, gen(case, "gen"), loader)))
    });
    add!("rdf", "manual", {
        let opts = options(case);
        let mut ex = match do_expand(case, loader) {
            Ok(e) => e,
            Err(e) => return e,
        };
        let mut g = gen(case, "gen");
        ex.relabel_and_canonicalize(&mut g);
        let mut voc = ();
        let qs = ex.rdf_quads_full(&mut voc, &mut g, opts.rdf_direction, opts.produce_generalized_rdf).cloned();
        format!("[\"ok\",{}]", dump_quads(qs))
    });
    let v: Vec<String> = out.iter().map(|(k, h, r)| format!("[{},{},{}]", q(k), q(h), r)).collect();
    ev.put("variants", format!("[{}]", v.join(",")));
}

type VQuad<V> = rdf_types::Quad<
    rdf_types::Id<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as rdf_types::vocabulary::BlankIdVocabulary>::BlankId>,
    rdf_types::Id<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as rdf_types::vocabulary::BlankIdVocabulary>::BlankId>,
    rdf_types::Term<
        rdf_types::Id<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as rdf_types::vocabulary::BlankIdVocabulary>::BlankId>,
        <V as rdf_types::vocabulary::LiteralVocabulary>::Literal,
    >,
    rdf_types::Id<<V as rdf_types::vocabulary::IriVocabulary>::Iri, <V as rdf_types::vocabulary::BlankIdVocabulary>::BlankId>,
>;

fn dump_voc_quads<V: rdf_types::Vocabulary>(voc: &V, qs: Vec<VQuad<V>>) -> String {
    let id = |i: &rdf_types::Id<V::Iri, V::BlankId>| match i {
        rdf_types::Id::Iri(i) => format!("[\"iri\",{}]", q(voc.iri(i).unwrap().as_str())),
        rdf_types::Id::Blank(b) => format!("[\"bnode\",{}]", q(voc.blank_id(b).unwrap().as_str())),
    };
    let mut out = Vec::new();
    for quad in &qs {
        let obj = match &quad.2 {
            rdf_types::Term::Id(i) => id(i),
            rdf_types::Term::Literal(l) => {
                let l = voc.literal(l).unwrap();
                match l.type_ {
                    rdf_types::LiteralTypeRef::Any(t) => {
                        format!("[\"lit\",{},{},\"\"]", q(l.value), q(voc.iri(t).unwrap().as_str()))
                    }
                    rdf_types::LiteralTypeRef::LangString(t) => {
                        format!("[\"lit\",{},\"@\",{}]", q(l.value), q(t.as_str()))
                    }
                }
            }
        };
        let g = match &quad.3 {
            None => "[\"default\"]".to_string(),
            Some(g) => id(g),
        };
        out.push(format!("[{},{},{},{}]", id(&quad.0), id(&quad.1), obj, g));
    }
    format!("[\"ok\",[{}]]", out.join(","))
}

fn voc_options(
    case: &Object,
    voc: &mut IndexVocabulary,
) -> json_ld::Options<<IndexVocabulary as rdf_types::vocabulary::IriVocabulary>::Iri> {
    use rdf_types::vocabulary::IriVocabularyMut;
    let o = options(case);
    json_ld::Options {
        base: o.base.map(|i| voc.insert(&i)),
        expand_context: o.expand_context.map(|c| match c {
            RemoteDocumentReference::Iri(i) => RemoteDocumentReference::Iri(voc.insert(&i)),
            RemoteDocumentReference::Loaded(l) => RemoteDocumentReference::Loaded(l.map_iris(|i| voc.insert(&i))),
        }),
        compact_arrays: o.compact_arrays,
        compact_to_relative: o.compact_to_relative,
        ordered: o.ordered,
        processing_mode: o.processing_mode,
        rdf_direction: o.rdf_direction,
        produce_generalized_rdf: o.produce_generalized_rdf,
        expansion_policy: o.expansion_policy,
    }
}

fn op_compare(case: &Object, loader: &RecLoader, ev: &mut Event) {
    let a = get(case, "a").unwrap().clone();
    let b = get(case, "b").unwrap().clone();
    ev.put(
        "syn",
        guard(|| format!("[\"ok\",{}]", q(&json_ld::syntax::Compare::compare(&a, &b).to_string()))),
    );
    let da = RemoteDocument::new(opt_iri(case, "url"), None, a);
    let db = RemoteDocument::new(opt_iri(case, "url"), None, b);
    for (k, x, y) in [("ab", &da, &db), ("ba", &db, &da), ("aa", &da, &da)] {
        ev.put(
            k,
            guard(|| match block_on(JsonLdProcessor::compare_using(x, y, loader, options(case))) {
                Ok(v) => format!("[\"ok\",{}]", q(&v.to_string())),
                Err(e) => err(e.code().as_str()),
            }),
        );
    }
    for (k, d) in [("xa", &da), ("xb", &db)] {
        ev.put(
            k,
            guard(|| match block_on(JsonLdProcessor::expand_using(d, loader, options(case))) {
                Ok(v) => ok(&ej(v)),
                Err(e) => err(e.code().as_str()),
            }),
        );
    }
    ev.put(
        "xeq",
        guard(|| {
            let x = block_on(JsonLdProcessor::expand_using(&da, loader, options(case)));
            let y = block_on(JsonLdProcessor::expand_using(&db, loader, options(case)));
            match (x, y) {
                (Ok(x), Ok(y)) => format!("[\"ok\",{}]", q(&(x == y).to_string())),
                _ => err("expansion"),
            }
        }),
    );
    ev.put(
        "canon",
        guard(|| match block_on(JsonLdProcessor::expand_using(&da, loader, options(case))) {
            Ok(mut v) => {
                v.canonicalize();
                ok(&ej(v))
            }
            Err(e) => err(e.code().as_str()),
        }),
    );
}

fn op_expjson(case: &Object, loader: &RecLoader, ev: &mut Event) {
    // reading expanded JSON directly, and the expansion of the same JSON without context
    use json_ld_core::TryFromJson as _;
    let doc = get(case, "doc").unwrap().clone();
    ev.put(
        "read",
        guard(|| {
            match ExpandedDocument::<IriBuf, BlankIdBuf>::try_from_json_in(
                rdf_types::vocabulary::no_vocabulary_mut(),
                doc.clone(),
            ) {
                Ok(d) => ok(&ej(d)),
                Err(_) => err("invalid expanded JSON"),
            }
        }),
    );
    let ex = RefCell::new(None);
    ev.put(
        "expand",
        guard(|| match do_expand(case, loader) {
            Ok(d) => {
                *ex.borrow_mut() = Some(d.clone());
                ok(&ej(d))
            }
            Err(e) => e,
        }),
    );
    if let Some(d) = ex.into_inner() {
        ev.put(
            "rt",
            guard(|| {
                let j = ej(d.clone());
                match ExpandedDocument::<IriBuf, BlankIdBuf>::try_from_json_in(
                    rdf_types::vocabulary::no_vocabulary_mut(),
                    j,
                ) {
                    Ok(d2) => {
                        let eq = d2 == d;
                        format!("[\"ok\",{},{}]", enc(&ej(d2)), q(&eq.to_string()))
                    }
                    Err(_) => err("invalid expanded JSON"),
                }
            }),
        );
    }
}

type RTerm = rdf_types::Term<rdf_types::Id<IriBuf, BlankIdBuf>, rdf_types::Literal<IriBuf>>;

fn parse_term(v: &Value) -> Option<RTerm> {
    let a = v.as_array().unwrap();
    let s = |i: usize| a[i].as_str().unwrap().to_string();
    match a[0].as_str().unwrap() {
        "default" => None,
        "iri" => Some(rdf_types::Term::Id(rdf_types::Id::Iri(IriBuf::new(s(1)).unwrap()))),
        "bnode" => Some(rdf_types::Term::Id(rdf_types::Id::Blank(BlankIdBuf::new(s(1)).unwrap()))),
        _ => {
            let ty = if s(2) == "@" {
                rdf_types::LiteralType::LangString(langtag::LangTagBuf::new(s(3)).unwrap())
            } else {
                rdf_types::LiteralType::Any(IriBuf::new(s(2)).unwrap())
            };
            Some(rdf_types::Term::Literal(rdf_types::Literal::new(s(1), ty)))
        }
    }
}

fn op_fromrdf(case: &Object, _loader: &RecLoader, ev: &mut Event) {
    let quads: Vec<(RTerm, RTerm, RTerm, Option<RTerm>)> = get(case, "quads")
        .unwrap()
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let a = x.as_array().unwrap();
            (
                parse_term(&a[0]).unwrap(),
                parse_term(&a[1]).unwrap(),
                parse_term(&a[2]).unwrap(),
                parse_term(&a[3]),
            )
        })
        .collect();
    let out = RefCell::new(None);
    ev.put(
        "res",
        guard(|| {
            match ExpandedDocument::<IriBuf, BlankIdBuf>::from_interpreted_quads(
                &(),
                &(),
                quads.iter().map(|x| rdf_types::Quad(&x.0, &x.1, &x.2, x.3.as_ref())),
            ) {
                Ok(d) => {
                    *out.borrow_mut() = Some(d.clone());
                    ok(&ej(d))
                }
                Err(_) => err("serialization"),
            }
        }),
    );
    if let Some(mut d) = out.into_inner() {
        ev.put(
            "rdf",
            guard(|| {
                let mut g = gen(case, "gen");
                d.relabel_and_canonicalize(&mut g);
                let mut voc = ();
                let s = dump_quads(d.rdf_quads_full(&mut voc, &mut g, None, true).cloned());
                format!("[\"ok\",{}]", s)
            }),
        );
    }
}

/// One member of a loader tree that follows a script and records its calls.
struct Scripted<'a> {
    name: String,
    ok: Vec<String>,
    log: &'a RefCell<Vec<String>>,
}
impl<'a> Loader for Scripted<'a> {
    async fn load(&self, url: &Iri) -> Result<RemoteDocument<IriBuf>, LoadError> {
        self.log.borrow_mut().push(format!("{}:{}", self.name, url));
        if self.ok.iter().any(|u| u == url.as_str()) {
            Ok(RemoteDocument::new(
                Some(url.to_owned()),
                None,
                Value::String(self.name.as_str().into()),
            ))
        } else {
            Err(LoadError::new(url.to_owned(), ScriptError(self.name.clone())))
        }
    }
}
#[derive(Debug)]
struct ScriptError(String);
impl std::fmt::Display for ScriptError {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for ScriptError {}

enum Tree<'a> {
    Leaf(Scripted<'a>),
    Map(HashMap<IriBuf, RemoteDocument>),
    BMap(std::collections::BTreeMap<IriBuf, RemoteDocument>),
    None(json_ld::NoLoader),
    Fs(json_ld::FsLoader),
    Chain(Box<json_ld::ChainLoader<Tree<'a>, Tree<'a>>>),
}
impl<'a> Loader for Tree<'a> {
    async fn load(&self, url: &Iri) -> Result<RemoteDocument<IriBuf>, LoadError> {
        match self {
            Tree::Leaf(l) => l.load(url).await,
            Tree::Map(l) => l.load(url).await,
            Tree::BMap(l) => l.load(url).await,
            Tree::None(l) => l.load(url).await,
            Tree::Fs(l) => l.load(url).await,
            Tree::Chain(l) => Box::pin(l.load(url)).await,
        }
    }
}

fn map_entries(v: &Value) -> Vec<(IriBuf, RemoteDocument)> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|e| {
            let a = e.as_array().unwrap();
            let o = a[1].as_object().unwrap();
            (
                IriBuf::new(a[0].as_str().unwrap().to_string()).unwrap(),
                RemoteDocument::new_full(
                    opt_iri(o, "url"),
                    gstr(o, "contentType").map(|s| s.parse().unwrap()),
                    opt_iri(o, "contextUrl"),
                    HashSet::new(),
                    get(o, "document").cloned().unwrap_or(Value::Null),
                ),
            )
        })
        .collect()
}

fn tree<'a>(v: &Value, log: &'a RefCell<Vec<String>>, root: &std::path::Path) -> Tree<'a> {
    let o = v.as_object().unwrap();
    match gstr(o, "t").unwrap() {
        "leaf" => Tree::Leaf(Scripted {
            name: gstr(o, "name").unwrap().to_string(),
            ok: get(o, "ok").unwrap().as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect(),
            log,
        }),
        "map" => Tree::Map(map_entries(get(o, "entries").unwrap()).into_iter().collect()),
        "bmap" => Tree::BMap(map_entries(get(o, "entries").unwrap()).into_iter().collect()),
        "none" => Tree::None(json_ld::NoLoader),
        "fs" => {
            let mut l = json_ld::FsLoader::new();
            for m in get(o, "mounts").unwrap().as_array().unwrap() {
                let a = m.as_array().unwrap();
                l.mount(
                    IriBuf::new(a[0].as_str().unwrap().to_string()).unwrap(),
                    root.join(a[1].as_str().unwrap()),
                );
            }
            Tree::Fs(l)
        }
        _ => Tree::Chain(Box::new(json_ld::ChainLoader::new(
            tree(get(o, "l").unwrap(), log, root),
            tree(get(o, "r").unwrap(), log, root),
        ))),
    }
}

pub fn dump_remote(d: &RemoteDocument<IriBuf>) -> String {
    let opt = |s: Option<String>| match s {
        None => "[\"null\"]".to_string(),
        Some(s) => format!("[\"v\",{}]", q(&s)),
    };
    let mut prof: Vec<String> = d.profile.iter().map(|p| q(p.iri().as_str())).collect();
    prof.sort();
    format!(
        "{{\"url\":{},\"contentType\":{},\"contextUrl\":{},\"profile\":[{}],\"document\":{}}}",
        opt(d.url.as_ref().map(|i| i.to_string())),
        opt(d.content_type.as_ref().map(|i| i.to_string())),
        opt(d.context_url.as_ref().map(|i| i.to_string())),
        prof.join(","),
        enc(&d.document)
    )
}

/// {"tree":..., "files":[[path,content]...], "requests":[iri...]}; files live in a scratch directory.
fn op_load(case: &Object, ev: &mut Event) {
    let scratch = std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| "/tmp/jsonld-harness".into());
    let root = std::path::PathBuf::from(scratch).join(format!("c{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    if let Some(Value::Array(fs)) = get(case, "files") {
        for f in fs {
            let a = f.as_array().unwrap();
            let p = root.join(a[0].as_str().unwrap());
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, a[1].as_str().unwrap()).unwrap();
        }
    }
    let log = RefCell::new(Vec::new());
    let t = tree(get(case, "tree").unwrap(), &log, &root);
    let mut out = Vec::new();
    for r in get(case, "requests").unwrap().as_array().unwrap() {
        let url = IriBuf::new(r.as_str().unwrap().to_string()).unwrap();
        let before = log.borrow().len();
        let res = guard(|| match block_on(t.load(&url)) {
            Ok(d) => format!("[\"ok\",{}]", dump_remote(&d)),
            Err(e) => format!("[\"err\",{},{}]", q(e.target.as_str()), q(&e.cause.to_string())),
        });
        let calls: Vec<String> = log.borrow()[before..].iter().map(|s| q(s)).collect();
        let path = match &t {
            Tree::Fs(l) => guard(|| match l.filepath(&url) {
                Some(p) => {
                    let s = p.to_string_lossy().to_string();
                    let pre = format!("{}/", root.to_string_lossy());
                    format!("[\"v\",{}]", q(s.strip_prefix(&pre).unwrap_or(&s)))
                }
                None => "[\"null\"]".into(),
            }),
            _ => "[\"none\"]".into(),
        };
        out.push(format!("{{\"url\":{},\"res\":{},\"calls\":[{}],\"path\":{}}}", q(url.as_str()), res, calls.join(","), path));
    }
    let _ = std::fs::remove_dir_all(&root);
    ev.put("results", format!("[{}]", out.join(",")));
}

pub fn run(case: Value) -> String {
    let mut o = case.as_object().expect("case object").clone();
    // documents given as text, so that they may have duplicate keys
    if let Some(Value::Object(texts)) = get(&o, "texts").cloned() {
        for e in texts.entries() {
            use json_syntax::Parse as _;
            let (v, _) = Value::parse_str(e.value.as_str().unwrap()).expect("text");
            o.insert(e.key.as_str().into(), v);
        }
    }
    let op = gstr(&o, "op").unwrap().to_string();
    let loader = RecLoader::from_case(&o);
    let mut ev = Event::new();
    // echo the case, every JSON payload in the tagged encoding
    for e in o.entries() {
        let k = e.key.as_str();
        let v = match k {
            "perms" => continue,
            "doc" | "ctx" | "a" | "b" | "expandContext" | "outer" => enc(&e.value),
            "ctxs" => {
                let v: Vec<String> = e
                    .value
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|s| {
                        let s = s.as_object().unwrap();
                        let mut x = Event::new();
                        for e in s.entries() {
                            if e.key.as_str() == "c" {
                                x.put("c", enc(&e.value))
                            } else {
                                x.put(e.key.as_str(), raw(&e.value))
                            }
                        }
                        x.to_string()
                    })
                    .collect();
                format!("[{}]", v.join(","))
            }
            "remote" => {
                let v: Vec<String> = e
                    .value
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|s| {
                        let a = s.as_array().unwrap();
                        format!("[{},{},{}]", q(a[0].as_str().unwrap()), enc(&a[1]), q(a.get(2).unwrap_or(&a[0]).as_str().unwrap()))
                    })
                    .collect();
                format!("[{}]", v.join(","))
            }
            _ => raw(&e.value),
        };
        ev.put(k, v);
    }
    match op.as_str() {
        "expand" => {
            let r = guard(|| op_expand(&o, &loader));
            ev.put("res", r);
            if gbool(&o, "again").unwrap_or(false) {
                op_again(&o, &loader, &mut ev)
            }
            if let Some(Value::Array(docs)) = get(&o, "perms") {
                op_perms(&o, docs, &loader, &mut ev)
            }
        }
        "ctx" => op_ctx(&o, &loader, &mut ev),
        "compact" => op_compact(&o, &loader, &mut ev),
        "flatten" => op_flatten(&o, &loader, &mut ev),
        "rdf" => {
            ev.put("expanded", guard(|| op_expand(&o, &loader)));
            let r = guard(|| op_rdf(&o, &loader));
            ev.put("res", r);
        }
        "variants" => op_variants(&o, &loader, &mut ev),
        "compare" => op_compare(&o, &loader, &mut ev),
        "expjson" => op_expjson(&o, &loader, &mut ev),
        "fromrdf" => op_fromrdf(&o, &loader, &mut ev),
        "load" => op_load(&o, &mut ev),
        #[cfg(feature = "http")]
        "http" => {
            let mut requests = Vec::new();
            let r = guard(|| crate::http::run(&o, &mut requests));
            ev.put("res", r);
            ev.put("requests", format!("[{}]", requests.join(",")));
        }
        other => panic!("unknown op {other}"),
    }
    let loads: Vec<String> = loader.log.borrow().iter().map(|s| q(s)).collect();
    ev.put("loads", format!("[{}]", loads.join(",")));
    ev.to_string()
}
