//! Serves the native modules of /repo/code (over the stand-in for neon) to a Node process, line by line, and answers
//! the same questions by calling the libraries directly.

use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::rc::Rc;

use fall_editor::EditorFileImpl;
use fall_tree::{tu, TextEdit, TextRange, TextUnit};
use generic_backend::EditorFile;
use lang_fall::editor::FileWithAnalysis;
use lang_rust::editor::{RustEditorFile, SymbolIndex};
use neon::scope::RootScope;
use generic_backend::declare_editor_file_class;
use neon::{declare_types, vm::{Call, Lock}, Module, Object, Val};
use serde_json::{json, Value as J};

use crate::ctx;
use crate::gen::{edits, fallgen, programs, texts};
use crate::langs::Kind;
use crate::rng::Rng;

/// A file of the editor whose formatting is whatever edit was put up for it.
pub struct AnyFile(fall_tree::File);

thread_local! { static PUT_UP: RefCell<Option<TextEdit>> = RefCell::new(None); }

impl EditorFileImpl for AnyFile {
    fn parse(text: &str) -> Self { AnyFile(Kind::Json.lang().parse(text)) }
    fn edit(&self, edit: &TextEdit) -> Self { AnyFile(self.0.edit(edit)) }
    fn file(&self) -> &fall_tree::File { &self.0 }
    fn syntax_tree(&self) -> String { String::new() }
    fn reformat(&self) -> TextEdit { PUT_UP.with(|e| e.borrow_mut().take().unwrap()) }
}

declare_editor_file_class! { JsAnyFile, AnyFile }

fn any_module() -> Module {
    let mut m = Module::default();
    m.export("parse", generic_backend::parse::<JsAnyFile>).unwrap();
    m.export("edit", generic_backend::edit::<AnyFile, JsAnyFile>).unwrap();
    m.export("reformat", generic_backend::reformat::<AnyFile, JsAnyFile>).unwrap();
    m
}

struct Server { modules: HashMap<&'static str, Module>, objects: Vec<Object> }

pub fn serve() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(|| {
        let mut modules = HashMap::new();
        let mut m = Module::default();
        fall_backend::register(&mut m).unwrap();
        modules.insert("fall", m);
        let mut m = Module::default();
        rust_backend::register(&mut m).unwrap();
        modules.insert("rust", m);
        modules.insert("any", any_module());
        let mut server = Server { modules, objects: Vec::new() };
        let stdin = std::io::stdin();
        let out = std::io::stdout();
        for line in stdin.lock().lines() {
            let req: J = serde_json::from_str(&line.unwrap()).unwrap();
            let res = match ctx::catch_guarded(|| server.answer(&req)) {
                Ok(Ok(v)) => json!({ "ok": v }),
                Ok(Err(e)) => json!({ "throw": e }),
                Err(p) => json!({ "panic": p.signature() }),
            };
            let mut o = out.lock();
            o.write_all(serde_json::to_string(&res).unwrap().as_bytes()).unwrap();
            o.write_all(b"\n").unwrap();
            o.flush().unwrap();
        }
    }).unwrap().join().unwrap()
}

fn kind(v: &J) -> Kind { if v == "fall" { Kind::Fall } else { Kind::Rust } }
fn unit(v: &J) -> TextUnit { tu(v.as_u64().unwrap() as u32) }
fn range(v: &J) -> TextRange { TextRange::from_to(unit(&v[0]), unit(&v[1])) }

impl Server {
    fn answer(&mut self, req: &J) -> Result<J, String> {
        match req["do"].as_str().unwrap() {
            "call" => self.call(req),
            "reset" => { self.objects.clear(); Ok(J::Null) }
            "text" => self.text(req),
            "oracle" => { let known = req["obj"].as_u64().map(|i| &self.objects[i as usize]); Ok(oracle(req, known)) }
            "putUp" => Ok(put_up(req)),
            "texts" => Ok(some_texts(req)),
            "insertions" => {
                let mut rng = Rng::new(req["seed"].as_u64().unwrap(), "C22", 0);
                Ok(json!((0..req["n"].as_u64().unwrap()).map(|_| edits::insertion(&mut rng, kind(&req["lang"]))).collect::<Vec<_>>()))
            }
            "index" => {
                let index = SymbolIndex::new(vec![req["root"].as_str().unwrap().into()]);
                let mut last = String::new();
                // until it holds still
                for _ in 0..200 {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    let now = serde_json::to_string(&index.query("#")).unwrap();
                    if now == last && now.len() > 2 { break }
                    last = now;
                }
                let queries: Vec<String> = serde_json::from_value(req["queries"].clone()).unwrap();
                Ok(json!(queries.iter().map(|q| serde_json::to_value(index.query(q)).unwrap()).collect::<Vec<_>>()))
            }
            o => panic!("unknown request {}", o),
        }
    }

    /// The text of the file behind a native object.
    fn text(&self, req: &J) -> Result<J, String> {
        let o = self.objects[req["obj"].as_u64().unwrap() as usize].borrow();
        if let Some(f) = o.downcast_ref::<EditorFile<FileWithAnalysis>>() { return Ok(json!(EditorFileImpl::file(&**f).text().to_string())) }
        if let Some(f) = o.downcast_ref::<EditorFile<RustEditorFile>>() { return Ok(json!(f.file().text().to_string())) }
        if let Some(f) = o.downcast_ref::<EditorFile<AnyFile>>() { return Ok(json!(f.file().text().to_string())) }
        Err("no file".to_string())
    }

    fn call(&mut self, req: &J) -> Result<J, String> {
        let module = &self.modules[req["lang"].as_str().unwrap()];
        let f = match module.exports.get(req["f"].as_str().unwrap()) {
            Some(f) => *f,
            None => return Err(format!("the native module has no function {}", req["f"])),
        };
        let slot = Rc::new(RefCell::new(None));
        let vals = req["a"].as_array().unwrap().iter().map(|v| {
            if let Some(id) = v.get("$obj") { return Val::Obj(self.objects[id.as_u64().unwrap() as usize].clone()) }
            if v.get("$fun").is_some() { return Val::Fun(slot.clone()) }
            Val::Json(v.clone())
        }).collect();
        let mut scope = RootScope(std::marker::PhantomData);
        let res = { let call = Call::new(&mut scope, vals); f(call).map(|h| h.val()) };
        let res = match res { Ok(v) => v, Err(t) => return Err(t.0) };
        let called = slot.borrow_mut().take();
        if let Some(args) = called { return Ok(json!({ "$called": args.into_iter().map(|a| self.encode(a)).collect::<Vec<_>>() })) }
        Ok(self.encode(res))
    }

    fn encode(&mut self, v: Val) -> J {
        match v {
            Val::Json(v) => v,
            Val::Obj(o) => { self.objects.push(o); json!({ "$obj": self.objects.len() - 1 }) }
            Val::Fun(_) => J::Null,
        }
    }
}

/// The answer of the library for the file behind an object, or for a fresh file of this text; edits are answered by
/// the text they lead to.
fn oracle(req: &J, known: Option<&Object>) -> J {
    let text = req["text"].as_str().unwrap();
    if kind(&req["lang"]) == Kind::Fall {
        let held;
        let fresh;
        let f: &FileWithAnalysis = match known {
            Some(o) => { held = o.borrow(); &**held.downcast_ref::<EditorFile<FileWithAnalysis>>().unwrap() }
            None => { fresh = FileWithAnalysis::parse(text); &fresh }
        };
        match req["q"].as_str().unwrap() {
            "resolveReference" => serde_json::to_value(f.resolve_reference(unit(&req["at"]))).unwrap(),
            "findUsages" => serde_json::to_value(f.find_usages(unit(&req["at"]))).unwrap(),
            "testAtOffset" => serde_json::to_value(f.test_at_offset(unit(&req["at"]))).unwrap(),
            _ => common(f, text, req),
        }
    } else {
        let held;
        let fresh;
        let f: &RustEditorFile = match known {
            Some(o) => { held = o.borrow(); &**held.downcast_ref::<EditorFile<RustEditorFile>>().unwrap() }
            None => { fresh = RustEditorFile::parse(text); &fresh }
        };
        match req["q"].as_str().unwrap() {
            "afterSpaceTyped" => serde_json::to_value(f.after_space_typed(unit(&req["at"]))).unwrap(),
            "expand" => json!(f.expand(unit(&req["at"])).map(|e| e.apply(f.file().text()).to_string())),
            "breadcrumbs" => serde_json::to_value(f.breadcrumbs(unit(&req["at"]))).unwrap(),
            _ => common(f, text, req),
        }
    }
}

fn common<F: EditorFileImpl>(f: &F, _text: &str, req: &J) -> J {
    match req["q"].as_str().unwrap() {
        "syntaxTree" => json!(f.syntax_tree()),
        "extendSelection" => serde_json::to_value(f.extend_selection(range(&req["range"]))).unwrap(),
        "structure" => serde_json::to_value(f.structure()).unwrap(),
        "reformat" => json!(f.reformat().apply(f.file().text()).to_string()),
        "highlight" => serde_json::to_value(f.highlight()).unwrap(),
        "diagnostics" => serde_json::to_value(f.diagnostics()).unwrap(),
        "contextActions" => json!(f.context_actions(range(&req["range"]))),
        "applyContextAction" => json!(f.apply_context_action(range(&req["range"]), req["id"].as_str().unwrap()).map(|e| e.apply(f.file().text()).to_string())),
        o => panic!("unknown query {}", o),
    }
}

/// Some text and an edit of it, the answer to the next request to format.
fn put_up(req: &J) -> J {
    let mut rng = Rng::new(req["seed"].as_u64().unwrap(), "C22-edits", 0);
    let kind = *rng.pick(&[Kind::Fall, Kind::Rust]);
    let mut text = if rng.chance(1, 2) { texts::chunk(&mut rng, kind, 60) } else { texts::text(&mut rng, kind, 200) };
    if rng.chance(1, 4) { text = format!("é😀{}日本", text) }
    let n = rng.below(6);
    let ops = edits::ops(&mut rng, &text, n, &mut |rng| edits::insertion(rng, kind));
    let edit = if rng.chance(1, 2) { edits::build(&text, &ops) } else { edits::raw(&mut rng, &text, &ops) };
    let want = edits::apply(&text, &ops);
    PUT_UP.with(|e| *e.borrow_mut() = Some(edit));
    json!({ "text": text, "want": want, "ops": ops.iter().map(|o| json!({ "delete": [o.start, o.end], "insert": o.insert })).collect::<Vec<_>>() })
}

fn some_texts(req: &J) -> J {
    let k = kind(&req["lang"]);
    let mut rng = Rng::new(req["seed"].as_u64().unwrap(), "C22", 0);
    let res: Vec<String> = (0..req["n"].as_u64().unwrap()).map(|_| {
        if rng.chance(1, 25) { return String::new() }
        if k == Kind::Fall && rng.chance(1, 2) { let n = rng.range(2, 12); return fallgen::text(&mut rng, n) }
        if rng.chance(2, 3) { let n = rng.range(5, 60); programs::valid(&mut rng, k, n) } else { texts::text(&mut rng, k, 1500) }
    }).collect();
    json!(res)
}
