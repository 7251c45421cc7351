use std::{io::Read, sync::Arc};
use swc_core::common::{comments::SingleThreadedComments, FileName, SourceMap, FilePathMapping, GLOBALS, Globals};
use swc_core::ecma::{ast::*, parser::{Syntax, EsSyntax, TsSyntax, Parser, StringInput, lexer::Lexer}, visit::VisitMutWith, codegen::{Emitter, text_writer::JsWriter, Config}};
use swc_coverage_instrument::{create_coverage_instrumentation_visitor, InstrumentOptions};
fn one(src: &str, filename: &str, opts: InstrumentOptions, ts: bool, script: bool) -> String {
    let cm: swc_core::common::sync::Lrc<SourceMap> = Default::default();
    let acm: Arc<SourceMap> = Arc::new(SourceMap::new(FilePathMapping::empty()));
    acm.new_source_file(FileName::Real(filename.into()).into(), src.to_string());
    let fm = cm.new_source_file(FileName::Real(filename.into()).into(), src.to_string());
    let comments = SingleThreadedComments::default();
    let syn = if ts { Syntax::Typescript(TsSyntax{decorators:true,..Default::default()}) } else { Syntax::Es(EsSyntax{jsx:true,decorators:true,..Default::default()}) };
    let lexer = Lexer::new(syn, EsVersion::latest(), StringInput::from(&*fm), Some(&comments));
    let mut p = Parser::new_from(lexer);
    let mut prog = if script { Program::Script(p.parse_script().expect("parse")) } else { Program::Module(p.parse_module().expect("parse")) };
    let mut v = create_coverage_instrumentation_visitor(acm.clone(), comments.clone(), opts, filename.to_string());
    prog.visit_mut_with(&mut v);
    prog.mutate(&mut swc_core::ecma::transforms::base::fixer::fixer(Some(&comments)));
    let mut buf = vec![];
    { let mut e = Emitter { cfg: Config::default(), cm: cm.clone(), comments: Some(&comments), wr: JsWriter::new(cm.clone(), "\n", &mut buf, None) };
      e.emit_program(&prog).unwrap(); }
    // comments that stand at no node's position are not printed: add them
    let mut out = String::from_utf8(buf).unwrap();
    let (_, trailing) = comments.borrow_all();
    for c in trailing.values().flatten().filter(|c| c.span.is_dummy() || c.span.lo.0 >= 1 << 30) {
        out.push_str(&format!("\n/*{}*/", c.text));
    }
    drop(trailing);
    out
}
// stdin: JSON array of jobs {code, filename, opts, ts, script}; stdout: JSON array of outputs (string, or {"panic":..})
fn main() {
    let mut s = String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
    let jobs: Vec<serde_json::Value> = serde_json::from_str(&s).unwrap();
    let mut out = vec![];
    for j in jobs {
        let r = std::panic::catch_unwind(|| GLOBALS.set(&Globals::new(), || {
            let opts: InstrumentOptions = if j["opts"].is_null() { Default::default() } else { serde_json::from_value(j["opts"].clone()).unwrap() };
            one(j["code"].as_str().unwrap(), j["filename"].as_str().unwrap_or("/a/file.js"), opts, j["ts"].as_bool().unwrap_or(false), j["script"].as_bool().unwrap_or(false))
        }));
        out.push(match r { Ok(v) => serde_json::json!(v), Err(e) => serde_json::json!({"panic": e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()))}) });
    }
    println!("{}", serde_json::to_string(&out).unwrap());
}
