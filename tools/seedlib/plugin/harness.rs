use swc_core::common::{comments::SingleThreadedComments, sync::Lrc, FileName, FilePathMapping, Globals, Mark, SourceMap, GLOBALS};
use swc_core::ecma::ast::*;
use swc_core::ecma::codegen::{text_writer::JsWriter, Config, Emitter};
use swc_core::ecma::parser::{lexer::Lexer, EsSyntax, Parser, StringInput, Syntax};
use swc_core::plugin::proxies::TransformPluginProgramMetadata;

/// What the plugin makes of a program: the code printed before and after.
pub fn run(code: &str, filename: Option<&str>, config: Option<&str>) -> (String, String) {
    GLOBALS.set(&Globals::new(), || {
        let name = || FileName::Real(filename.unwrap_or("none.js").into()).into();
        let cm: Lrc<SourceMap> = Default::default();
        let own = SourceMap::new(FilePathMapping::empty());
        own.new_source_file(name(), code.to_string());
        let fm = cm.new_source_file(name(), code.to_string());
        let comments = SingleThreadedComments::default();
        let lexer = Lexer::new(Syntax::Es(EsSyntax::default()), EsVersion::latest(), StringInput::from(&*fm), Some(&comments));
        let program = Program::Script(Parser::new_from(lexer).parse_script().expect("parse"));
        let before = print(&program, &cm);
        let metadata = TransformPluginProgramMetadata {
            comments: Some(comments),
            source_map: own,
            unresolved_mark: Mark::new(),
            config: config.map(String::from),
            filename: filename.map(String::from),
        };
        let after = crate::plugin::process(program, metadata);
        (before, print(&after, &cm))
    })
}

fn print(program: &Program, cm: &Lrc<SourceMap>) -> String {
    let mut buf = vec![];
    let mut e = Emitter { cfg: Config::default(), cm: cm.clone(), comments: None, wr: JsWriter::new(cm.clone(), "\n", &mut buf, None) };
    e.emit_program(program).unwrap();
    String::from_utf8(buf).unwrap()
}
