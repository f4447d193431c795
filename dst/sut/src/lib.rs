//! The system under test, behind non-generic entry points.
//!
//! Everything generic in ratel (serialisation, visiting, code generation) is monomorphised here,
//! so that this crate - compiled, like the ratel crates themselves, with an edge hook on every
//! basic block - carries the instrumented instances. Sinks, serializers, generators and visitors
//! are trait objects implemented by the simulator.

use std::fmt::{self, Write as FmtWrite};
use std::io;

pub use ratel::error::{Error, ParseError};
pub use ratel::Module;
use ratel_codegen::{Generator, ToCode};
use ratel_transformer::scope::Scope;
use ratel_visitor::{ParentNode, ScopeKind, Visitable, Visitor};

pub mod events;
pub mod visit;

pub type Mod = Module<'static>;
pub type ScopeRef = &'static Scope<'static>;

#[inline(never)]
pub fn parse(src: &str) -> Result<Mod, Vec<Error>> {
    ratel::parse(src)
}

#[inline(never)]
pub fn codegen(m: &Mod, minify: bool) -> String {
    ratel_codegen::codegen(m, minify)
}

#[inline(never)]
pub fn json_string(m: &Mod, pretty: bool) -> Result<String, serde_json::Error> {
    if pretty {
        serde_json::to_string_pretty(m)
    } else {
        serde_json::to_string(m)
    }
}

#[inline(never)]
pub fn json_write(m: &Mod, w: &mut dyn io::Write, pretty: bool) -> Result<(), serde_json::Error> {
    if pretty {
        serde_json::to_writer_pretty(w, m)
    } else {
        serde_json::to_writer(w, m)
    }
}

/// `alt`: the expanded `{:#?}` form. `body`: the statement list instead of the module.
#[inline(never)]
pub fn debug(m: &Mod, w: &mut dyn fmt::Write, alt: bool, body: bool) -> fmt::Result {
    struct Adapter<'a>(&'a mut dyn fmt::Write);
    impl<'a> fmt::Write for Adapter<'a> {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            self.0.write_str(s)
        }
    }
    let mut w = Adapter(w);
    match (body, alt) {
        (false, false) => write!(w, "{:?}", m),
        (false, true) => write!(w, "{:#?}", m),
        (true, false) => write!(w, "{:?}", m.body()),
        (true, true) => write!(w, "{:#?}", m.body()),
    }
}

#[inline(never)]
pub fn debug_error(e: &Error, w: &mut dyn fmt::Write) -> fmt::Result {
    write!(w, "{:?}", e)
}

/// What the string entry points and the node binding do to show an error to a user.
#[inline(never)]
pub fn display_error(e: &Error, source: &str, w: &mut dyn fmt::Write) -> fmt::Result {
    let pe = ParseError::UnexpectedToken { source: source.to_string(), start: e.start, end: e.end };
    write!(w, "{}", pe)
}

#[inline(never)]
pub fn wasm(which: u8, src: &str, minify: bool) -> String {
    match which {
        0 => ratel_wasm::transform(src, minify),
        1 => ratel_wasm::generate_ast(src, minify),
        _ => ratel_wasm::generate_ast_estree(src, minify),
    }
}

// ---------------------------------------------------------------- code generation

/// Receives everything a caller-supplied generator receives.
pub trait GenSink {
    fn byte(&mut self, b: u8);
    fn bytes(&mut self, b: &[u8]);
    fn pretty(&mut self, b: u8);
    fn new_line(&mut self);
    fn indent(&mut self);
    fn dedent(&mut self);
}

struct SinkGenerator<'a>(&'a mut dyn GenSink);

impl<'a> Generator for SinkGenerator<'a> {
    type Output = ();
    fn consume(self) {}
    fn write_byte(&mut self, b: u8) {
        self.0.byte(b)
    }
    fn write_bytes(&mut self, b: &[u8]) {
        self.0.bytes(b)
    }
    fn write_pretty(&mut self, b: u8) {
        self.0.pretty(b)
    }
    fn new_line(&mut self) {
        self.0.new_line()
    }
    fn indent(&mut self) {
        self.0.indent()
    }
    fn dedent(&mut self) {
        self.0.dedent()
    }
}

fn generate_with<G: Generator>(m: &Mod, gen: &mut G)
where
    for<'a> &'a str: ToCode<G>,
{
    // the loop of the library's own entry point for the pretty printer
    let mut first = true;
    for statement in m.body() {
        if !first {
            gen.new_line();
        }
        first = false;
        gen.write(statement);
    }
}

#[inline(never)]
pub fn generate(m: &Mod, sink: &mut dyn GenSink) {
    generate_with(m, &mut SinkGenerator(sink))
}

// ---------------------------------------------------------------- analysis, transformation

#[inline(never)]
pub fn analyze(m: &'static Mod) -> ScopeRef {
    ratel_transformer::scope::analyze(m)
}

/// Independent walk over an analysed scope tree, as text.
pub fn scope_text(s: ScopeRef, out: &mut String) {
    scope_rec(s, 0, out);
}

fn scope_rec(s: ScopeRef, depth: usize, out: &mut String) {
    let kind = match s.kind {
        ScopeKind::Function => 'F',
        ScopeKind::Block => 'B',
    };
    let _ = write!(out, "{}{} this={} super={} used[", depth, kind, s.used_this.get(), s.used_super.get());
    for (k, _) in s.used_refs.iter() {
        let _ = write!(out, "{},", k);
    }
    out.push_str("] declared[");
    for (k, _) in s.declared_refs.iter() {
        let _ = write!(out, "{},", k);
    }
    out.push_str("]\n");
    for c in s.children.as_list().iter() {
        let parent_ok = match c.parent {
            Some(p) => std::ptr::eq(p, s),
            None => false,
        };
        if !parent_ok {
            out.push_str("!parent ");
        }
        scope_rec(*c, depth + 1, out);
    }
}

#[inline(never)]
pub fn transform(m: &'static mut Mod) {
    ratel_transformer::transform(m)
}

/// Text and range of every statement of the body: slices handed out by the module.
pub fn body_ranges(m: &Mod) -> Vec<(u32, u32)> {
    m.body().iter().map(|n| (n.start, n.end)).collect()
}
