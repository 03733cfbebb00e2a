//! The languages under test.

use fall_tree::{File, Language, Node, NodeType};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Json, Bnf, Fall, Rust, Arith, Sexp, Weird }

pub const KINDS: [Kind; 7] = [Kind::Json, Kind::Bnf, Kind::Fall, Kind::Rust, Kind::Arith, Kind::Sexp, Kind::Weird];

impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Json => "json", Kind::Bnf => "bnf", Kind::Fall => "fall", Kind::Rust => "rust",
            Kind::Arith => "arith", Kind::Sexp => "sexp", Kind::Weird => "weird",
        }
    }
    pub fn by_name(name: &str) -> Option<Kind> { KINDS.iter().cloned().find(|k| k.name() == name) }
    pub fn lang(self) -> &'static Language {
        match self {
            Kind::Json => lang_json::language(),
            Kind::Bnf => lang_bnf::language(),
            Kind::Fall => lang_fall_syntax::lang_fall(),
            Kind::Rust => lang_rust_syntax::lang_rust(),
            Kind::Arith => fall_test::arith::language(),
            Kind::Sexp => fall_test::sexp::language(),
            Kind::Weird => fall_test::weird::language(),
        }
    }
    /// Type of the root node; types at or above it are nodes, types below it are tokens.
    pub fn file_ty(self) -> NodeType {
        match self {
            Kind::Json => lang_json::FILE,
            Kind::Bnf => lang_bnf::GRAMMAR,
            Kind::Fall => lang_fall_syntax::FALL_FILE,
            Kind::Rust => lang_rust_syntax::FILE,
            Kind::Arith => fall_test::arith::FILE,
            Kind::Sexp => fall_test::sexp::FILE,
            Kind::Weird => fall_test::weird::FILE,
        }
    }
    pub fn is_token_ty(self, ty: NodeType) -> bool { ty.0 < self.file_ty().0 && ty != fall_tree::ERROR }
}

pub fn ty_name(file: &File, node: Node) -> &'static str { file.language().node_type_info(node.ty()).name }
pub fn is_ws(node: Node) -> bool { node.file().language().node_type_info(node.ty()).whitespace_like }
