//! Stand-in for syntect: an *arbitrary* syntax highlighter. It knows a few
//! language names; each line is cut into ranges at places, and with a scope
//! for each range, that come from `syn_choice`, which the harness defines as a
//! symbolic value. Contract kept from the real crate: the ranges are in
//! order, cover the line, and fall on character boundaries.
use std::str::FromStr;
#[derive(Debug)]
pub struct ParseError;

extern "C" { fn syn_choice(limit: u32) -> u32; }
fn choice(limit: u32) -> u32 { unsafe { syn_choice(limit) } }

pub mod parsing {
    use super::*;
    pub struct SyntaxSet(());
    pub struct SyntaxReference(());
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub struct Scope(pub(crate) &'static str);
    #[derive(Clone, Debug, Default)]
    pub struct ScopeStack(Vec<Scope>);
    pub struct ParseState(());
    #[derive(Clone, Debug)]
    pub enum ScopeStackOp { Set(u32), Noop }
    impl SyntaxSet {
        pub fn load_defaults_nonewlines() -> SyntaxSet { SyntaxSet(()) }
        pub fn load_defaults_newlines() -> SyntaxSet { SyntaxSet(()) }
        pub fn find_syntax_by_token<'a>(&'a self, s: &str) -> Option<&'a SyntaxReference> {
            const KNOWN: &[&str] = &["py", "python", "js", "javascript", "rs", "rust", "c", "html", "css", "json"];
            static REF: SyntaxReference = SyntaxReference(());
            if KNOWN.contains(&s) { Some(&REF) } else { None }
        }
    }
    impl ScopeStack {
        pub fn new() -> ScopeStack { ScopeStack(Vec::new()) }
        pub fn apply(&mut self, op: &ScopeStackOp) -> Result<(), ParseError> {
            if let ScopeStackOp::Set(k) = op { self.0.clear(); self.0.extend(crate::STACKS[*k as usize].iter().map(|s| Scope(s))); }
            Ok(())
        }
        pub fn as_slice(&self) -> &[Scope] { &self.0 }
    }
    impl ParseState {
        pub fn new(_: &SyntaxReference) -> ParseState { ParseState(()) }
        /// Operations at increasing offsets; arbitrary scopes.
        pub fn parse_line(&mut self, line: &str, _: &SyntaxSet) -> Result<Vec<(usize, ScopeStackOp)>, ParseError> {
            let mut ops = Vec::new();
            for (i, _) in line.char_indices() {
                let k = choice(crate::STACKS.len() as u32 + 1);
                // 0: no boundary here
                if k > 0 { ops.push((i, ScopeStackOp::Set(k - 1))); }
            }
            Ok(ops)
        }
    }
}
/// the scope stacks a range may have
pub const STACKS: &[&[&str]] = &[
    &[], &["comment.line"], &["invalid.illegal"], &["keyword.control"], &["constant.language"], &["constant.numeric.integer"], &["string.quoted"], &["punctuation.separator"],
    &["invalid.deprecated", "variable.other"], &["string.quoted", "punctuation.definition.string"], &["keyword.operator.word"], &["keyword.operator"],
    &["storage.type.function"], &["entity.name.function"], &["variable.parameter"], &["variable.language"], &["meta.annotation.type"],
    &["meta.annotation", "variable.annotation"], &["meta.annotation", "punctuation.definition.annotation"], &["comment.block", "punctuation"],
    &["meta.function", "storage.modifier"],
];

pub mod highlighting {
    use super::*;
    /// `a - b`: a scope under `a`, and none under `b`
    pub struct ScopeSelector(&'static str, Option<&'static str>);
    pub struct ScopeSelectors(Vec<ScopeSelector>);
    #[derive(Debug)]
    pub struct MatchPower(pub f64);
    fn one(s: &str) -> ScopeSelector {
        let s: &'static str = Box::leak(s.to_string().into_boxed_str());
        match s.find(" - ") { Some(i) => ScopeSelector(&s[..i], Some(&s[i + 3..])), None => ScopeSelector(s, None) }
    }
    impl FromStr for ScopeSelector { type Err = ParseError; fn from_str(s: &str) -> Result<Self, ParseError> { Ok(one(s)) } }
    impl FromStr for ScopeSelectors { type Err = ParseError; fn from_str(s: &str) -> Result<Self, ParseError> { Ok(ScopeSelectors(s.split(", ").map(one).collect())) } }
    fn under(stack: &[parsing::Scope], a: &str) -> bool { stack.iter().any(|s| s.0.starts_with(a) && (s.0.len() == a.len() || s.0.as_bytes()[a.len()] == b'.')) }
    impl ScopeSelector {
        pub fn does_match(&self, stack: &[parsing::Scope]) -> Option<MatchPower> {
            (under(stack, self.0) && !self.1.map_or(false, |b| under(stack, b))).then_some(MatchPower(1.0))
        }
    }
    impl ScopeSelectors { pub fn does_match(&self, stack: &[parsing::Scope]) -> Option<MatchPower> { self.0.iter().find_map(|s| s.does_match(stack)) } }
}
pub mod easy {
    use crate::parsing::ScopeStackOp;
    /// As the real iterator: yields the range before each operation paired
    /// with the operation to apply before emitting it.
    pub struct ScopeRangeIterator<'a> { ops: &'a [(usize, ScopeStackOp)], line_length: usize, index: usize, last: usize }
    static NOOP: ScopeStackOp = ScopeStackOp::Noop;
    impl<'a> ScopeRangeIterator<'a> {
        pub fn new(ops: &'a [(usize, ScopeStackOp)], line: &str) -> Self { ScopeRangeIterator { ops, line_length: line.len(), index: 0, last: 0 } }
    }
    impl<'a> Iterator for ScopeRangeIterator<'a> {
        type Item = (std::ops::Range<usize>, &'a ScopeStackOp);
        fn next(&mut self) -> Option<Self::Item> {
            if self.index > self.ops.len() { return None; }
            let i1 = self.last;
            let i2 = if self.index == self.ops.len() { self.line_length } else { self.ops[self.index].0 };
            let op = if self.index == 0 { &NOOP } else { &self.ops[self.index - 1].1 };
            self.last = i2;
            self.index += 1;
            Some((i1..i2, op))
        }
    }
}
