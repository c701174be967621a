//! Symbolic grammars: every choice is explored, bytes and flags stay symbolic.
#![allow(dead_code)]
use crate::prelude::*;
use crate::sx::*;

#[derive(Clone, Copy, PartialEq)]
pub enum L { Tag, TagWide, TagNot, TagAny, Tag2, TagEmpty, Ws, Until, UntilW, Text, Num, Node, NodeP, Loop }
#[derive(Clone, Copy, PartialEq)]
pub enum C { Sel2, Sel3, Sel1, Seq2, Seq3, Seq0, Opt, Not, Rep, Sep, Lines }
pub use C::*;

pub struct Gen { pub id: usize, pub alpha: &'static [u8], pub leaves: &'static [L], pub comps: &'static [C], pub props: bool }
pub fn pname(id: usize) -> Arc<String> { Arc::new(string(vec![b'p', b'0' + (id / 10 % 10) as u8, b'0' + (id % 10) as u8])) }

impl Gen {
    pub fn new(alpha: &'static [u8], leaves: &'static [L], comps: &'static [C]) -> Gen { Gen { id: 0, alpha, leaves, comps, props: true } }
    fn next(&mut self) -> usize { self.id += 1; self.id }
    fn prop(&mut self, id: usize) -> Option<Arc<String>> { if self.props { Some(pname(id)) } else { None } }
    pub fn leaf(&mut self) -> Rule {
        let k = self.leaves[pick(self.leaves.len() as u32) as usize];
        self.leaf_of(k)
    }
    pub fn leaf_of(&mut self, k: L) -> Rule {
        let id = self.next();
        let p = self.prop(id);
        match k {
            L::Tag => tagx(s1(one_of(self.alpha)), false, false, p, id),
            L::TagWide => tagx(s(WIDE[pick(WIDE.len() as u32) as usize]), flag(), false, p, id),
            L::TagNot => tagx(s1(one_of(self.alpha)), true, false, p, id),
            L::TagAny => tagx(s1(one_of(self.alpha)), flag(), flag(), p, id),
            L::Tag2 => tagx(Arc::new(str_n(2, self.alpha)), false, false, p, id),
            L::TagEmpty => tagx(s(""), false, false, p, id),
            L::Ws => ws(flag(), id),
            L::Until => Rule::UntilAny(UntilAny { any_characters: s1(one_of(self.alpha)), optional: flag(), property: p, debug_id: id }),
            L::UntilW => Rule::UntilAnyOrWhitespace(UntilAnyOrWhitespace { any_characters: s1(one_of(self.alpha)), optional: flag(), property: p, debug_id: id }),
            L::Text => Rule::Text(Text { allow_empty: flag(), property: p, debug_id: id }),
            L::Num => Rule::Number(Number { allow_underscore: flag(), property: p, debug_id: id }),
            L::Node => node("r0", None, Some(0), id),
            L::NodeP => Rule::Node(Node { name: s("r0"), property: Some(pname(id)), index: Some(0), debug_id: id }),
            L::Loop => Rule::Node(Node { name: s("r1"), property: Some(pname(id)), index: Some(1), debug_id: id }),
        }
    }
    /// Any rule of at most the given depth.
    pub fn rule(&mut self, depth: u32) -> Rule {
        let nl = self.leaves.len() as u32;
        let n = nl + if depth > 0 { self.comps.len() as u32 } else { 0 };
        let k = pick(n);
        if k < nl { return self.leaf_of(self.leaves[k as usize]); }
        let c = self.comps[(k - nl) as usize];
        self.comp(c, depth - 1, depth - 1)
    }
    /// A composite rule whose first child has depth `d` and whose other children have depth `e`.
    pub fn comp(&mut self, c: C, d: u32, e: u32) -> Rule {
        let id = self.next();
        match c {
            Sel1 => { let a = self.rule(d); sel(vec![a], id) }
            Sel2 => { let a = self.rule(d); let b = self.rule(e); sel(vec![a, b], id) }
            Sel3 => { let a = self.rule(d); let b = self.rule(e); let c = self.rule(e); sel(vec![a, b, c], id) }
            Seq0 => seq(vec![], id),
            Seq2 => { let a = self.rule(d); let b = self.rule(e); seq(vec![a, b], id) }
            Seq3 => { let a = self.rule(d); let b = self.rule(e); let c = self.rule(e); seq(vec![a, b, c], id) }
            Opt => { let a = self.rule(d); opt(a, id) }
            Not => { let a = self.rule(d); not(a, id) }
            Rep => { let a = self.rule(d); rep(a, flag(), id) }
            Sep => { let a = self.rule(d); let b = self.rule(e); sep(a, b, flag(), flag(), id) }
            C::Lines => { let a = self.rule(d); lines(a, false, id) }
        }
    }
    /// A composite of any kind at the top.
    pub fn top(&mut self, d: u32, e: u32) -> Rule {
        let c = self.comps[pick(self.comps.len() as u32) as usize];
        self.comp(c, d, e)
    }
}
