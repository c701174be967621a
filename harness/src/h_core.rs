//! Whole-parse harnesses: the library's parse against the reference reading.
use crate::gen::*;
use crate::prelude::*;
use crate::refp::*;
use crate::sx::*;

/// What a run is judged for.
#[derive(Clone, Copy, PartialEq)]
pub enum Q { Accept, Full, Peg, Trace, Nest, Err, Opt, Total }

pub fn to_ind(i: &IndentSettings) -> Ind { Ind { indent: i.indent as usize, align_first: i.align_first, tab: i.tab_spaces as usize } }

/// Start/end nodes match, ranges lie in the text in reading order, strings are what stands there.
pub fn well_nested(t: &[u8], toks: &[Md], plain_strings: bool) {
    let mut stack: Vec<(usize, usize)> = vec![]; // (token index, position reached inside)
    let mut pos = 0;
    for (i, d) in toks.iter().enumerate() {
        let (a, b) = (d.offset, d.offset + d.length);
        check(b <= t.len(), 70);
        check(on_boundary(t, a) && on_boundary(t, b), 71);
        match &d.data {
            MetaData::StartNode(_) => { check(d.length == 0, 72); check(a >= pos, 73); pos = a; stack.push((i, a)); }
            MetaData::EndNode(n) => match stack.pop() {
                None => fail(74),
                Some((j, st)) => {
                    if let MetaData::StartNode(m) = &toks[j].data { check(m == n, 75); }
                    check(a == st, 76);
                    check(b >= pos, 77);
                    pos = b;
                    cover(20);
                }
            },
            _ => { check(a >= pos, 78); pos = b; }
        }
        if plain_strings { if let MetaData::String(_, v) = &d.data { check(v.as_bytes() == &t[a..b], 79); cover(21); } }
    }
    check(stack.is_empty(), 80);
}

/// Whether there is a select that the optimizer could change.
fn has_select(r: &Rule) -> bool {
    match r {
        Rule::Select(s) => s.args.len() > 1 || s.args.iter().any(has_select),
        Rule::Sequence(s) => s.args.iter().any(has_select),
        Rule::SeparateBy(s) => has_select(&s.rule) || has_select(&s.by),
        Rule::Repeat(x) => has_select(&x.rule),
        Rule::Lines(x) => has_select(&x.rule),
        Rule::Optional(x) => has_select(&x.rule),
        Rule::Not(x) => has_select(&x.rule),
        _ => false,
    }
}

pub fn judge(q: Q, syn: &Syntax, text: &str, ind: IndentSettings) {
    let t = text.as_bytes();
    // the reference goes first: it leaves out left recursive grammars
    let mut rf = Ref::new(&syn.rules, t);
    let ok = rf.parse(to_ind(&ind));
    let mut toks: Vec<Md> = vec![];
    let mut prior = 0;
    if q == Q::Trace {
        // something else is already in the output
        prior = pick(3) as usize;
        for i in 0..prior { toks.push(Range::new(100 + i, i).wrap(if i == 0 { MetaData::StartNode(s("z")) } else { MetaData::Bool(s("y"), true) })); }
    }
    let before = toks.clone();
    // the syntaxes that users get are optimized ones
    let fast = if q != Q::Opt && syn.rules.iter().any(has_select) && pick(2) == 1 { cover(9); Some(syn.clone().optimize()) } else { None };
    let optimized = fast.is_some();
    let syn = fast.as_ref().unwrap_or(syn);
    let res = piston_meta::parse_with_indent(syn, text, &mut toks, &ind);
    observe_result(&res, &toks);
    if res.is_ok() { cover(0); if toks.len() > prior { cover(1); } if !t.is_empty() { cover(2); } } else { cover(3); }
    let q2 = if q == Q::Full {
        check(res.is_ok() == ok, 30);
        if ok { check(same_tokens(&toks, &rf.out), 31); }
        if ok { Q::Nest } else { Q::Err }
    } else { q };
    match q2 {
        Q::Accept => {
            check(res.is_ok() == ok, 10);
            if let Err(e) = &res {
                if let ParseError::ExpectedEnd = e.data {
                    cover(4);
                    let want = rf.fails.last().map(|f| f.offset).unwrap_or(usize::MAX);
                    check(e.offset == want && e.length == 0, 11);
                } else if let Some(f) = rf.fails.last() {
                    // stopped early: a deeper error is reported instead
                    if let ParseError::ExpectedEnd = f.data { cover(5); check(e.next_offset() > f.offset, 12); }
                }
            }
        }
        Q::Peg => {
            check(res.is_ok() == ok, 30);
            if ok { check(same_tokens(&toks, &rf.out), 31); }
        }
        Q::Trace => {
            check(toks.len() >= prior && same_tokens(&toks[..prior], &before), 60);
            check(res.is_ok() == ok, 61);
            if ok { check(same_tokens(&toks[prior..], &rf.out), 62); }
            // again, on top of the same start and on top of the result
            let mut again = before.clone();
            let res2 = piston_meta::parse_with_indent(syn, text, &mut again, &ind);
            check(res2 == res, 63);
            if ok {
                check(same_tokens(&again, &toks), 64);
                let n = toks.len();
                let res3 = piston_meta::parse_with_indent(syn, text, &mut toks, &ind);
                check(res3.is_ok(), 65);
                check(same_tokens(&toks[..n], &again) && same_tokens(&toks[n..], &rf.out), 66);
            } else {
                check(same_tokens(&again[..prior], &before), 67);
            }
        }
        Q::Nest => if res.is_ok() { well_nested(t, &toks, rf.literals == 0); }
        Q::Err => if let Err(e) = &res {
            check(e.next_offset() <= t.len() && on_boundary(t, e.offset), 90);
            check(e.next_offset() == rf.deepest(), 91);
            let mut hit = false;
            for f in &rf.fails { if f == e { hit = true; break; } }
            if !hit && optimized {
                // an optimized select that finds no alternative for the next byte says so itself
                if let ParseError::ExpectedSomething(id) = e.data { hit = e.length == 0 && rf.sels.iter().any(|x| *x == (e.offset, id)); }
            }
            check(hit, 92);
            if rf.fails.len() > 1 { cover(6); }
        } else { check(ok, 93); },
        Q::Opt => {
            let o = syn.clone().optimize();
            check(o.rules.len() == syn.rules.len() && o.names == syn.names, 100);
            let mut ot: Vec<Md> = vec![];
            let ores = piston_meta::parse_with_indent(&o, text, &mut ot, &ind);
            match (&res, &ores) {
                (Ok(()), Ok(())) => { cover(7); check(same_tokens(&toks, &ot), 101); }
                (Err(a), Err(b)) => { cover(8); check(a.next_offset() == b.next_offset(), 102); }
                _ => fail(103),
            }
            // an optimized syntax is a syntax too
            let o = o.optimize();
            let mut ot2: Vec<Md> = vec![];
            let ores2 = piston_meta::parse_with_indent(&o, text, &mut ot2, &ind);
            check(ores2.is_ok() == res.is_ok(), 104);
            if res.is_ok() { check(same_tokens(&toks, &ot2), 105); }
        }
        Q::Full => {}
        Q::Total => {
            let mut again: Vec<Md> = vec![];
            let r = piston_meta::parse_errstr_with_indent(syn, text, &mut again, &ind);
            check(r.is_ok() == res.is_ok(), 160);
            if let Err(m) = r { check(m.starts_with("Error "), 161); cover(6); }
        }
    }
}

/// A syntax written in the meta language, not optimized.
pub fn plain(doc: &str) -> Syntax {
    let mut d = vec![];
    if piston_meta::parse(&piston_meta::bootstrap::rules(), doc, &mut d).is_err() { fail(999); }
    match piston_meta::bootstrap::convert(&d, &mut vec![]) { Ok(x) => x, Err(()) => fail(999) }
}

pub const AB: &[u8] = b"ab";
pub const ABC: &[u8] = b"abc";
pub const ALLC: &[C] = &[Sel2, Seq2, Opt, C::Not, Rep, Sep];
const FEWC: &[C] = &[Sel2, Seq2, Rep, Sep];
const MIXL: &[L] = &[L::Tag, L::TagAny, L::Tag2, L::TagEmpty, L::Ws, L::Until, L::UntilW, L::Text, L::Num];

/// Families of grammars and texts, each judged for any property.
pub fn shapes(q: Q, leaves: &'static [L], comps: &'static [C], d: u32, e: u32, n: u32) {
    let mut g = Gen::new(AB, leaves, comps);
    let r = g.top(d, e);
    let t = str_of(n, AB);
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
/// Every composite over every composite of tokens.
pub fn f_two(q: Q, n: u32) { shapes(q, &[L::Tag], ALLC, 1, 1, n) }
/// A chain of three composites on the first operand.
pub fn f_chain(q: Q, n: u32) { shapes(q, &[L::Tag], ALLC, 2, 0, n) }
/// A chain of four, of the reading composites.
pub fn f_deep(q: Q, n: u32) { shapes(q, &[L::Tag], FEWC, 3, 0, n) }
/// Three operands.
pub fn f_wide3(q: Q, n: u32) {
    let mut g = Gen::new(AB, &[L::Tag], &[Sel2, Seq2, Opt, Rep]);
    let c = [Sel3, Seq3][pick(2) as usize];
    let r = g.comp(c, 1, 1);
    let t = str_of(n, AB);
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
/// The long operand at the end: state handed over to later parts.
pub fn f_last(q: Q, n: u32) {
    let mut g = Gen::new(AB, &[L::Tag], ALLC);
    let id = { g.id += 1; g.id };
    let k = pick(4);
    let a = g.leaf();
    let b = g.rule(1);
    let c = g.leaf();
    let r = match k { 0 => seq(vec![a, b, c], id), 1 => sel(vec![a, b, c], id), 2 => sep(a, b, flag(), flag(), id), _ => rep(seq(vec![a, b], 90), flag(), id) };
    let t = str_of(n, AB);
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
/// Two rules that refer to one another and to themselves, with and without names.
pub fn f_refs(q: Q, n: u32) {
    let mut g = Gen::new(AB, &[L::Tag, L::Node, L::NodeP, L::Loop], &[Sel2, Seq2, Opt, Rep]);
    g.props = true;
    let a = { let mut h = Gen::new(AB, &[L::Tag, L::Loop], &[Sel2, Seq2, Opt]); h.id = 20; h.rule(1) };
    let r = g.top(0, 0);
    let t = str_of(n, AB);
    judge(q, &syn(vec![a, r]), &t, IndentSettings::default());
}
/// All terminals under one composite.
pub fn f_terms(q: Q, n: u32) {
    let mut g = Gen::new(b"a ", MIXL, ALLC);
    let r = g.top(0, 0);
    let t = str_of(n, b"a \"1");
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
/// Characters of several bytes in text and tokens.
pub fn f_utf8(q: Q, n: u32) {
    let mut g = Gen::new(AB, &[L::Tag, L::TagWide, L::Ws, L::Until, L::UntilW], &[Seq2, Sel2, Opt, C::Not, Rep]);
    let r = g.top(0, 0);
    let t = wide_of(n, b"a ", &WIDE, 2);
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
/// A small JSON reader.
pub fn f_json(q: Q, n: u32) {
    let x = plain("0 array = [\"[\" .w? .s?([\",\" .w?] value:\"item\") .w? \"]\"]\n1 pair = [.t?:\"key\" \":\" value]\n2 object = [\"{\" .s?.(\",\" pair:\"pair\") \"}\"]\n3 value = {.$:\"num\" .t!:\"str\" \"t\":\"bool\" \"f\":!\"bool\" array:\"arr\" object:\"obj\"}\n4 doc = [.w? value .w?]\n");
    let t = str_of(n, b"[]{},\":t1 ");
    judge(q, &x, &t, IndentSettings::default());
}
/// Arithmetic expressions.
pub fn f_expr(q: Q, n: u32) {
    let x = plain("0 atom = {.$_:\"n\" [\"(\" expr:\"paren\" \")\"] [\"-\":!\"pos\" atom:\"neg\"]}\n1 mul = .s!([.w? {\"*\":\"mul\" \"/\":!\"mul\"} .w?] atom)\n2 expr = .s!({\"+\":\"add\" \"-\":!\"add\"} mul:\"term\")\n");
    let t = str_of(n, b"1(-+)* _");
    judge(q, &x, &t, IndentSettings::default());
}
/// Statements that share a long beginning, so that alternatives are given up late.
pub fn f_stmts(q: Q, n: u32) {
    let x = plain("0 name = ..\"=;(),\"!:\"name\"\n1 call = [name \"(\" .s?(\",\" expr:\"arg\") \")\"]\n2 expr = {call:\"call\" [!\"b\" name:\"var\"] [\"b\":\"b\" ?\"!\":!\"bang\"]}\n3 assign = [name \"=\" expr:\"value\"]\n4 stmt = [{assign:\"assign\" [expr:\"expr\" .r?(\"!\":\"bang\")]} \";\"]\n5 doc = .r?(stmt:\"stmt\")\n");
    let t = str_of(n, b"ab=;(),!");
    judge(q, &x, &t, IndentSettings::default());
}
/// Key and value lines.
pub fn f_kv(q: Q, n: u32) {
    let x = plain("0 kv = [..\":\"!:\"key\" .w? \":\" .w? {.$:\"num\" .t?:\"str\" ...\"\\n\"!:\"raw\"} ?\";\"]\n1 doc = [.l(kv:\"kv\") .w?]\n");
    let t = str_of(n, b"a: \n1\";");
    judge(q, &x, &t, IndentSettings::default());
}


/// Line-separated items: which rule reads an item, what stands around the lines rule.
pub fn f_lines(q: Q, kinds: u32, around: u32, n: u32, set: &[u8], wide: bool) {
    let item = match pick(kinds) {
        0 => tagp("a", "i", 1),
        1 => seq(vec![tagp("a", "i", 1), opt(tagp("b", "o", 2), 3)], 4),
        2 => sel(vec![seq(vec![tagp("a", "i", 1), tagp("\n", "nl", 2)], 3), tagp("b", "j", 4)], 5),
        3 => seq(vec![tagp("a", "i", 1), ws(true, 2), tagp("b", "j", 3)], 4),
        4 => until("\n", flag(), Some("u"), 1),
        5 => until_w("b", flag(), Some("u"), 1),
        6 => lines(tagp("a", "i", 1), false, 2),
        7 => seq(vec![ws(flag(), 1), tagp("a", "i", 2), opt(seq(vec![ws(false, 3), tagp("b", "j", 4)], 5), 6)], 7),
        8 => rep(sel(vec![tagp("a", "i", 1), tagp("\n", "nl", 2)], 3), flag(), 4),
        9 => node("r0", Some("n"), Some(0), 7),
        10 => not(tag("b", 1), 2),
        11 => seq(vec![opt(tagp("a", "i", 1), 2), opt(ws(false, 3), 4)], 5),
        _ => sep(tagp("a", "i", 1), ws(false, 2), true, true, 3),
    };
    let l = lines(item, false, 20);
    let top = match pick(around) {
        0 => l,
        1 => seq(vec![l, tagp("b", "after", 21)], 22),
        2 => seq(vec![tagp("b", "before", 21), l, ws(true, 23)], 22),
        3 => sel(vec![seq(vec![l, tagp("b", "after", 21)], 22), until("", true, Some("all"), 24)], 25),
        4 => seq(vec![opt(ws(false, 21), 22), node("r1", Some("lines"), Some(1), 23), opt(tagp("b", "after", 24), 25)], 26),
        _ => rep(seq(vec![tagp("b", "before", 21), l], 22), true, 23),
    };
    let x = syn(vec![seq(vec![tagp("a", "i", 30), opt(tagp("b", "o", 31), 32)], 33), lines(node("r0", Some("n"), Some(0), 34), false, 35), top]);
    let t = if wide { wide_of(n, set, &WIDE_LETTERS, 1) } else { str_of(n, set) };
    judge(q, &x, &t, IndentSettings::default());
}
/// Indented blocks: `g` picks the grammar.
pub fn blocks(g: u32) -> Vec<Rule> {
    let word = |id| tagp("a", "a", id);
    match g {
        // items with items below them
        0 => vec![seq(vec![word(1), opt(lines(node("r0", Some("c"), Some(0), 2), true, 3), 4)], 5), lines(node("r0", Some("c"), Some(0), 6), true, 7)],
        // two different blocks under one line
        1 => vec![seq(vec![word(1), lines(tagp("b", "b", 2), true, 3), lines(tagp("c", "c", 4), true, 5)], 6), lines(node("r0", Some("i"), Some(0), 7), true, 8)],
        // a block that is given up, then another reading of it
        2 => vec![sel(vec![seq(vec![lines(tagp("a", "x", 1), true, 2), tagp("c", "c", 3)], 4), lines(seq(vec![tagp("a", "y", 5), opt(tagp("b", "b", 6), 7)], 8), true, 9)], 10)],
        // header line followed by a block, repeated
        3 => vec![rep(seq(vec![tagp("c", "head", 1), ws(true, 2), lines(word(3), true, 4)], 5), true, 6)],
        // a block, then lines again at the outer level
        4 => vec![seq(vec![lines(seq(vec![word(1), opt(lines(tagp("b", "b", 2), true, 3), 4), opt(lines(tagp("c", "c", 5), true, 6), 7)], 8), true, 9), ws(true, 10), opt(tagp("c", "tail", 11), 12)], 13)],
        // blocks inside lines that are not indented
        5 => vec![seq(vec![word(1), opt(lines(tagp("b", "b", 2), true, 3), 4)], 5), lines(node("r0", Some("i"), Some(0), 7), false, 8)],
        // an optional prefix block
        6 => vec![seq(vec![opt(seq(vec![lines(tagp("a", "p", 1), true, 2), tagp("b", "q", 3)], 4), 5), lines(tagp("a", "r", 6), true, 7), opt(tagp("c", "c", 8), 9)], 10)],
        // not followed by a block
        _ => vec![seq(vec![not(seq(vec![lines(tagp("a", "p", 1), true, 2), tagp("b", "q", 3)], 4), 5), lines(sel(vec![tagp("a", "r", 6), tagp("b", "s", 7)], 8), true, 9)], 10)],
    }
}
pub fn f_indent(q: Q, from: u32, to: u32, n: u32, set: &[u8], settings: bool) {
    let x = syn(blocks(from + pick(to - from)));
    let ind = if settings { IndentSettings { indent: pick(4), align_first: flag(), tab_spaces: 1 + pick(4) as u8 } } else { IndentSettings::default() };
    let t = str_of(n, set);
    judge(q, &x, &t, ind);
}


// ---- entry points ----

const LN: &[u8] = b"ab \n";
const LNC: &[u8] = b"ab \t\r\n";
const IN: &[u8] = b"ab \n";
pub const INC: &[u8] = b"abc \n";
const INT: &[u8] = b"ac \t\n";

// C01
#[no_mangle] pub fn h_c01_two() { f_two(Q::Accept, 5) }
#[no_mangle] pub fn h_c01_chain() { f_chain(Q::Accept, 4) }
#[no_mangle] pub fn h_c01_terms() { f_terms(Q::Accept, 5) }
#[no_mangle] pub fn h_c01_utf8() { f_utf8(Q::Accept, 3) }
#[no_mangle] pub fn h_c01_refs() { f_refs(Q::Accept, 5) }
#[no_mangle] pub fn h_c01_json() { f_json(Q::Accept, 7) }
#[no_mangle] pub fn h_c01_json8() { f_json(Q::Accept, 8) }
#[no_mangle] pub fn h_c01_lines() { f_lines(Q::Accept, 13, 6, 4, LN, false) }
#[no_mangle] pub fn h_c01_lines_wide() { f_lines(Q::Accept, 6, 6, 4, LN, true) }
#[no_mangle] pub fn h_c01_indent() { f_indent(Q::Accept, 0, 8, 6, INC, false) }
/// No rules at all.
#[no_mangle] pub fn h_c01_empty() {
    let t = wide_of(3, b"a \n", &WIDE, 2);
    let mut toks = vec![];
    match piston_meta::parse(&Syntax::new(), &t, &mut toks) {
        Err(e) => { check(e.data == ParseError::NoRules, 13); check(e.next_offset() <= t.len(), 14); cover(3); }
        Ok(()) => fail(15),
    }
    check(toks.is_empty(), 16);
}
/// Any characters, read up to a marked place.
#[no_mangle] pub fn h_c01_stop() {
    let t = { let mut v = vec![]; let n = pick(4); let w = pick(4); for i in 0..n { if i == w { any_char(&mut v, 14, &Set::of(b"ab ")); } else { v.push(one_of(b"ab ")); } } string(v) };
    let r = match pick(4) {
        0 => until("a", true, Some("x"), 1),
        1 => until_w("b", true, Some("x"), 1),
        2 => seq(vec![until("a", true, None, 1), opt(tag("a", 2), 3), until_w("", true, Some("y"), 4)], 5),
        _ => rep(sel(vec![tagp("a", "a", 1), until("a", false, Some("u"), 2)], 3), true, 4),
    };
    judge(Q::Accept, &syn(vec![r]), &t, IndentSettings::default());
    judge(Q::Full, &syn(vec![seq(vec![until("b", true, None, 1)], 2)]), &t, IndentSettings::default());
}

// C03
#[no_mangle] pub fn h_c03_two() { f_two(Q::Peg, 5) }
#[no_mangle] pub fn h_c03_chain() { f_chain(Q::Peg, 4) }
#[no_mangle] pub fn h_c03_wide3() { f_wide3(Q::Peg, 5) }
#[no_mangle] pub fn h_c03_last() { f_last(Q::Peg, 6) }
#[no_mangle] pub fn h_c03_refs() { f_refs(Q::Peg, 5) }
#[no_mangle] pub fn h_c03_terms() { f_terms(Q::Peg, 5) }
#[no_mangle] pub fn h_c03_json() { f_json(Q::Peg, 7) }
#[no_mangle] pub fn h_c03_expr() { f_expr(Q::Peg, 7) }
#[no_mangle] pub fn h_c03_stmts() { f_stmts(Q::Peg, 7) }
#[no_mangle] pub fn h_c03_kv() { f_kv(Q::Peg, 7) }
#[no_mangle] pub fn h_c03_deep() { f_deep(Q::Peg, 2) }
#[no_mangle] pub fn h_c03_json9() { f_json(Q::Peg, 9) }
#[no_mangle] pub fn h_c03_expr9() { f_expr(Q::Peg, 9) }
#[no_mangle] pub fn h_c03_stmts9() { f_stmts(Q::Peg, 9) }
#[no_mangle] pub fn h_c03_kv9() { f_kv(Q::Peg, 9) }

// C04
#[no_mangle] pub fn h_c04_lines() { f_lines(Q::Full, 13, 6, 5, LN, false) }
#[no_mangle] pub fn h_c04_breaks() { f_lines(Q::Full, 5, 3, 5, LNC, false) }
#[no_mangle] pub fn h_c04_wide() { f_lines(Q::Full, 7, 6, 5, LN, true) }
#[no_mangle] pub fn h_c04_kv() { f_kv(Q::Full, 6) }
#[no_mangle] pub fn h_c04_lines7() { f_lines(Q::Full, 13, 6, 7, LN, false) }
#[no_mangle] pub fn h_c04_breaks7() { f_lines(Q::Full, 8, 6, 6, LNC, false) }

// C05
#[no_mangle] pub fn h_c05_two() { f_indent(Q::Full, 0, 8, 7, INC, false) }
#[no_mangle] pub fn h_c05_long() { f_indent(Q::Full, 0, 1, 11, b"a \n", false) }
#[no_mangle] pub fn h_c05_settings() { f_indent(Q::Full, 0, 8, 5, INC, true) }
#[no_mangle] pub fn h_c05_tabs() { f_indent(Q::Full, 0, 8, 5, INT, true) }
#[no_mangle] pub fn h_c05_around() { f_indent(Q::Full, 2, 8, 8, IN, false) }
#[no_mangle] pub fn h_c05_two9() { f_indent(Q::Full, 0, 8, 9, INC, false) }
#[no_mangle] pub fn h_c05_long14() { f_indent(Q::Full, 0, 1, 14, b"a \n", false) }
#[no_mangle] pub fn h_c05_tabs7() { f_indent(Q::Full, 0, 8, 7, INT, true) }

// C06
#[no_mangle] pub fn h_c06_two() { f_two(Q::Trace, 5) }
#[no_mangle] pub fn h_c06_chain() { f_chain(Q::Trace, 4) }
#[no_mangle] pub fn h_c06_last() { f_last(Q::Trace, 6) }
#[no_mangle] pub fn h_c06_refs() { f_refs(Q::Trace, 5) }
#[no_mangle] pub fn h_c06_terms() { f_terms(Q::Trace, 5) }
#[no_mangle] pub fn h_c06_stmts() { f_stmts(Q::Trace, 7) }
#[no_mangle] pub fn h_c06_json() { f_json(Q::Trace, 6) }
#[no_mangle] pub fn h_c06_lines() { f_lines(Q::Trace, 13, 6, 4, LN, false) }
#[no_mangle] pub fn h_c06_indent() { f_indent(Q::Trace, 0, 8, 7, INC, false) }
#[no_mangle] pub fn h_c06_stmts9() { f_stmts(Q::Trace, 9) }
#[no_mangle] pub fn h_c06_json8() { f_json(Q::Trace, 8) }
#[no_mangle] pub fn h_c06_wide3() { f_wide3(Q::Trace, 5) }

// C07
#[no_mangle] pub fn h_c07_refs() { f_refs(Q::Nest, 5) }
#[no_mangle] pub fn h_c07_terms() { f_terms(Q::Nest, 5) }
#[no_mangle] pub fn h_c07_utf8() { f_utf8(Q::Nest, 3) }
#[no_mangle] pub fn h_c07_json() { f_json(Q::Nest, 7) }
#[no_mangle] pub fn h_c07_expr() { f_expr(Q::Nest, 6) }
#[no_mangle] pub fn h_c07_stmts() { f_stmts(Q::Nest, 7) }
#[no_mangle] pub fn h_c07_lines() { f_lines(Q::Nest, 13, 6, 4, LN, false) }
#[no_mangle] pub fn h_c07_indent() { f_indent(Q::Nest, 0, 8, 7, INC, false) }
#[no_mangle] pub fn h_c07_two() { f_two(Q::Nest, 5) }
#[no_mangle] pub fn h_c07_json9() { f_json(Q::Nest, 9) }
#[no_mangle] pub fn h_c07_expr9() { f_expr(Q::Nest, 9) }
#[no_mangle] pub fn h_c07_stmts9() { f_stmts(Q::Nest, 9) }

// C08
#[no_mangle] pub fn h_c08_two() { f_two(Q::Err, 5) }
#[no_mangle] pub fn h_c08_chain() { f_chain(Q::Err, 4) }
#[no_mangle] pub fn h_c08_last() { f_last(Q::Err, 6) }
#[no_mangle] pub fn h_c08_wide3() { f_wide3(Q::Err, 5) }
#[no_mangle] pub fn h_c08_refs() { f_refs(Q::Err, 5) }
#[no_mangle] pub fn h_c08_terms() { f_terms(Q::Err, 5) }
#[no_mangle] pub fn h_c08_utf8() { f_utf8(Q::Err, 3) }
#[no_mangle] pub fn h_c08_stmts() { f_stmts(Q::Err, 7) }
#[no_mangle] pub fn h_c08_json() { f_json(Q::Err, 7) }
#[no_mangle] pub fn h_c08_lines() { f_lines(Q::Err, 13, 6, 4, LN, false) }
#[no_mangle] pub fn h_c08_indent() { f_indent(Q::Err, 0, 8, 6, INC, false) }
#[no_mangle] pub fn h_c08_stmts9() { f_stmts(Q::Err, 9) }
#[no_mangle] pub fn h_c08_json9() { f_json(Q::Err, 9) }

// C16
/// Rules that can read nothing, inside everything that repeats.
fn hollow(k: u32, id: usize) -> Rule {
    match k {
        0 => opt(tagp("a", "a", id), id + 1),
        1 => rep(tagp("a", "a", id), true, id + 1),
        2 => ws(true, id),
        3 => until("b", true, Some("u"), id),
        4 => until_w("b", true, None, id),
        5 => not(tag("b", id), id + 1),
        6 => tagx(s("b"), true, false, Some(s("n")), id),
        7 => lines(tagp("a", "a", id), false, id + 1),
        8 => lines(tagp("a", "a", id), true, id + 1),
        9 => sep(tagp("a", "a", id), tag("b", id + 1), true, true, id + 2),
        10 => seq(vec![], id),
        11 => tag("", id),
        12 => seq(vec![ws(true, id), opt(tagp("b", "b", id + 1), id + 2)], id + 3),
        13 => sel(vec![tagp("b", "b", id), seq(vec![], id + 1)], id + 2),
        14 => text(true, None, id),
        _ => node("r0", Some("n"), Some(0), id),
    }
}
fn endless(max: u32) {
    let a = hollow(pick(16), 1);
    let b = hollow(pick(16), 11);
    let r = match pick(7) {
        0 => rep(a, flag(), 20),
        1 => rep(seq(vec![a, b], 20), flag(), 21),
        2 => sep(a, b, flag(), flag(), 20),
        3 => lines(seq(vec![a, b], 20), flag(), 21),
        4 => rep(sep(a, b, true, flag(), 20), true, 21),
        5 => rep(lines(sel(vec![a, b], 20), flag(), 21), true, 22),
        _ => rep(rep(sel(vec![a, b], 20), true, 21), true, 22),
    };
    let t = str_of(max, b"ab \n\"");
    judge(Q::Total, &syn(vec![opt(tagp("a", "z", 30), 31), r]), &t, IndentSettings::default());
}
#[no_mangle] pub fn h_c16_endless() { endless(2) }
#[no_mangle] pub fn h_c16_endless4() { endless(4) }
#[no_mangle] pub fn h_c16_two() { f_two(Q::Total, 5) }
#[no_mangle] pub fn h_c16_refs() { f_refs(Q::Total, 5) }
#[no_mangle] pub fn h_c16_utf8() { f_utf8(Q::Total, 3) }
#[no_mangle] pub fn h_c16_lines() { f_lines(Q::Total, 13, 6, 4, LN, true) }
#[no_mangle] pub fn h_c16_indent() { f_indent(Q::Total, 0, 8, 5, INT, true) }
/// Every kind of white space and every width of character around every terminal.
#[no_mangle] pub fn h_c16_chars() {
    let leaf = |k: u32, id: usize| match k {
        0 => ws(true, id), 1 => ws(false, id), 2 => until("a", true, Some("u"), id), 3 => until_w("\u{e9}\"", true, Some("u"), id),
        4 => text(true, Some("t"), id), 5 => number(true, Some("n"), id), 6 => tagp("\u{3042}", "w", id), _ => until("\u{3042}b", false, None, id),
    };
    let r = seq(vec![leaf(pick(8), 1), opt(leaf(pick(8), 2), 3), leaf(pick(8), 4)], 5);
    let t = { let mut v = vec![]; let n = pick(4); for _ in 0..n { match pick(4) { 0 => v.push(one_of(b"ab \"1e\\_-.")), k => v.extend_from_slice([WIDE[0], WIDE[1], WIDE[4]][k as usize - 1].as_bytes()) } } string(v) };
    judge(Q::Total, &syn(vec![r]), &t, IndentSettings::default());
}
/// The number and string readers on anything.
#[no_mangle] pub fn h_c16_literals() {
    let r = match pick(4) { 0 => number(false, Some("n"), 1), 1 => number(true, Some("n"), 1), 2 => text(true, Some("t"), 1), _ => text(false, Some("t"), 1) };
    let mut v = vec![];
    if let Rule::Text(_) = r { v.push(b'"'); }
    let n = pick(5);
    for _ in 0..n { v.push(if let Rule::Text(_) = r { one_of(b"\"\\u0dDfFn ") } else { one_of(b"19-+._eE0") }); }
    let t = string(v);
    judge(Q::Total, &syn(vec![rep(r, true, 2)]), &t, IndentSettings::default());
}
/// Every composite over one composite of every terminal.
pub fn f_mixed(q: Q, n: u32) {
    let mut g = Gen::new(b"a", MIXL, ALLC);
    let r = g.top(1, 0);
    let t = str_of(n, b"a \"1");
    judge(q, &syn(vec![r]), &t, IndentSettings::default());
}
#[no_mangle] pub fn h_c03_mixed() { f_mixed(Q::Peg, 3) }
#[no_mangle] pub fn h_c06_mixed() { f_mixed(Q::Trace, 2) }
#[no_mangle] pub fn h_c07_mixed() { f_mixed(Q::Nest, 3) }
#[no_mangle] pub fn h_c08_mixed() { f_mixed(Q::Err, 3) }
#[no_mangle] pub fn h_c01_mixed() { f_mixed(Q::Accept, 2) }
#[no_mangle] pub fn h_c16_mixed() { f_mixed(Q::Total, 3) }
#[no_mangle] pub fn h_c03_mixed4() { f_mixed(Q::Peg, 4) }
