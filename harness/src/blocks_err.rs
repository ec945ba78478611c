//! C21: faults planted in code, and what the error must say about them.
use crate::logic::block;
use crate::vp::*;
use swrs::api::block::{BlockContent, BlockContentParseError as C, BlockConversionError as E};
use swrs::parser::logic::BlockContainer;

pub fn any_id() -> String { let k = choose(4) as usize; if k < 3 { text(k) } else { long(40) } }
fn bad_word() -> String { let c = lower(1); let b = c.as_bytes()[0]; assume((b != b's') & (b != b'd') & (b != b'b') & (b != b'm')); match choose(3) { 0 => format!("%{}", c), 1 => format!("%{}.n{}", c, c), _ => s("%m") } }
pub fn word_told(e: &C, w: &str) { match e { C::UnknownSpecParam { full, name } => { check(full == w, "the error shows the word"); check(!name.is_empty() && w[1..].starts_with(name.as_str()), "the error shows the kind of parameter") } _ => check(false, "the error tells that a word of the spec is unknown") } }

/// A fault of kind `k` at the end of `levels` nested stacks (each: good blocks before, then the stack it is in).
pub struct Fault { k: u64, levels: Vec<(usize, u64)>, last: usize, missing: u32, text: String }
pub fn any_fault() -> Fault {
    let d = choose(3); let k = choose(11); let levels = (0..d).map(|i| (if i == 0 { choose(2) as usize } else { 1 }, choose(2))).collect();
    let text = match k { 3 => { let t = text(2); assume(t.as_bytes()[0] == b'Q' || t.as_bytes()[0] > 0x7f); t } 4 => { let t = plain(2); assume(t.as_bytes()[0] > b'9' || t.as_bytes()[1] > b'9'); t } 5 => bad_word(), 7 => lower(2), 8 => { let t = text(3); assume(t.as_bytes()[0] != b'@'); t } 9 => { let t = plain(2); assume(t.as_bytes()[1] > b'9'); format!("@{}", t) } _ => s("") };
    if k == 7 { assume(text != "in") }
    Fault { k, levels, last: choose(3) as usize, missing: [0, 7, 4999, 2147483647][choose(4) as usize], text }
}
impl Fault {
    pub fn code(&self) -> BlockContainer {
        let mut v = vec![]; let mut id = 10u32; let mut tails: Vec<usize> = vec![];
        for l in 0..=self.levels.len() {
            let good = if l < self.levels.len() { self.levels[l].0 } else { self.last };
            for _ in 0..good { let mut b = block(&id.to_string(), "good"); b.next_block = id as i32 + 1; id += 1; v.push(b) }
            let mut b = block(&id.to_string(), "at"); id += 1;
            if l < self.levels.len() { if self.levels[l].1 == 0 { b.sub_stack1 = id as i32 } else { b.sub_stack2 = id as i32 } tails.push(v.len()) }
            else { match self.k { 0 => b.next_block = self.missing as i32, 1 => b.sub_stack1 = self.missing as i32, 2 => b.sub_stack2 = self.missing as i32, 3 => b.r#type = self.text.clone(), 4 => b.id = self.text.clone(), 5 => b.spec = format!("do {} it", self.text), 6 => b.parameters = vec![format!("@{}", self.missing)], 7 => { b.spec = s("do %s %d"); b.parameters = vec![s("x"), self.text.clone()] } 8 => { b.spec = s("do %s %b.c"); b.parameters = vec![s("x"), self.text.clone()] } 9 => { b.spec = s("do %d %s"); b.parameters = vec![s("1"), self.text.clone()] } _ => { b.spec = s("do %s %s %s"); b.parameters = vec![s("x"), s("y")] } } }
            v.push(b);
        }
        // the blocks after the nested stacks
        for t in tails { let mut b = block(&id.to_string(), "after"); b.next_block = -1; v[t].next_block = id as i32; id += 1; v.push(b) }
        BlockContainer(v)
    }
    pub fn told(&self, e: &E) {
        if self.k == 4 { match e { E::MalformedBlockId { id, .. } => check(*id == self.text, "the error shows the id"), _ => check(false, "the error tells that an id is wrong") } return }
        let mut e = e; let mut id = 10u32;
        for (good, stack) in &self.levels {
            id += *good as u32; let carrier = id; id += 1;
            match e { E::Substack1ParseError { id: i, sub_stack1_pointer: p, source } if *stack == 0 => { check(*i == carrier, "the error tells the block around"); check(*p == id, "the error tells the nested stack"); e = source } E::Substack2ParseError { id: i, sub_stack2_pointer: p, source } if *stack == 1 => { check(*i == carrier, "the error tells the block around"); check(*p == id, "the error tells the nested stack"); e = source } _ => { check(false, "the error tells which nested stack is at fault"); return } }
        }
        id += self.last as u32; let m = self.missing;
        let lost = |e: &E| match e { E::BlockNotFound { id } => check(*id == m, "the error tells the missing block"), _ => check(false, "the error tells that a block is missing") };
        match (self.k, e) {
            (0, e) => lost(e),
            (1, E::Substack1ParseError { id: i, sub_stack1_pointer: p, source }) => { check(*i == id && *p == m, "the error tells the block and its nested stack"); lost(source) }
            (2, E::Substack2ParseError { id: i, sub_stack2_pointer: p, source }) => { check(*i == id && *p == m, "the error tells the block and its nested stack"); lost(source) }
            (3, E::InvalidType { source }) => check(source.block_type == self.text, "the error shows the type"),
            (5, E::BlockContentParseError { source }) => word_told(source, &self.text),
            (6, E::BlockContentParseError { source }) => match source { C::BlockNotFound { block_id } => check(*block_id == m, "the error tells the missing block"), _ => check(false, "the error tells that an argument's block is missing") },
            (k, E::BlockContentParseError { source }) => value_told(source, k, &self.text),
            _ => check(false, "the error tells what is at fault"),
        }
    }
}
fn value_told(e: &C, k: u64, t: &str) { match (k, e) { (7, C::InvalidNumberArgument { value }) | (8, C::InvalidBooleanArgument { value }) | (9, C::InvalidBlockId { value }) => check(value == t, "the error shows the value"), (10, C::RanOutOfArgs) => {} _ => check(false, "the error tells what is wrong with the value") } }
const GOOD: [(&str, &str); 4] = [("%s.a", "x"), ("%d", "4"), ("%b", "@3"), ("%m.view", "v")];
/// One bad word or value of a spec by itself, among good ones.
pub fn spec_fault() {
    let mut spec = s("do"); let mut args: Vec<String> = vec![]; let n = choose(3) as usize; for i in 0..n { let g = choose(4) as usize; let _ = i; spec.push(' '); spec.push_str(GOOD[g].0); args.push(s(GOOD[g].1)) }
    let k = [5, 7, 8, 9, 10][choose(5) as usize];
    let (w, v) = match k { 5 => (bad_word(), s("x")), 7 => (s("%d.n"), { let t = lower(3); assume(t != "inf" && t != "nan"); t }), 8 => (s("%b.n"), lower(3)), 9 => (s(GOOD[choose(4) as usize].0), format!("@{}", lower(2))), _ => (s(GOOD[choose(4) as usize].0), s("")) };
    spec.push(' '); spec.push_str(&w); if k != 10 { args.push(v.clone()); spec.push_str(" %s to"); args.push(s("z")) }
    match BlockContent::parse(spec.clone(), args) { Ok(_) => check(false, "a bad spec is an error"), Err(e) => if k == 5 { word_told(&e, &w) } else { value_told(&e, k, &v) } }
    if k == 5 { match BlockContent::parse_wo_params(&spec) { Ok(_) => check(false, "a bad spec is an error"), Err(e) => word_told(&e, &w) } }
}
