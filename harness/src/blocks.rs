//! C09, C10, C11: the block model of the editing API.
use crate::vp::*;
use swrs::api::block::*;
use swrs::color::Color;
use swrs::parser::logic::{Block as PB, BlockContainer};

// ---------------------------------------------------------------- generators
fn text_item(t: &str) -> SpecItem { SpecItem::Text(s(t)) }
fn leaf(op: String) -> Block { Block { sub_stack1: None, sub_stack2: None, color: Color::from(0xff112233), op_code: op, content: BlockContent { items: vec![text_item("t")] }, block_type: BlockType::Regular } }

fn btype(k: usize) -> BlockType {
    use ArgumentBlockReturnType as R;
    match k % 11 { 0 => BlockType::Regular, 1 => BlockType::Argument(R::Boolean), 2 => BlockType::Control(BlockControl::TwoNest), 3 => BlockType::Argument(R::Number), 4 => BlockType::Argument(R::View { type_name: s("V") }), 5 => BlockType::Control(BlockControl::EndingBlock), 6 => BlockType::Argument(R::List { inner_type: ListItem::String }), 7 => BlockType::Argument(R::String), 8 => BlockType::Control(BlockControl::OneNest), 9 => BlockType::Argument(R::Component { type_name: s("C") }), _ => BlockType::Argument(R::List { inner_type: ListItem::Number }) }
}
/// As `Gen`, with block types, argument kinds and literals (boolean literals included) varying over the tree and free colours.
struct Gen2 { left: u64, n: u32, rt: usize, ra: usize }
impl Gen2 {
    fn take(&mut self) -> bool { if self.left > 0 && choose(2) == 1 { self.left -= 1; true } else { false } }
    fn arg(&mut self, k: usize) -> Argument {
        let n = self.n; let sub = if self.take() { Some(self.block()) } else { None };
        match k % 4 {
            0 => Argument::Boolean { name: None, value: match sub { Some(b) => ArgValue::Block(b), None => match n % 3 { 0 => ArgValue::Empty, x => ArgValue::Value(x == 1) } } },
            1 => Argument::String { name: Some(s("nm")), value: match sub { Some(b) => ArgValue::Block(b), None => ArgValue::Value(format!("v{}", n)) } },
            2 => Argument::Number { name: None, value: match sub { Some(b) => ArgValue::Block(b), None => match n % 3 { 0 => ArgValue::Empty, _ => ArgValue::Value(n as f64) } } },
            _ => Argument::Menu { name: s("view"), value: match sub { Some(b) => ArgValue::Block(b), None => ArgValue::Value(s("m")) } },
        }
    }
    fn block(&mut self) -> Block {
        self.n += 1; let k = self.n as usize;
        let mut b = leaf(format!("op{}", self.n)); b.color = Color::from(u32_()); b.block_type = btype(k + self.rt);
        let a = self.arg(k + self.ra); let c = self.arg(k + self.ra + 1 + self.ra / 4);
        b.content = BlockContent { items: vec![text_item("do"), SpecItem::Parameter(a), text_item("with"), SpecItem::Parameter(c)] };
        if self.take() { b.sub_stack1 = Some(self.stack()) }
        if self.take() { b.sub_stack2 = Some(self.stack()) }
        b
    }
    fn stack(&mut self) -> Blocks { let mut v = vec![self.block()]; while self.take() { v.push(self.block()) } Blocks(v) }
}
struct Gen { left: u64, n: u32, mark: u8 }
impl Gen {
    fn take(&mut self) -> bool { if self.left > 0 && choose(2) == 1 { self.left -= 1; true } else { false } }
    /// A block with slots: two arguments (each literal or nested block) and two nested stacks.
    fn block(&mut self) -> Block {
        self.n += 1;
        let mut b = leaf(format!("op{}{}", self.mark as char, self.n));
        b.color = Color::from(0x100 * self.n + self.mark as u32);
        let mut items = vec![text_item("do")];
        let a = if self.take() { ArgValue::Block(self.block()) } else { ArgValue::Value(format!("v{}", self.n)) };
        items.push(SpecItem::Parameter(Argument::String { name: None, value: a }));
        items.push(text_item("with"));
        let a = if self.take() { ArgValue::Block(self.block()) } else { ArgValue::Value(s("m")) };
        items.push(SpecItem::Parameter(Argument::Menu { name: s("view"), value: a }));
        b.content = BlockContent { items };
        if self.take() { b.sub_stack1 = Some(self.stack()) }
        if self.take() { b.sub_stack2 = Some(self.stack()) }
        b
    }
    fn stack(&mut self) -> Blocks { let mut v = vec![self.block()]; while self.take() { v.push(self.block()) } Blocks(v) }
}

// ---------------------------------------------------------------- independent oracle for the flat form
fn find<'a>(flat: &'a [PB], id: i64) -> Option<&'a PB> {
    let mut r = None;
    for b in flat { if b.id == id.to_string() { if r.is_some() { return None } r = Some(b) } }
    r
}
fn code(t: &BlockType) -> (&'static str, String) {
    use ArgumentBlockReturnType as R;
    match t {
        BlockType::Regular => (" ", s("")),
        BlockType::Argument(R::Boolean) => ("b", s("")), BlockType::Argument(R::String) => ("s", s("")), BlockType::Argument(R::Number) => ("d", s("")),
        BlockType::Argument(R::View { type_name }) => ("v", type_name.clone()), BlockType::Argument(R::Component { type_name }) => ("p", type_name.clone()),
        BlockType::Argument(R::List { inner_type: ListItem::String }) => ("l", s("List String")), BlockType::Argument(R::List { inner_type: ListItem::Number }) => ("l", s("List Number")),
        BlockType::Control(BlockControl::OneNest) => ("c", s("")), BlockType::Control(BlockControl::TwoNest) => ("e", s("")), BlockType::Control(BlockControl::EndingBlock) => ("f", s("")),
    }
}
fn spec_text(c: &BlockContent) -> String {
    let mut v = vec![];
    for i in &c.items {
        v.push(match i {
            SpecItem::Text(t) => t.clone(),
            SpecItem::Parameter(Argument::String { name, .. }) => match name { Some(n) => format!("%s.{}", n), None => s("%s") },
            SpecItem::Parameter(Argument::Number { name, .. }) => match name { Some(n) => format!("%d.{}", n), None => s("%d") },
            SpecItem::Parameter(Argument::Boolean { name, .. }) => match name { Some(n) => format!("%b.{}", n), None => s("%b") },
            SpecItem::Parameter(Argument::Menu { name, .. }) => format!("%m.{}", name),
        })
    }
    v.join(" ")
}
/// The flat list describes exactly the tree; counts the blocks reached.
fn same_block(flat: &[PB], id: i64, t: &Block, seen: &mut u64) -> bool {
    let b = match find(flat, id) { Some(b) => b, None => return false };
    *seen += 1;
    let (ty, tn) = code(&t.block_type);
    if b.op_code != t.op_code || b.color != t.color || b.r#type != ty || b.type_name != tn || b.spec != spec_text(&t.content) { return false }
    let mut k = 0;
    for i in &t.content.items {
        if let SpecItem::Parameter(a) = i {
            let p = match b.parameters.get(k) { Some(p) => p, None => return false };
            k += 1;
            let nested = match a {
                Argument::String { value, .. } | Argument::Menu { value, .. } => match value { ArgValue::Block(n) => Some(n), ArgValue::Value(v) => { if p != v { return false } None } _ => { if !p.is_empty() { return false } None } },
                Argument::Number { value, .. } => match value { ArgValue::Block(n) => Some(n), ArgValue::Value(v) => { match p.parse::<f64>() { Ok(w) => if w.to_bits() != v.to_bits() { return false }, Err(_) => return false } None } _ => { if !p.is_empty() { return false } None } },
                Argument::Boolean { value, .. } => match value {
                    ArgValue::Block(n) => Some(n),
                    ArgValue::Value(v) => { // a boolean literal is a block of its own
                        let id = match p.strip_prefix('@').and_then(|x| x.parse::<i64>().ok()) { Some(x) => x, None => return false };
                        match find(flat, id) { Some(l) => if l.op_code != v.to_string() || l.next_block >= 0 || l.sub_stack1 >= 0 || l.sub_stack2 >= 0 || l.r#type != "b" { return false }, None => return false }
                        *seen += 1; None }
                    _ => { if !p.is_empty() { return false } None } },
            };
            if let Some(n) = nested {
                let id = match p.strip_prefix('@').and_then(|x| x.parse::<i64>().ok()) { Some(x) => x, None => return false };
                match find(flat, id) { Some(a) => if a.next_block >= 0 { return false }, None => return false }
                if !same_block(flat, id, n, seen) { return false }
            }
        }
    }
    k == b.parameters.len() && same_stack(flat, b.sub_stack1 as i64, &t.sub_stack1, seen) && same_stack(flat, b.sub_stack2 as i64, &t.sub_stack2, seen)
}
fn same_stack(flat: &[PB], start: i64, t: &Option<Blocks>, seen: &mut u64) -> bool {
    let empty = vec![];
    let v = match t { Some(x) => &x.0, None => &empty };
    let mut id = start;
    for b in v { if id < 0 { return false } let nb = match find(flat, id) { Some(f) => f.next_block, None => return false }; if !same_block(flat, id, b, seen) { return false } id = nb as i64; }
    id < 0
}
fn roundtrip(t: Blocks) {
    let flat: BlockContainer = t.clone().into();
    let mut seen = 0;
    let start = match flat.0.first() { Some(b) => b.id.parse::<i64>().unwrap_or(-7), None => -1 };
    check(same_stack(&flat.0, start, &Some(t.clone()), &mut seen), "the flat list describes the tree");
    check(seen == flat.0.len() as u64, "every flat block stands for one block of the tree");
    for b in &flat.0 { observe(b.id.as_bytes()); observe(b.op_code.as_bytes()); observe(&b.next_block.to_le_bytes()); observe(&b.sub_stack1.to_le_bytes()); observe(&b.sub_stack2.to_le_bytes()); for p in &b.parameters { observe(p.as_bytes()) } }
    match Blocks::try_from(flat) { Ok(u) => check(u == t, "the tree is read back unchanged"), Err(_) => check(false, "the flat list can be read") }
}
/// Every tree of up to 5 blocks over the slots next / first argument / second argument / first nest / second nest (any nesting), one character of opcodes and one byte of colours free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_trees() {
    let m = lower(1).as_bytes()[0];
    let mut g = Gen { left: 4, n: 0, mark: m };
    let t = g.stack();
    roundtrip(t); reach("end");
}
/// Every tree of up to 4 blocks over the same slots; 11 assignments of the 11 block types and 4 of the argument kinds and literals (booleans, numbers, texts, menus, empty) to the blocks; all colours free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_kinds() {
    let mut g = Gen2 { left: 3, n: 0, rt: choose(11) as usize, ra: 3 * choose(4) as usize };
    let t = g.stack();
    roundtrip(t); reach("end");
}
/// Every tree of exactly 5 blocks, likewise. [jobs 8] [time 1500]
#[no_mangle] pub extern "C" fn h_c09_kinds_t() {
    let mut g = Gen2 { left: 4, n: 0, rt: choose(11) as usize, ra: choose(12) as usize };
    let t = g.stack(); assume(g.left == 0);
    roundtrip(t); reach("end");
}
/// Every tree of exactly 6 or 7 blocks over the same slots. [jobs 8] [time 1500]
#[no_mangle] pub extern "C" fn h_c09_trees_t() {
    let m = lower(1).as_bytes()[0];
    let mut g = Gen { left: 6, n: 0, mark: m };
    let t = g.stack();
    assume(g.left <= 1);
    roundtrip(t); reach("end");
}
/// Nesting six levels deep, at each level through the first nest, the second nest or an argument, with a sibling before and after. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_deep() {
    let mut b = leaf(s("core"));
    for d in 0..6 {
        let mut o = leaf(format!("o{}", d));
        match choose(3) {
            0 => { o.block_type = BlockType::Control(BlockControl::OneNest); o.sub_stack1 = Some(Blocks(vec![leaf(format!("a{}", d)), b, leaf(format!("z{}", d))])) }
            1 => { o.block_type = BlockType::Control(BlockControl::TwoNest); o.sub_stack1 = Some(Blocks(vec![leaf(format!("x{}", d))])); o.sub_stack2 = Some(Blocks(vec![b, leaf(format!("y{}", d))])) }
            _ => o.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Number { name: None, value: ArgValue::Block(b) }), SpecItem::Parameter(Argument::Boolean { name: Some(s("q")), value: ArgValue::Block(leaf(format!("w{}", d))) })] },
        }
        b = o;
    }
    roundtrip(Blocks(vec![leaf(s("first")), b, leaf(s("last"))])); reach("end");
}
/// A run of 93 blocks (ids pass from two to three digits, within a stack, a nested stack or an argument) with a nested stack or argument on any one of the 8 around it and any one of the first 3. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_long() {
    let at = 83 + choose(8); let at2 = choose(3); let how = choose(3);
    let mut v = vec![];
    for i in 0..93u64 {
        let mut b = leaf(format!("n{}", i));
        if i == at || i == at2 { match how { 0 => b.sub_stack1 = Some(Blocks(vec![leaf(s("i1")), leaf(s("i2"))])), 1 => b.sub_stack2 = Some(Blocks(vec![leaf(s("i1")), leaf(s("i2")), leaf(s("i3"))])), _ => b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::String { name: None, value: ArgValue::Block(leaf(s("arg"))) })] } } }
        v.push(b);
    }
    roundtrip(Blocks(v)); reach("end");
}
/// Runs of 120 and 260 blocks, each with a boolean literal, a nested stack or an argument block (so ids pass 100 and 256), and 40 levels of nesting. [jobs 4] [ins 400000000]
#[no_mangle] pub extern "C" fn h_c09_large() {
    let k = choose(4); let n = [120u64, 260][choose(2) as usize]; let m = lower(1);
    if k == 3 { let mut b = leaf(s("core")); for d in 0..40 { let mut o = leaf(format!("o{}{}", m, d)); o.block_type = btype(d); if d % 2 == 0 { o.sub_stack1 = Some(Blocks(vec![b, leaf(s("z"))])) } else { o.sub_stack2 = Some(Blocks(vec![leaf(s("y")), b])) } b = o } roundtrip(Blocks(vec![b, leaf(s("end"))])); reach("end"); return }
    let v = (0..n).map(|i| { let mut b = leaf(format!("n{}", i)); b.block_type = btype(i as usize); b.color = Color::from(0xff000000 | i as u32); if i % 3 == 0 { match k { 0 => b.sub_stack1 = Some(Blocks(vec![leaf(m.clone())])), 1 => b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Value(i % 2 == 0) })] }, _ => b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Number { name: Some(s("k")), value: ArgValue::Block(leaf(m.clone())) })] } } } b }).collect();
    roundtrip(Blocks(v)); reach("end");
}
fn name_opt() -> Option<String> { match choose(3) { 0 => None, 1 => Some(s("n")), _ => Some(lower(2)) } }
fn lit_arg(nested: &mut u32) -> Argument {
    let sub = |n: &mut u32| { *n += 1; leaf(format!("arg{}", *n)) };
    match choose(4) {
        0 => { let value = match choose(3) { 0 => ArgValue::Block(sub(nested)), 1 => ArgValue::Value(s("")), _ => { let t = text(2); assume(t.as_bytes()[0] != b'@'); ArgValue::Value(t) } }; Argument::String { name: name_opt(), value } }
        1 => { let value = match choose(3) { 0 => ArgValue::Block(sub(nested)), 1 => ArgValue::Value(s("")), _ => { let t = text(1); assume(t.as_bytes()[0] != b'@'); ArgValue::Value(t) } }; Argument::Menu { name: lower(2), value } }
        2 => { let value = match choose(8) { 0 => ArgValue::Block(sub(nested)), 1 => ArgValue::Empty, 2 => ArgValue::Value(0.0), 3 => ArgValue::Value(-0.0), 4 => ArgValue::Value(1.5e300), 5 => ArgValue::Value(-2.2250738585072014e-308), 6 => ArgValue::Value(0.1), _ => ArgValue::Value(12345678.0) }; Argument::Number { name: name_opt(), value } }
        _ => { let value = match choose(4) { 0 => ArgValue::Block(sub(nested)), 1 => ArgValue::Empty, 2 => ArgValue::Value(true), _ => ArgValue::Value(false) }; Argument::Boolean { name: name_opt(), value } }
    }
}
/// One block with two parameters of any kind (four kinds, named or not), each a literal (texts of up to two free bytes, numbers from eight edge cases, booleans), empty where allowed, or a nested block; texts around them free. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_args() {
    let mut n = 0;
    let a = lit_arg(&mut n);
    let b = if choose(2) == 0 { Argument::Boolean { name: None, value: ArgValue::Value(true) } } else { lit_arg(&mut n) };
    let mut x = leaf(s("x"));
    let w = lower(1);
    x.content = BlockContent { items: vec![SpecItem::Text(w), SpecItem::Parameter(a), SpecItem::Text(s("to")), SpecItem::Parameter(b)] };
    roundtrip(Blocks(vec![leaf(s("p")), x, leaf(s("q"))])); reach("end");
}
/// Every block type (type names of up to two free bytes), every opcode of up to two free bytes, every colour (32 free bits), every one-word text of up to 2 free bytes.
#[no_mangle] pub extern "C" fn h_c09_fields() {
    use ArgumentBlockReturnType as R;
    let mut b = leaf(s("x"));
    match choose(4) {
        0 => b.block_type = match choose(11) { 0 => BlockType::Regular, 1 => BlockType::Argument(R::Boolean), 2 => BlockType::Argument(R::String), 3 => BlockType::Argument(R::Number), 4 => BlockType::Argument(R::View { type_name: text_upto(2) }), 5 => BlockType::Argument(R::Component { type_name: text_upto(2) }), 6 => BlockType::Argument(R::List { inner_type: ListItem::String }), 7 => BlockType::Argument(R::List { inner_type: ListItem::Number }), 8 => BlockType::Control(BlockControl::OneNest), 9 => BlockType::Control(BlockControl::TwoNest), _ => BlockType::Control(BlockControl::EndingBlock) },
        1 => b.op_code = text_upto(2),
        2 => b.color = Color::from(u32_()),
        _ => { let t = text_upto(2); for c in t.bytes() { assume(c != b' ') } assume(!t.starts_with('%')); b.content = BlockContent { items: vec![SpecItem::Text(t), SpecItem::Text(s("k"))] } }
    }
    let mut o = leaf(s("o")); o.sub_stack1 = Some(Blocks(vec![b.clone()]));
    roundtrip(Blocks(vec![b, o])); reach("end");
}
/// A value of argument kind `k`: nested block, or one of a list of literals.
fn nth_arg(k: usize, i: usize, nested: bool) -> Argument {
    let sub = |i: usize| { let mut b = leaf(format!("n{}", i)); b.block_type = btype(i); if i % 2 == 0 { b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Value(i % 4 == 0) }), text_item("u")] } } b };
    match k % 4 {
        0 => Argument::Boolean { name: if i % 2 == 0 { None } else { Some(format!("b{}", i)) }, value: if nested { ArgValue::Block(sub(i)) } else if i % 3 == 0 { ArgValue::Empty } else { ArgValue::Value(i % 3 == 1) } },
        1 => Argument::String { name: if i % 2 == 1 { None } else { Some(format!("s{}", i)) }, value: if nested { ArgValue::Block(sub(i)) } else { ArgValue::Value(format!("v{}", i)) } },
        2 => Argument::Number { name: None, value: if nested { ArgValue::Block(sub(i)) } else if i % 3 == 2 { ArgValue::Empty } else { ArgValue::Value(i as f64 * 0.5) } },
        _ => Argument::Menu { name: format!("m{}", i), value: if nested { ArgValue::Block(sub(i)) } else { ArgValue::Value(format!("w{}", i)) } },
    }
}
/// One block with 0 to 16 parameters of all kinds (4 rotations), with or without texts between them, of which none, all, any one or any two adjacent ones are nested blocks. [jobs 8] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c09_wide() {
    let n = [0usize, 1, 3, 4, 5, 9, 10, 16][choose(8) as usize]; let rot = choose(4) as usize; let texts = choose(2) == 1; let how = choose(2 + 2 * n as u64) as usize;
    let mut x = leaf(s("x")); x.color = Color::from(u32_()); let mut items = vec![];
    for i in 0..n { if texts { items.push(text_item("t")) } let nested = match how { 0 => false, 1 => true, h => { let at = (h - 2) / 2; i == at || (h % 2 == 1 && i == at + 1) } }; items.push(SpecItem::Parameter(nth_arg(i + rot, i, nested))) }
    if texts || n == 0 { items.push(text_item("end")) }
    x.content = BlockContent { items }; let mut y = x.clone(); y.sub_stack1 = Some(Blocks(vec![leaf(s("i")), x.clone()])); y.block_type = BlockType::Control(BlockControl::OneNest);
    roundtrip(Blocks(vec![leaf(s("p")), x, y, leaf(s("q"))])); reach("end");
}
/// Long and special texts as opcode, type name, text literal, menu literal and parameter name, and 24 further numbers. [jobs 8] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c09_texts() {
    let mut b = leaf(s("x"));
    let k = choose(6);
    if k == 5 { let v = [1.0, -1.0, 10.0, 100.0, 255.0, 256.0, 1e6, 1e7, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789.125, 0.5, 1e-5, 1e-6, 1e-7, 2147483648.0, 4294967296.0, 9007199254740993.0, f64::MAX, 5e-324, 0.30000000000000004][choose(24) as usize];
        let v = if choose(2) == 1 { -v } else { v }; b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Number { name: None, value: ArgValue::Value(v) })] } }
    else { let t = wide(); match k {
        0 => { assume(t != "true" && t != "false"); b.op_code = t } 1 => b.block_type = BlockType::Argument(if choose(2) == 1 { ArgumentBlockReturnType::View { type_name: t } } else { ArgumentBlockReturnType::Component { type_name: t } }),
        2 => { assume(!t.starts_with('@')); b.content = BlockContent { items: vec![text_item("t"), SpecItem::Parameter(Argument::String { name: None, value: ArgValue::Value(t) }), text_item("u")] } }
        3 => { assume(!t.starts_with('@')); b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Menu { name: s("view"), value: ArgValue::Value(t) })] } }
        _ => { assume(!t.contains(' ')); b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Menu { name: t.clone(), value: ArgValue::Value(s("v")) }), SpecItem::Parameter(Argument::Number { name: Some(t), value: ArgValue::Value(1.0) })] } } } }
    let mut o = leaf(s("o")); o.sub_stack2 = Some(Blocks(vec![b.clone()]));
    roundtrip(Blocks(vec![b, o])); reach("end");
}
/// The empty program, and an empty nested stack (written as no stack).
#[no_mangle] pub extern "C" fn h_c09_empty() {
    let flat: BlockContainer = Blocks::new().into();
    check(flat.0.is_empty(), "no blocks, no entries");
    match Blocks::try_from(flat) { Ok(b) => check(b == Blocks(vec![]), "empty program"), Err(_) => check(false, "empty program reads") }
    let mut b = leaf(s("if")); let k = choose(4);
    if k & 1 == 1 { b.sub_stack1 = Some(Blocks(vec![])) } if k & 2 == 2 { b.sub_stack2 = Some(Blocks(vec![])) }
    let after = leaf(s("after"));
    let flat: BlockContainer = Blocks(vec![b.clone(), after.clone()]).into();
    check(flat.0.len() == 2, "two blocks");
    b.sub_stack1 = None; b.sub_stack2 = None;
    match Blocks::try_from(flat) { Ok(x) => check(x == Blocks(vec![b, after]), "empty stacks vanish"), Err(_) => check(false, "empty stacks read") }
    reach("end");
}

// ---------------------------------------------------------------- C10
#[derive(Clone, Copy)] struct F { id: u32, next: i32, s1: i32, s2: i32, arg: i32, kind: u8, color: u32 }
fn ftype(f: &F) -> BlockType { btype(f.id as usize + 3 * f.kind as usize) }
fn pb(f: &F, op: &str) -> PB {
    let (spec, parameters) = match f.kind { 0 => (s("t"), vec![]), k => (format!("t {}", ["%s", "%m.k", "%d", "%b"][k as usize - 1]), vec![if f.arg >= 0 { format!("@{}", f.arg) } else { s(["lit", "", "7", ""][k as usize - 1]) }]) };
    let (ty, tn) = code(&ftype(f));
    PB { color: Color::from(f.color), id: f.id.to_string(), next_block: f.next, op_code: s(op), parameters, spec, sub_stack1: f.s1, sub_stack2: f.s2, r#type: s(ty), type_name: tn }
}
/// Reference reading of the links.
fn rd(fs: &[F], id: i32, used: &mut u64) -> Option<Block> {
    let mut k = usize::MAX;
    for i in 0..fs.len() { if fs[i].id as i64 == id as i64 { k = i } }
    if k == usize::MAX || *used >> k & 1 == 1 { return None }
    *used |= 1 << k;
    let f = fs[k];
    let s1 = if f.s1 < 0 { None } else { Some(rdl(fs, f.s1, used)?) };
    let s2 = if f.s2 < 0 { None } else { Some(rdl(fs, f.s2, used)?) };
    let mut items = vec![text_item("t")];
    if f.kind != 0 { 
        let a = if f.arg >= 0 { Some(rd(fs, f.arg, used)?) } else { None };
        items.push(SpecItem::Parameter(match f.kind {
            1 => Argument::String { name: None, value: match a { Some(a) => ArgValue::Block(a), None => ArgValue::Value(s("lit")) } }, 2 => Argument::Menu { name: s("k"), value: match a { Some(a) => ArgValue::Block(a), None => ArgValue::Value(s("")) } },
            3 => Argument::Number { name: None, value: match a { Some(a) => ArgValue::Block(a), None => ArgValue::Value(7.0) } }, _ => Argument::Boolean { name: None, value: match a { Some(a) => ArgValue::Block(a), None => ArgValue::Empty } } }))
    }
    Some(Block { sub_stack1: s1, sub_stack2: s2, color: Color::from(f.color), op_code: format!("op{}", k), content: BlockContent { items }, block_type: ftype(&f) })
}
fn rdl(fs: &[F], start: i32, used: &mut u64) -> Option<Blocks> {
    let mut v = vec![]; let mut id = start;
    loop { let mut k = usize::MAX; for i in 0..fs.len() { if fs[i].id as i64 == id as i64 { k = i } } if k == usize::MAX { return None }
        let nb = fs[k].next; v.push(rd(fs, id, used)?); if nb < 0 { return Some(Blocks(v)) } id = nb }
}
fn compare(fs: &[F]) {
    let flat: Vec<PB> = fs.iter().enumerate().map(|(i, f)| pb(f, &format!("op{}", i))).collect();
    let mut used = 0;
    let want = if fs.is_empty() { Some(Blocks(vec![])) } else { rdl(fs, fs[0].id as i32, &mut used) };
    match (Blocks::try_from(BlockContainer(flat)), want) {
        (Ok(a), Some(b)) => { reach("read"); check(a == b, "links are followed as written") }
        (Err(_), None) => reach("refused"),
        (Ok(_), None) => check(false, "broken links are refused"),
        (Err(_), Some(_)) => check(false, "well linked lists are read"),
    }
}
/// Three blocks with ids 1,2,3 in any order; next and first-nest links any 32-bit number each, second nest too on the first block (so: none, any block, itself, or a missing one). [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_links() {
    let perm = [[1u32, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]][choose(6) as usize];
    let mut fs = vec![];
    for id in perm { fs.push(F { id, next: i32_(), s1: i32_(), s2: -1, arg: -1, kind: 0, color: u32_() }) }
    fs[0].s2 = i32_();
    compare(&fs); reach("end");
}
/// Three blocks with arguments: argument of the first two over {literal, block 7, 8, 9, missing 5}, next links and one nest link any 32-bit number. [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_args() {
    let l = || [-1, 7, 8, 9, 5][choose(5) as usize]; let r = choose(4) as u8; let kd = [r + 1, (r + 1) % 4 + 1];
    let mut fs = vec![];
    for (i, id) in [8u32, 7, 9].iter().enumerate() { fs.push(F { id: *id, next: i32_(), s1: -1, s2: -1, arg: if i < 2 { l() } else { -1 }, kind: if i < 2 { kd[i] } else { 0 }, color: u32_() }) }
    fs[1].s2 = i32_();
    compare(&fs); reach("end");
}
/// Four blocks, next links any 32-bit number: every chain, cycle, repeated or missing target. [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_chain() {
    let ids = [[10u32, 11, 12, 13], [0, 2147483647, 4294967295, 2], [13, 10, 12, 11]][choose(3) as usize];
    let mut fs = vec![];
    for id in ids { fs.push(F { id, next: i32_(), s1: -1, s2: -1, arg: -1, kind: 0, color: u32_() }) }
    compare(&fs); reach("end");
}
/// Four blocks, each with next and first nest any 32-bit number. [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_links4() {
    let mut fs = vec![];
    for id in [11u32, 10, 12, 13] { fs.push(F { id, next: i32_(), s1: i32_(), s2: -1, arg: -1, kind: 0, color: u32_() }) }
    compare(&fs); reach("end");
}
/// Five blocks, each with next, first and (on two of them) second nest any 32-bit number. [jobs 8] [time 1200]
#[no_mangle] pub extern "C" fn h_c10_links_t() {
    let mut fs = vec![];
    for id in [11u32, 10, 12, 13, 14] { fs.push(F { id, next: i32_(), s1: i32_(), s2: -1, arg: -1, kind: 0, color: u32_() }) }
    fs[0].s2 = i32_(); fs[2].s2 = i32_();
    compare(&fs); reach("end");
}
/// Chains of 20 and 63 blocks listed in reverse, forward or interleaved order with ids from 0, 95, 950, 65500 or 2^31-300 upwards, every seventh with a nested stack; one link broken (missing, or to any of the first three) or none. [jobs 8] [ins 200000000]
#[no_mangle] pub extern "C" fn h_c10_large() {
    let n = [20u32, 63][choose(2) as usize]; let base = [0u32, 95, 950, 65500, 2147483348][choose(5) as usize]; let how = choose(3); let cut = choose(3);
    let mut fs: Vec<F> = (0..n).map(|i| F { id: base + i, next: if i + 1 < n { (base + i + 1) as i32 } else { -1 }, s1: -1, s2: -1, arg: -1, kind: 0, color: 0xff000000 | i }).collect();
    // every seventh block hangs below the one before it
    for i in (7..n as usize).step_by(7) { if i + 1 < n as usize { let id = fs[i].id as i32; fs[i - 1].s1 = id; fs[i - 1].next = fs[i + 1].id as i32; fs[i].next = -1; } }
    match cut { 1 => fs[n as usize - 1].next = (base + n) as i32, 2 => { let t = choose(3); fs[n as usize - 1].next = (base + t as u32) as i32 } _ => {} }
    match how { 1 => fs[1..].reverse(), 2 => { let t: Vec<F> = fs[1..].to_vec(); let (a, b): (Vec<_>, Vec<_>) = t.into_iter().partition(|f| f.id % 2 == 0); fs.truncate(1); fs.extend(a); fs.extend(b) } _ => {} }
    compare(&fs); reach("end");
}
fn good() -> Vec<PB> {
    let f = |id, next, s1| F { id, next, s1, s2: -1, arg: -1, kind: 0, color: u32_() };
    vec![pb(&f(1, 2, 3), "a"), pb(&f(2, -1, -1), "b"), pb(&f(3, -1, -1), "c")]
}
/// A well-linked list in which one block's id (any text of up to 2 bytes), type (any text of up to 2 bytes), list type name, or argument text (any text of up to 2 bytes, each parameter kind) is arbitrary: accepted exactly when well formed, otherwise an error. [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_malformed() {
    let mut v = good();
    let at = choose(3) as usize;
    match choose(5) {
        0 => { // id of a block nobody links to must still be a number
            let t = text_upto(2); let mut e = v[2].clone(); e.id = t.clone(); v.push(e);
            let num = !t.is_empty() && t.trim_start_matches('+').bytes().all(|b| b.is_ascii_digit()) && t.bytes().filter(|b| *b == b'+').count() <= 1 && t != "+";
            let n = if num { t.trim_start_matches('+').parse::<u32>().unwrap_or(999) } else { 999 };
            assume(!(1..=3).contains(&n));
            check(Blocks::try_from(BlockContainer(v)).is_ok() == num, "a non-numeric id is an error");
        }
        1 => { let t = text_upto(2); v[at].r#type = t.clone(); let ok = ["v", "p", "b", "s", "d", "c", "e", "f", " "].contains(&t.as_str());
            match Blocks::try_from(BlockContainer(v)) { Ok(_) => check(ok, "an unknown block type is an error"), Err(_) => check(!ok, "a known block type is read") } }
        2 => { v[at].r#type = s("l"); let t = match choose(5) { 0 => s("List String"), 1 => s("List Number"), 2 => s("List Map"), 3 => s(""), _ => format!("List {}", lower(1)) }; v[at].type_name = t.clone();
            check(Blocks::try_from(BlockContainer(v)).is_ok() == (t == "List String" || t == "List Number"), "an unknown list type is an error") }
        3 => { v[at].spec = s("x %s y %m.k z %d %b"); let n = choose(6); v[at].parameters = (0..n).map(|_| s("")).collect();
            check(Blocks::try_from(BlockContainer(v)).is_ok() == (n >= 4), "too few arguments is an error") }
        _ => { let k = choose(4); v[at].spec = s(["%s", "%m.a", "%d", "%b"][k as usize]); let t = text_upto(2); v[at].parameters = vec![t.clone()];
            let r = Blocks::try_from(BlockContainer(v));
            if t.starts_with('@') { check(r.is_err(), "a reference to a missing or used block is an error") }
            else if k < 2 || t.is_empty() { check(r.is_ok(), "a text argument is read") }
            else if k == 2 { check(r.is_ok() == t.parse::<f64>().is_ok(), "a number argument must be a number") }
            else { check(r.is_err(), "a boolean argument must be true or false") } }
    }
    reach("end");
}
/// A reference '@id' with id any text of up to two bytes, in each parameter kind, beside a block 4: resolves exactly when it names block 4.
#[no_mangle] pub extern "C" fn h_c10_refs() {
    let mut v = good();
    let k = choose(4) as usize; v[1].spec = s(["%s", "%m.a", "%d", "%b"][k]);
    let t = text_upto(2); v[1].parameters = vec![format!("@{}", t)];
    v.push(pb(&F { id: 4, next: -1, s1: -1, s2: -1, arg: -1, kind: 0, color: u32_() }, "arg"));
    let ok = t == "4" || t == "04" || t == "+4";
    match Blocks::try_from(BlockContainer(v)) {
        Err(_) => check(!ok, "a valid reference resolves"),
        Ok(b) => { check(ok, "an invalid reference is an error");
            let it = &b.0[1].content.items[0];
            let op = match it { SpecItem::Parameter(Argument::String { value: ArgValue::Block(b), .. }) if k == 0 => &b.op_code, SpecItem::Parameter(Argument::Menu { value: ArgValue::Block(b), .. }) if k == 1 => &b.op_code, SpecItem::Parameter(Argument::Number { value: ArgValue::Block(b), .. }) if k == 2 => &b.op_code, SpecItem::Parameter(Argument::Boolean { value: ArgValue::Block(b), .. }) if k == 3 => &b.op_code, _ => { check(false, "the argument is a block"); return } };
            check(op == "arg", "the argument is the referenced block") }
    }
    reach("end");
}
/// Boolean literals are stored as blocks whose opcode is true or false; every other referenced block (opcode any text of up to 2 bytes) stays a block.
#[no_mangle] pub extern "C" fn h_c10_bool() {
    let f = |id| F { id, next: -1, s1: -1, s2: -1, arg: -1, kind: 0, color: u32_() };
    let mut a = pb(&f(1), "if"); a.spec = s("if %b"); a.parameters = vec![s("@2")];
    let op = match choose(3) { 0 => s("true"), 1 => s("false"), _ => text_upto(2) };
    let mut b = pb(&f(2), &op); b.r#type = s("b");
    match Blocks::try_from(BlockContainer(vec![a, b])) {
        Err(_) => check(false, "boolean argument reads"),
        Ok(x) => match &x.0[0].content.items[1] {
            SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Value(v) }) => check((*v && op == "true") || (!*v && op == "false"), "a literal has its value"),
            SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Block(b) }) => check(b.op_code == op && op != "true" && op != "false", "other blocks stay blocks"),
            _ => check(false, "boolean argument has its kind"),
        },
    }
    reach("end");
}

// ---------------------------------------------------------------- C11
/// Reference spec parser on one word.
fn word(w: &str) -> Result<SpecItem, ()> {
    if !w.starts_with('%') { return Ok(text_item(w)) }
    let b = w.as_bytes();
    let name = if b.len() > 3 && b[2] == b'.' { Some(w[3..].to_string()) } else { None };
    Ok(SpecItem::Parameter(match b.get(1) {
        Some(b's') => Argument::String { name, value: ArgValue::Empty }, Some(b'd') => Argument::Number { name, value: ArgValue::Empty }, Some(b'b') => Argument::Boolean { name, value: ArgValue::Empty },
        Some(b'm') => Argument::Menu { name: name.ok_or(())?, value: ArgValue::Empty }, _ => return Err(()),
    }))
}
/// A word in documented form: text without blanks or leading '%', or %s %d %b (optionally .name), or %m.name.
fn doc_word(lens: u64) -> String {
    match choose(6) {
        0 => { let t = text_upto(lens as usize); for c in t.bytes() { assume(c != b' ') } assume(!t.starts_with('%')); t }
        1 => s("%s"), 2 => s("%d"), 3 => s("%b"),
        4 => { let n = text(lens as usize); for c in n.bytes() { assume(c != b' ') } format!("%{}.{}", ["s", "d", "b"][choose(3) as usize], n) }
        _ => { let n = text(lens as usize); for c in n.bytes() { assume(c != b' ') } format!("%m.{}", n) }
    }
}
/// Specs of two words in documented form with names and texts of up to 2 free bytes: items, and the reprinted text. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_spec() {
    let (a, b) = (doc_word(2), doc_word(2));
    spec2(&[a, b]); reach("end");
}
/// Specs of three words, one free byte each. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_spec3() {
    let (a, b, c) = (doc_word(1), doc_word(1), doc_word(1));
    spec2(&[a, b, c]); reach("end");
}
fn spec2(w: &[String]) {
    let t = w.join(" ");
    match BlockContent::parse_wo_params(&t) {
        Err(_) => check(false, "a spec parses"),
        Ok(c) => {
            check(c.items.len() == w.len(), "one item per word");
            for (i, x) in w.iter().enumerate() { match word(x) { Ok(it) => check(c.items.get(i) == Some(&it), "items as written"), Err(_) => check(false, "reference") } }
            let p = c.to_string(); observe(p.as_bytes());
            check(p == t, "the spec is reprinted");
            let n = c.get_args().len();
            check(n == w.iter().filter(|x| x.starts_with('%')).count(), "one argument per parameter");
            let (e, taken) = c.clone().take_args();
            check(e == c && taken.len() == n, "taking empty arguments changes nothing");
            // the same spec with well-typed arguments, bound while parsing and afterwards
            let args: Vec<String> = w.iter().filter(|x| x.starts_with('%')).enumerate().map(|(i, x)| match x.as_bytes()[1] { b'd' => s("2"), b'b' => s("true"), _ => format!("a{}", i) }).collect();
            match (BlockContent::parse(t.clone(), args.clone()), c.clone().apply_args(args)) {
                (Ok(a), Ok(b)) => {
                    check(a == b, "binding while parsing and afterwards agree"); check(a.to_string() == t, "binding does not change the spec");
                    let (e, taken) = a.take_args(); check(e == c, "taking the arguments gives the spec without them"); check(taken.len() == n, "every argument is taken");
                }
                _ => check(false, "a spec with its arguments parses"),
            }
        }
    }
}
/// Any spec of up to 4 free bytes: parsing accepts it exactly as the reference does, word by word; whatever is accepted in documented form is reprinted. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_any() {
    let t = text_upto(4);
    let words: Vec<&str> = t.split(' ').collect();
    let want: Result<Vec<SpecItem>, ()> = words.iter().map(|w| word(w)).collect();
    let documented = words.iter().all(|w| !w.starts_with('%') || w.len() == 2 || (w.len() > 3 && w.as_bytes()[2] == b'.'));
    assume(documented);
    let got = BlockContent::parse_wo_params(&t);
    match (&got, &want) {
        (Ok(c), Ok(v)) => { check(&c.items == v, "items of any spec"); check(c.to_string() == t, "any spec is reprinted") }
        (Err(_), Err(_)) => reach("refused"),
        _ => check(false, "unknown parameters are errors, known ones are not"),
    }
    reach("end");
}
/// Reference typing of one argument.
type Shown = (u64, u8, u64, String);
fn bind(k: u64, v: &str) -> Result<Shown, ()> {
    if let Some(r) = v.strip_prefix('@') { return match r.parse::<u32>() { Ok(n) => Ok((k, 1, n as u64, s(""))), Err(_) => Err(()) } }
    match k { 0 | 3 => Ok((k, 0, 0, s(v))), 1 => if v.is_empty() { Ok((k, 2, 0, s(""))) } else { v.parse::<f64>().map(|x| (k, 0, x.to_bits(), s(""))).map_err(|_| ()) },
        _ => if v.is_empty() { Ok((k, 2, 0, s(""))) } else if v == "true" || v == "false" { Ok((k, 0, (v == "true") as u64, s(""))) } else { Err(()) } }
}
fn shown(a: &Argument) -> Shown {
    match a {
        Argument::String { value, .. } => match value { ArgValue::Value(v) => (0, 0, 0, v.clone()), ArgValue::BlockPlaceholder { block_id } => (0, 1, *block_id as u64, s("")), ArgValue::Empty => (0, 2, 0, s("")), _ => (0, 9, 0, s("")) },
        Argument::Number { value, .. } => match value { ArgValue::Value(v) => (1, 0, v.to_bits(), s("")), ArgValue::BlockPlaceholder { block_id } => (1, 1, *block_id as u64, s("")), ArgValue::Empty => (1, 2, 0, s("")), _ => (1, 9, 0, s("")) },
        Argument::Boolean { value, .. } => match value { ArgValue::Value(v) => (2, 0, *v as u64, s("")), ArgValue::BlockPlaceholder { block_id } => (2, 1, *block_id as u64, s("")), ArgValue::Empty => (2, 2, 0, s("")), _ => (2, 9, 0, s("")) },
        Argument::Menu { value, .. } => match value { ArgValue::Value(v) => (3, 0, 0, v.clone()), ArgValue::BlockPlaceholder { block_id } => (3, 1, *block_id as u64, s("")), ArgValue::Empty => (3, 2, 0, s("")), _ => (3, 9, 0, s("")) },
    }
}
const KW: [&str; 4] = ["%s.a", "%d", "%b.c", "%m.d"];
fn bind_check(kinds: &[u64], args: &[String]) {
    let spec = { let mut w = vec![s("x")]; for k in kinds { w.push(s(KW[*k as usize])); w.push(s("y")) } w.join(" ") };
    let mut want: Result<Vec<Shown>, ()> = Ok(vec![]);
    for (i, k) in kinds.iter().enumerate() { let r = match args.get(i) { Some(a) => bind(*k, a), None => Err(()) }; want = match (want, r) { (Ok(mut v), Ok(x)) => { v.push(x); Ok(v) } _ => Err(()) } }
    let a = BlockContent::parse(spec.clone(), args.to_vec());
    let b = BlockContent::parse_wo_params(&spec).and_then(|c| c.apply_args(args.to_vec()));
    match (&a, &b) {
        (Ok(x), Ok(y)) => { check(x.get_args().into_iter().map(shown).eq(y.get_args().into_iter().map(shown)) && x.to_string() == y.to_string(), "binding while parsing and afterwards agree"); check(x.to_string() == spec, "binding does not change the spec") }
        (Err(_), Err(_)) => {}
        _ => check(false, "binding while parsing and afterwards agree on errors"),
    }
    match (&a, &want) {
        (Ok(x), Ok(w)) => { reach("bound"); let got: Vec<_> = x.get_args().into_iter().map(shown).collect(); check(&got == w, "arguments are bound left to right by type");
            let (e, taken) = x.clone().take_args(); check(&taken.iter().map(shown).collect::<Vec<_>>() == w, "taken arguments are the bound ones"); check(e.get_args().iter().all(|a| shown(a).1 == 2) && e.to_string() == spec, "taking leaves empty parameters"); }
        (Err(_), Err(_)) => reach("refused"),
        (Ok(_), Err(_)) => check(false, "ill-typed or missing arguments are errors"),
        (Err(_), Ok(_)) => check(false, "well-typed arguments are accepted"),
    }
}
/// One parameter of each kind with an argument of up to 3 free bytes. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_bind1() { let k = choose(4); let t = text_upto(3); bind_check(&[k], &[t]); reach("end"); }
/// One parameter of each kind with an argument near a well-formed one: true, false, a number or a block reference with any byte before it, after it or in place of any of its own. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_near() {
    let k = choose(4); let w = ["true", "false", "1", "-2.5e1", "@7", "@12"][choose(6) as usize]; let f = ascii(1); let i = choose(w.len() as u64) as usize;
    let t = match choose(3) { 0 => format!("{f}{w}"), 1 => format!("{w}{f}"), _ => format!("{}{f}{}", &w[..i], &w[i + 1..]) };
    bind_check(&[k], &[t]); reach("end");
}
/// Two parameters of any kinds, 0-3 arguments from {empty, free letter, 1, true, @, @7, -2.5e1, @4294967295, @4294967296}. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_bind2() {
    let ks = [choose(4), choose(4)];
    let n = choose(4);
    let args: Vec<String> = (0..n).map(|i| if i == 2 { s("extra") } else { match choose(9) { 0 => s(""), 1 => lower(1), 2 => s("1"), 3 => s("true"), 4 => s("@"), 5 => s("@7"), 6 => s("-2.5e1"), 7 => s("@4294967295"), _ => s("@4294967296") } }).collect();
    bind_check(&ks, &args); reach("end");
}
/// Three parameters of any kinds with exactly matching, short and long argument lists of well-typed values: order of binding.
#[no_mangle] pub extern "C" fn h_c11_order() {
    let ks = [choose(4), choose(4), choose(4)];
    let n = choose(5) as usize;
    let mut args: Vec<String> = ks.iter().enumerate().map(|(i, k)| match k { 1 => s(["1", "2", "3"][i]), 2 => s(["true", "false", "@9"][i]), _ => lower(1) }).collect();
    args.truncate(n); if n == 4 { args.push(s("5")) }
    bind_check(&ks, &args); reach("end");
}
/// apply_args leaves parameters that already have a value alone and binds the rest left to right; get_args_mut edits are visible.
#[no_mangle] pub extern "C" fn h_c11_partial() {
    let filled = choose(8);
    let mut c = match BlockContent::parse_wo_params("%s %d.k to %m.q") { Ok(c) => c, Err(_) => { check(false, "spec parses"); return } };
    let mut want = vec![];
    let mut rest = vec![s("a"), s("3"), s("b")].into_iter();
    for (i, a) in c.get_args_mut().into_iter().enumerate() {
        if filled >> i & 1 == 1 { match a { Argument::String { value, .. } | Argument::Menu { value, .. } => { *value = ArgValue::Value(s("set")); want.push((if i == 0 { 0 } else { 3 }, 0, 0, s("set"))) } Argument::Number { value, .. } => { *value = ArgValue::Value(9.0); want.push((1, 0, 9.0f64.to_bits(), s(""))) } _ => {} } }
        else { match i { 1 => { let v = rest.next().unwrap_or_default(); match v.parse::<f64>() { Ok(x) => want.push((1, 0, x.to_bits(), s(""))), Err(_) => want.push((7, 7, 0, v)) } } _ => want.push((if i == 0 { 0 } else { 3 }, 0, 0, rest.next().unwrap_or_default())) } }
    }
    let bad = want.iter().any(|w| w.0 == 7);
    match c.apply_args(vec![s("a"), s("3"), s("b")]) {
        Err(_) => check(bad, "partial binding succeeds"),
        Ok(c) => { check(!bad, "ill-typed rest is an error"); check(c.get_args().into_iter().map(shown).collect::<Vec<_>>() == want, "only empty parameters are bound") }
    }
    reach("end");
}
/// 0 to 16 parameters of all kinds (4 rotations) with an argument list that matches, is one short, is longer by two, or has one ill-typed entry or block reference at any place. [jobs 8] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c11_wide() {
    let n = [0usize, 1, 4, 5, 9, 10, 16][choose(7) as usize]; let rot = choose(4); let ks: Vec<u64> = (0..n as u64).map(|i| (i + rot) % 4).collect();
    let mut args: Vec<String> = ks.iter().enumerate().map(|(i, k)| match k { 1 => format!("{}.5", i), 2 => s(["true", "false"][i % 2]), _ => format!("a{}", i) }).collect();
    let how = choose(3 + 2 * n as u64) as usize;
    match how { 0 => {} 1 => { args.pop(); } 2 => { args.push(s("x")); args.push(s("@3")) } h => { let at = (h - 3) / 2; args[at] = if h % 2 == 1 { s("@") + &lower(1) } else { format!("@{}", 40 + at) } } }
    bind_check(&ks, &args); reach("end");
}
/// A block nested in each of the four kinds of argument, whose text is "true", "false" or up to five free letters, its type any of 11 and its op code free: it stays a block. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_block_text() {
    let t = match choose(4) { 0 => s("true"), 1 => s("false"), 2 => lower(4), _ => lower(5) }; let op = lower(1 + choose(6) as usize); assume(op != "true" && op != "false");
    let mut b = leaf(op); b.content = BlockContent { items: vec![text_item(&t)] }; b.block_type = btype(choose(11) as usize); let v = ArgValue::Block(b);
    macro_rules! sv { () => { match &v { ArgValue::Block(b) => ArgValue::Block(b.clone()), _ => ArgValue::Empty } } }
    let a = match choose(4) { 0 => Argument::Boolean { name: None, value: sv!() }, 1 => Argument::String { name: None, value: sv!() }, 2 => Argument::Number { name: None, value: sv!() }, _ => Argument::Menu { name: s("m"), value: sv!() } };
    let mut o = leaf(s("o")); o.content = BlockContent { items: vec![text_item("t"), SpecItem::Parameter(a)] };
    let _: &ArgValue<String> = &v; roundtrip(Blocks(vec![o])); reach("end");
}
/// Blocks put in for references (apply_blocks): one or two parameters of any kinds, or three in rotation, each empty, holding a value, a block or a reference of any id; the blocks handed out have the op code true, false, True or four free letters and the text t, true or false; any one of them may be missing. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_put_blocks() {
    let n = 1 + choose(3) as usize; let gone = choose(4) as usize; let op = match choose(4) { 0 => s("true"), 1 => s("false"), 2 => s("True"), _ => lower(4) };
    let mut items = vec![]; let mut want: Vec<SpecItem> = vec![]; let mut ids: Vec<u32> = vec![]; let mut fail = None; let mut k0 = 0; let tx = ["t", "true", "false"][choose(3) as usize];
    for i in 0..n {
        items.push(text_item("w")); want.push(text_item("w"));
        let k = if n < 3 || i == 0 { choose(4) } else { (k0 + i as u64) % 4 }; if i == 0 { k0 = k } let v = choose(4); let id = u32_();
        let given = { let mut b = leaf(op.clone()); b.content.items[0] = text_item(tx); b.color = Color::from(i as u32 + 1); b };
        let old = leaf(s("true"));
        macro_rules! val { ($x:expr) => { match v { 0 => ArgValue::Empty, 1 => ArgValue::Value($x), 2 => ArgValue::Block(old.clone()), _ => ArgValue::BlockPlaceholder { block_id: id } } } }
        macro_rules! put { ($x:expr, $e:ty) => {{ let w: ArgValue<$e> = if v == 3 { ArgValue::Block(given.clone()) } else { val!($x) }; w }} }
        let name = if i == 0 { None } else { Some(s("p")) };
        let (a, w) = match k {
            0 => (Argument::String { name: name.clone(), value: val!(s("@3")) }, Argument::String { name: name.clone(), value: put!(s("@3"), String) }),
            1 => (Argument::Number { name: name.clone(), value: val!(1.5) }, Argument::Number { name: name.clone(), value: put!(1.5, f64) }),
            2 => (Argument::Boolean { name: name.clone(), value: val!(true) }, Argument::Boolean { name: name.clone(), value: if v == 3 && op == "true" { ArgValue::Value(true) } else if v == 3 && op == "false" { ArgValue::Value(false) } else { put!(true, bool) } }),
            _ => (Argument::Menu { name: s("view"), value: val!(s("")) }, Argument::Menu { name: s("view"), value: put!(s(""), String) }),
        };
        if v == 3 && fail.is_none() { if ids.len() == gone { fail = Some(id) } ids.push(id) }
        items.push(SpecItem::Parameter(a)); want.push(SpecItem::Parameter(w));
    }
    let mut asked: Vec<u32> = vec![]; let mut at: Vec<u32> = vec![];
    { let mut p = 0u32; for x in items.iter() { if let SpecItem::Parameter(a) = x { p += 1; if matches!(a, Argument::String { value: ArgValue::BlockPlaceholder { .. }, .. } | Argument::Number { value: ArgValue::BlockPlaceholder { .. }, .. } | Argument::Boolean { value: ArgValue::BlockPlaceholder { .. }, .. } | Argument::Menu { value: ArgValue::BlockPlaceholder { .. }, .. }) { at.push(p) } } } }
    let r = BlockContent { items }.apply_blocks(|id| { let i = asked.len(); asked.push(id); if i == gone { None } else { let mut b = leaf(op.clone()); b.content.items[0] = text_item(tx); b.color = Color::from(at.get(i).copied().unwrap_or(0)); Some(b) } });
    check(asked == ids, "each reference is asked for once, by its id, from left to right");
    match (r, fail) {
        (Ok(c), None) => check(c.items == want, "each reference is replaced by its block, everything else is left alone"),
        (Err(e), Some(id)) => check(matches!(e, BlockContentParseError::BlockNotFound { block_id } if block_id == id), "a missing block is the error, by its id"),
        (Ok(_), Some(_)) => check(false, "a missing block is an error"), (Err(_), None) => check(false, "blocks are put in"),
    }
    reach("end");
}
/// Long and special texts as text arguments, menu arguments, words and parameter names of a spec. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_texts() {
    let t = wide();
    match choose(4) { 0 => bind_check(&[0, 1], &[t, s("2")]), 1 => bind_check(&[1, 3], &[s("2"), t]), 2 => { assume(!t.contains(' ') && !t.starts_with('%')); spec2(&[s("%s"), t, s("%d.q")]) } _ => { assume(!t.contains(' ')); spec2(&[format!("%m.{}", t), s("k"), format!("%s.{}", t), s("%b")]) } }
    reach("end");
}
/// Specs of 10, 17 and 40 words of every form. [jobs 4] [ins 60000000]
#[no_mangle] pub extern "C" fn h_c11_words() {
    let n = [10usize, 17, 40][choose(3) as usize]; let rot = choose(7) as usize; let f = lower(1);
    let w: Vec<String> = (0..n).map(|i| match (i * 3 + rot + i / 7) % 7 { 0 => s("%s"), 1 => format!("w{}", i), 2 => format!("%m.v{}", i), 3 => s("%d"), 4 => format!("%b.{}{}", f, i), 5 => f.clone(), _ => format!("%s.n{}", i) }).collect();
    spec2(&w); reach("end");
}
/// Equal blocks: stacks, nests and arguments in which any of 5 blocks are equal to each other (all patterns over two kinds). [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_repeats() {
    let m = lower(1); let b = |_: usize| leaf(format!("{}{}", m, choose(2)));
    let (v, w, x, y, z) = (b(0), b(1), b(2), b(3), b(4)); let mut o = b(5); o.sub_stack1 = Some(Blocks(vec![v.clone(), w.clone()]));
    match choose(3) { 0 => { o.sub_stack2 = Some(Blocks(vec![x])) } 1 => o.content = BlockContent { items: vec![SpecItem::Parameter(Argument::String { name: None, value: ArgValue::Block(x.clone()) }), SpecItem::Parameter(Argument::Number { name: None, value: ArgValue::Block(x) })] }, _ => {} }
    roundtrip(Blocks(vec![y, o.clone(), z, o])); reach("end");
}
/// Opcodes, type names, literals, menu and parameter names of 1 to 24 free characters. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_words() {
    let mut b = leaf(s("x")); let k = choose(7); let t = if k < 5 { any_plain() } else { any_name() };
    match k {
        0 => { assume(t != "true" && t != "false"); b.op_code = t } 1 => b.block_type = BlockType::Argument(ArgumentBlockReturnType::View { type_name: t }), 2 => b.block_type = BlockType::Argument(ArgumentBlockReturnType::Component { type_name: t }),
        3 => { assume(t.as_bytes()[0] != b'@'); b.content = BlockContent { items: vec![text_item("t"), SpecItem::Parameter(Argument::String { name: None, value: ArgValue::Value(t) }), text_item("u")] } }
        4 => { assume(t.as_bytes()[0] != b'@'); b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Menu { name: s("view"), value: ArgValue::Value(t) })] } }
        5 => b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Menu { name: t, value: ArgValue::Value(s("v")) }), text_item("k")] },
        _ => b.content = BlockContent { items: vec![SpecItem::Text(t.clone()), SpecItem::Parameter(Argument::Boolean { name: Some(t.clone()), value: ArgValue::Empty }), SpecItem::Parameter(Argument::String { name: Some(t), value: ArgValue::Value(s("v")) })] },
    }
    let mut o = leaf(s("o")); o.sub_stack1 = Some(Blocks(vec![b.clone()])); let mut q = leaf(s("q")); q.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Number { name: None, value: ArgValue::Block(b.clone()) })] };
    roundtrip(Blocks(vec![b, o, q])); reach("end");
}
/// A block of any opcode of 1 to 24 free characters, any of 11 types, with and without each nested stack and with an argument block: joint combinations. [jobs 8]
#[no_mangle] pub extern "C" fn h_c09_joint() {
    let t = any_name(); assume(t != "true" && t != "false"); let mut b = leaf(t); b.color = Color::from(u32_()); b.block_type = btype(choose(11) as usize); let k = choose(8);
    if k & 1 != 0 { b.sub_stack1 = Some(Blocks(vec![leaf(s("a")), leaf(s("b"))])) } if k & 2 != 0 { b.sub_stack2 = Some(Blocks(vec![leaf(s("c"))])) } if k & 4 != 0 { b.content = BlockContent { items: vec![SpecItem::Parameter(Argument::Boolean { name: None, value: ArgValue::Block(leaf(s("d"))) })] } }
    let last = choose(2) == 1; let mut v = vec![leaf(s("p")), b]; if !last { v.push(leaf(s("q"))) } roundtrip(Blocks(v)); reach("end");
}
/// One block with three parameters of any kinds (4 rotations), each a literal or a reference to one of three blocks, a missing one or the block itself, the three blocks also linked or not: read exactly when every block is used once. [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_multi() {
    let rot = choose(4) as usize; let mut a = pb(&F { id: 1, next: [-1, 2][choose(2) as usize], s1: [-1, 3][choose(2) as usize], s2: -1, arg: -1, kind: 0, color: u32_() }, "op");
    let kinds = [rot % 4, (rot + 1) % 4, (rot + 2) % 4]; a.spec = kinds.iter().map(|k| ["%s", "%m.k", "%d", "%b"][*k]).collect::<Vec<_>>().join(" ");
    let mut used: Vec<i32> = vec![1]; if a.next_block >= 0 { used.push(2) } if a.sub_stack1 >= 0 { used.push(3) } let mut ok = true; let mut want = vec![];
    a.parameters = kinds.iter().map(|k| { let r = choose(6) as i32; want.push(r); if r == 0 { s(["lit", "", "7", ""][*k]) } else { let id = if r == 5 { 9 } else { r }; if id == 9 { ok = false } used.push(id); format!("@{}", id) } }).collect();
    let n = used.len(); used.sort(); used.dedup(); ok &= used.len() == n;
    let v: Vec<PB> = [2u32, 3, 4].iter().map(|i| pb(&F { id: *i, next: -1, s1: -1, s2: -1, arg: -1, kind: 0, color: u32_() }, &format!("op{}", i))).collect();
    let mut flat = vec![a]; flat.extend(v);
    match Blocks::try_from(BlockContainer(flat)) {
        Err(_) => check(!ok, "well linked lists are read"),
        Ok(t) => { check(ok, "a block reached twice or missing is an error"); let args = t.0[0].content.get_args(); check(args.len() == 3, "every argument is read");
            for i in 0..3 { let op = match &args[i] { Argument::String { value: ArgValue::Block(b), .. } | Argument::Menu { value: ArgValue::Block(b), .. } | Argument::Number { value: ArgValue::Block(b), .. } | Argument::Boolean { value: ArgValue::Block(b), .. } => Some(b.op_code.clone()), _ => None }; check(op == if want[i] == 0 { None } else { Some(format!("op{}", want[i])) }, "an argument is the referenced block") } }
    }
    reach("end");
}
/// Opcodes, texts, type names and literals of 1 to 24 free characters are read as written from a flat list. [jobs 8]
#[no_mangle] pub extern "C" fn h_c10_words() {
    let mut v = good(); let at = choose(3) as usize; let k = choose(5); let t = if k < 3 { any_plain() } else { any_name() };
    match k { 0 => v[at].op_code = t.clone(), 1 => { v[at].spec = s("a %s b"); assume(t.as_bytes()[0] != b'@'); v[at].parameters = vec![t.clone()] } 2 => { v[at].r#type = s("v"); v[at].type_name = t.clone() } 3 => { v[at].spec = format!("%m.{}", t); v[at].parameters = vec![s("x")] } _ => v[at].spec = t.clone() }
    match Blocks::try_from(BlockContainer(v)) {
        Err(_) => check(false, "well linked lists are read"),
        Ok(b) => { let x = match at { 0 => b.0.get(0), 1 => b.0.get(1), _ => b.0.get(0).and_then(|x| x.sub_stack1.as_ref()).and_then(|x| x.0.get(0)) }; let x = match x { Some(x) => x, None => { check(false, "links are followed as written"); return } };
            match k { 0 => check(x.op_code == t, "the opcode is kept"), 1 => check(x.content.items == vec![text_item("a"), SpecItem::Parameter(Argument::String { name: None, value: ArgValue::Value(t) }), text_item("b")], "the literal is kept"), 2 => check(x.block_type == BlockType::Argument(ArgumentBlockReturnType::View { type_name: t }), "the type name is kept"), 3 => check(x.content.items == vec![SpecItem::Parameter(Argument::Menu { name: t, value: ArgValue::Value(s("x")) })], "the menu name is kept"), _ => check(x.content.items == vec![SpecItem::Text(t)], "the text is kept") } }
    }
    reach("end");
}
/// Words, parameter names and arguments of 1 to 24 free letters, digits and underscores; numbers excluded where a number would be typed. [jobs 8]
#[no_mangle] pub extern "C" fn h_c11_names() {
    let t = any_name();
    match choose(6) { 0 => bind_check(&[0, 1], &[t, s("2")]), 1 => bind_check(&[1, 3, 0], &[s("2"), t, s("z")]), 2 => spec2(&[s("%s"), t, s("%d.q")]), 3 => spec2(&[format!("%m.{}", t), s("k")]), 4 => spec2(&[format!("%s.{}", t), s("%b")]), _ => spec2(&[format!("%d.{}", t), format!("%b.{}", t)]) }
    reach("end");
}
