//! C03 (logic part), C04: the logic file.
use crate::vp::*;
use ritelinked::LinkedHashMap;
use swrs::color::Color;
use swrs::parser::logic::component::*;
use swrs::parser::logic::event::*;
use swrs::parser::logic::list_variable::*;
use swrs::parser::logic::more_block::*;
use swrs::parser::logic::variable::*;
use swrs::parser::logic::*;
use swrs::parser::Parsable;

fn vt(k: u64) -> VariableType { match k { 0 => VariableType::Boolean, 1 => VariableType::Integer, 2 => VariableType::String, _ => VariableType::HashMap } }
fn vpool(l: &[(&str, VariableType)]) -> VariablePool { let mut m = LinkedHashMap::new(); for (n, t) in l { m.insert(s(n), Variable { name: s(n), r#type: *t }); } VariablePool(m) }
fn lpool(l: &[(&str, VariableType)]) -> ListVariablePool { let mut m = LinkedHashMap::new(); for (n, t) in l { m.insert(s(n), ListVariable { name: s(n), r#type: *t }); } ListVariablePool(m) }
fn mpool(l: &[(&str, &str)]) -> MoreBlockPool { let mut m = LinkedHashMap::new(); for (n, t) in l { m.insert(s(n), MoreBlock { id: s(n), spec: s(t) }); } MoreBlockPool(m) }
fn comp(id: &str, t: u8) -> Component { Component { id: s(id), param1: s("p1"), param2: s("p2"), param3: s("p3"), r#type: t } }
fn event(n: &str, id: &str) -> Event { Event { event_name: s(n), event_type: 1, target_id: s(id), target_type: 3 } }
pub fn block(id: &str, op: &str) -> Block { Block { color: Color::from(0xff010203), id: s(id), next_block: -1, op_code: s(op), parameters: vec![s("p"), s("")], spec: s("do %s"), sub_stack1: -1, sub_stack2: -1, r#type: s(" "), type_name: s("") } }

/// Same content; the order of screens and screens without any content are not part of the text.
fn same_screens(a: &Logic, b: &Logic) -> bool {
    let mut n = 0;
    for (k, v) in a.screens.iter() {
        let empty = v.block_containers.is_empty() && v.variables.is_none() && v.list_variables.is_none() && v.components.is_none() && v.events.is_none() && v.more_blocks.is_none();
        if empty { continue }
        n += 1;
        match b.screens.get(k) { Some(w) => if v != w || v.block_containers.iter().map(|x| x.0).ne(w.block_containers.iter().map(|x| x.0)) { return false }, None => return false }
    }
    n == b.screens.len()
}
fn roundtrip(l: &Logic, tag: &str) -> String {
    let t = match l.reconstruct() { Ok(t) => t, Err(_) => { check(false, "writing succeeds"); return String::new() } };
    observe(t.as_bytes());
    match Logic::parse(&t) {
        Err(_) => check(false, "written logic parses"),
        Ok(p) => {
            check(same_screens(l, &p), tag);
            match p.reconstruct() { Ok(u) => { match Logic::parse(&u) { Ok(q) => check(same_screens(&p, &q), "second round trip"), Err(_) => check(false, "rewritten logic parses") } } Err(_) => check(false, "rewriting succeeds") }
        }
    }
    t
}
fn with(screens: Vec<ScreenLogic>) -> Logic { let mut m = LinkedHashMap::new(); for x in screens { m.insert(x.name.clone(), x); } Logic { screens: m } }

fn pools(sc: &mut ScreenLogic, pick: &mut dyn FnMut() -> u64) {
    match pick() { 0 => {} 1 => sc.variables = Some(vpool(&[])), 2 => sc.variables = Some(vpool(&[("v", VariableType::String)])), _ => sc.variables = Some(vpool(&[("y", VariableType::HashMap), ("x", VariableType::Boolean)])) }
    match pick() { 0 => {} 1 => sc.list_variables = Some(lpool(&[])), 2 => sc.list_variables = Some(lpool(&[("l", VariableType::Integer)])), _ => sc.list_variables = Some(lpool(&[("m", VariableType::String), ("l", VariableType::HashMap)])) }
    match pick() { 0 => {} 1 => sc.components = Some(ComponentPool(vec![])), 2 => sc.components = Some(ComponentPool(vec![comp("c", 1)])), _ => sc.components = Some(ComponentPool(vec![comp("d", 255), comp("c", 0)])) }
    match pick() { 0 => {} 1 => sc.events = Some(EventPool(vec![])), 2 => sc.events = Some(EventPool(vec![event("onClick", "b")])), _ => sc.events = Some(EventPool(vec![event("e2", "b"), event("e1", "a")])) }
    match pick() { 0 => {} 1 => sc.more_blocks = Some(mpool(&[])), 2 => sc.more_blocks = Some(mpool(&[("f", "f %s.a")])), _ => sc.more_blocks = Some(mpool(&[("g", "g"), ("f", "a:b ")])) }
    match pick() { 0 => {}
        1 => { sc.block_containers.insert(s("onCreate"), BlockContainer(vec![])); }
        2 => { sc.block_containers.insert(s("onCreate"), BlockContainer(vec![block("1", "a")])); }
        _ => { sc.block_containers.insert(s("z"), BlockContainer(vec![])); sc.block_containers.insert(s("y"), BlockContainer(vec![block("2", "b"), block("1", "a")])); sc.block_containers.insert(s("b_onClick"), BlockContainer(vec![])); } }
}
/// One screen, every pool in {absent, empty, one entry} and block containers in {none, one empty, one with a block}: all 729 shapes, screen name of one free character. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_shape() {
    let mut sc = ScreenLogic::new_empty(lower(1));
    pools(&mut sc, &mut || choose(3));
    roundtrip(&with(vec![sc]), "one screen"); reach("end");
}
/// Two screens with free distinct names, each pool in {absent, two entries}, containers {none, three}, second screen in one of four fillings. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_two_screens() {
    let (n1, n2) = (lower(2), lower(2)); assume(n1 != n2);
    let mut a = ScreenLogic::new_empty(n1);
    pools(&mut a, &mut || choose(2) * 3);
    let mut b = ScreenLogic::new_empty(n2);
    let f = choose(4); let mut k = 0;
    pools(&mut b, &mut || { k += 1; match f { 0 => 0, 1 => if k == 6 { 3 } else { 0 }, 2 => if k % 2 == 0 { 1 } else { 2 }, _ => 3 } });
    roundtrip(&with(vec![a, b]), "two screens"); reach("end");
}
/// Three screens that share prefixes of each other's names; which pools they have is free per screen (one pool each).
#[no_mangle] pub extern "C" fn h_c04_three_screens() {
    let mut v = vec![];
    for n in ["main", "mai", "main_2"] { let mut sc = ScreenLogic::new_empty(s(n)); let w = choose(6); let mut k = 0; pools(&mut sc, &mut || { k += 1; if k - 1 == w { 3 } else { 0 } }); v.push(sc); }
    roundtrip(&with(v), "three screens"); reach("end");
}
/// Names, ids and specs: any UTF-8 text of up to 3 bytes without newline in each place (one place at a time); more-block ids without ':'; container names not starting a section keyword. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_names() {
    let place = choose(7);
    let t = line_upto(3);
    let mut sc = ScreenLogic::new_empty(s("main"));
    match place {
        0 => sc.variables = Some(vpool(&[("a", VariableType::String), (&t, vt(choose(4)))])),
        1 => sc.list_variables = Some(lpool(&[("a", VariableType::String), (&t, vt(choose(4)))])),
        2 => { for b in t.bytes() { assume(b != b':') } sc.more_blocks = Some(mpool(&[(&t, "x"), ("abcd", "y")])) }
        3 => sc.more_blocks = Some(mpool(&[("i", &t), ("j", "k")])),
        4 => { sc.block_containers.insert(t.clone(), BlockContainer(vec![block("1", "a")])); sc.block_containers.insert(s("zzzz"), BlockContainer(vec![])); if t == "var" { assume(false) } }
        5 => { sc.name = t.clone(); sc.block_containers.insert(s("x"), BlockContainer(vec![block("1", "a")])); sc.variables = Some(vpool(&[("a", VariableType::String)])); }
        _ => { sc.block_containers.insert(t.clone() + "_onClick", BlockContainer(vec![])); }
    }
    roundtrip(&with(vec![sc]), "names"); reach("end");
}
/// Block records: each text field in turn any UTF-8 text of up to 2 bytes, 0-3 parameters, numbers from edge cases of 32 bits or any byte, colour bytes free one at a time. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_block() {
    let mut b = block("10", "op");
    b.type_name = s("tn"); b.r#type = s("b");
    match choose(12) {
        0 => b.id = text_upto(2), 1 => b.op_code = text_upto(2), 2 => b.spec = text_upto(2), 3 => b.r#type = text_upto(2), 4 => b.type_name = text_upto(2),
        5 => b.next_block = num(I32E) as i32, 6 => b.sub_stack1 = num(I32E) as i32, 7 => b.sub_stack2 = num(I32E) as i32,
        8 => { let n = choose(4); b.parameters = (0..n).map(|i| if i == n - 1 { text_upto(1) } else { format!("p{}", i) }).collect(); }
        9 => b.color = Color::from(num(I32E) as i32 as u32),
        10 => b.color = Color::from((u8_() as u32) << 24), _ => b.color = Color::from((u8_() as u32) << 8 | 0xff000000) }
    let t = b.reconstruct();
    check(t.is_ok(), "block writes");
    if let Ok(t) = t {
        observe(t.as_bytes());
        check(!t.contains('\n'), "a block is one line");
        match Block::parse(&t) { Ok(c) => check(b == c, "block round trip"), Err(_) => check(false, "written block parses") }
    }
    reach("end");
}
/// Component and event records: each text field in turn any UTF-8 text of up to 2 bytes, type codes any byte; whole pools of two.
#[no_mangle] pub extern "C" fn h_c04_records() {
    if choose(2) == 0 {
        let mut c = Component { id: s("i"), param1: s("1"), param2: s("2"), param3: s("3"), r#type: 9 };
        match choose(5) { 0 => c.id = text_upto(2), 1 => c.param1 = text_upto(2), 2 => c.param2 = text_upto(2), 3 => c.param3 = text_upto(2), _ => c.r#type = u8_() }
        let p = ComponentPool(vec![c, comp("z", 3)]);
        match p.reconstruct() { Ok(t) => { observe(t.as_bytes()); match ComponentPool::parse(&t) { Ok(q) => check(p == q, "component pool"), Err(_) => check(false, "written components parse") } } Err(_) => check(false, "components write") }
    } else {
        let mut e = event("n", "t");
        match choose(4) { 0 => e.event_name = text_upto(2), 1 => e.target_id = text_upto(2), 2 => e.event_type = u8_(), _ => e.target_type = u8_() }
        let p = EventPool(vec![e, event("y", "z")]);
        match p.reconstruct() { Ok(t) => { observe(t.as_bytes()); match EventPool::parse(&t) { Ok(q) => check(p == q, "event pool"), Err(_) => check(false, "written events parse") } } Err(_) => check(false, "events write") }
    }
    reach("end");
}
/// Canonical text with free characters in every name and every digit-valued code: parsed values and the reproduced text, byte for byte.
#[no_mangle] pub extern "C" fn h_c04_canonical() {
    let (a, b, c) = (lower(1), lower(1), lower(1)); assume(a != b);
    let d = choose(4);
    let t = format!("@{a}.java_var\n{d}:{b}\n2:zz\n\n@{b}.java_var\n\n@{a}.java_list\n3:{c}\n\n@{a}.java_components\n{{\"componentId\":\"{c}\",\"param1\":\"{a}1\",\"param2\":\"{a}2\",\"param3\":\"\",\"type\":7}}\n\n@{b}.java_events\n{{\"eventName\":\"{a}\",\"eventType\":1,\"targetId\":\"{c}\",\"targetType\":3}}\n\n@{b}.java_func\n{c}:{a} %s.{b}\n\n@{a}.java_onCreate_initializeLogic\n{{\"color\":-1,\"id\":\"1\",\"nextBlock\":2,\"opCode\":\"{b}\",\"parameters\":[\"{c}\",\"@3\"],\"spec\":\"x %s\",\"subStack1\":4,\"subStack2\":-1,\"type\":\"f\",\"typeName\":\"{c}t\"}}\n\n@{a}.java_{c}_onClick\n\n@{b}.java_{a}_onClick\n{{\"color\":-16777216,\"id\":\"{a}\",\"nextBlock\":-1,\"opCode\":\"\",\"parameters\":[],\"spec\":\"\",\"subStack1\":-1,\"subStack2\":-1,\"type\":\"\",\"typeName\":\"\"}}\n");
    let t = t.trim_matches('\n').to_string();
    match Logic::parse(&t) {
        Err(_) => check(false, "canonical logic parses"),
        Ok(l) => {
            check(l.screens.len() == 2, "two screens");
            if let (Some(x), Some(y)) = (l.screens.get(&a), l.screens.get(&b)) {
                check(x.name == a && y.name == b, "screen names");
                check(x.variables == Some(vpool(&[(&b, vt(d)), ("zz", VariableType::String)])), "variables");
                check(y.variables == Some(vpool(&[])), "empty variables");
                check(x.list_variables == Some(lpool(&[(&c, VariableType::HashMap)])) && y.list_variables.is_none(), "lists");
                check(x.components == Some(ComponentPool(vec![Component { id: c.clone(), param1: format!("{a}1"), param2: format!("{a}2"), param3: s(""), r#type: 7 }])), "components");
                check(y.events == Some(EventPool(vec![Event { event_name: a.clone(), event_type: 1, target_id: c.clone(), target_type: 3 }])), "events");
                check(y.more_blocks == Some(mpool(&[(&c, &format!("{a} %s.{b}"))])), "more blocks");
                let blk = Block { color: Color::from(0xffffffff), id: s("1"), next_block: 2, op_code: b.clone(), parameters: vec![c.clone(), s("@3")], spec: s("x %s"), sub_stack1: 4, sub_stack2: -1, r#type: s("f"), type_name: format!("{c}t") };
                check(x.block_containers.get("onCreate_initializeLogic") == Some(&BlockContainer(vec![blk])), "blocks");
                check(x.block_containers.get(&format!("{c}_onClick")) == Some(&BlockContainer(vec![])) && x.block_containers.len() == 2 && y.block_containers.len() == 1, "containers");
            } else { check(false, "both screens are present") }
            match l.reconstruct() { Ok(u) => { observe(u.as_bytes()); check(u == t, "canonical text is reproduced") } Err(_) => check(false, "writing succeeds") }
        }
    }
    reach("end");
}

fn section(a: &mut ScreenLogic, k: usize, m: &str) -> String {
    let n = a.name.clone();
    match k {
        0 => { a.variables = Some(vpool(&[(m, VariableType::Integer), ("w", VariableType::HashMap)])); format!("@{n}.java_var\n1:{m}\n3:w\n") }
        1 => { a.list_variables = Some(lpool(&[(m, VariableType::String)])); format!("@{n}.java_list\n2:{m}\n") }
        2 => { a.components = Some(ComponentPool(vec![Component { id: s(m), param1: s(""), param2: s(""), param3: s(""), r#type: 5 }])); format!("@{n}.java_components\n{{\"componentId\":\"{m}\",\"param1\":\"\",\"param2\":\"\",\"param3\":\"\",\"type\":5}}\n") }
        3 => { a.events = Some(EventPool(vec![event("onClick", m)])); format!("@{n}.java_events\n{{\"eventName\":\"onClick\",\"eventType\":1,\"targetId\":\"{m}\",\"targetType\":3}}\n") }
        4 => { a.more_blocks = Some(mpool(&[(m, "do %s.x"), ("other", "o")])); format!("@{n}.java_func\n{m}:do %s.x\nother:o\n") }
        _ => { let name = format!("{}{}", ["onCreate_initializeLogic", "b_onClick", "x_moreBlock"][k - 5], if k == 7 { m } else { "" }); let b = block(m, "op"); let t = b.reconstruct().unwrap_or_default(); a.block_containers.insert(name.clone(), BlockContainer(vec![b])); format!("@{n}.java_{name}\n{t}\n") }
    }
}
/// Reading sections in any order: every arrangement of 3 out of 12 sections of two screens (all pools and three code containers of the first, a variable, a more-block and two code sections of the second), free names inside. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_order() {
    let secs: [(usize, usize); 12] = [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (1, 0), (1, 4), (1, 5), (1, 6)];
    let m = lower(1); let order = arrangement(12, 3);
    let mut scr = [ScreenLogic::new_empty(s("main")), ScreenLogic::new_empty(s("main2"))]; let mut t = vec![];
    for i in order { let (w, k) = secs[i]; t.push(section(&mut scr[w], k, &m)) }
    let t = t.join("\n"); let [a, b] = scr; let want = with(vec![a, b]);
    match Logic::parse(t.trim_end_matches('\n')) { Ok(l) => { check(same_screens(&want, &l), "sections are read in any order"); roundtrip(&l, "rewritten in canonical order"); } Err(_) => check(false, "sections in any order are read") }
    reach("end");
}
/// All twelve sections in every rotation of both directions, with one or two blank lines between them.
#[no_mangle] pub extern "C" fn h_c04_order_all() {
    let secs: [(usize, usize); 12] = [(0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5), (0, 6), (0, 7), (1, 0), (1, 4), (1, 5), (1, 6)];
    let m = lower(1); let r = choose(12) as usize; let rev = choose(2) == 1; let gap = choose(2);
    let mut scr = [ScreenLogic::new_empty(s("main")), ScreenLogic::new_empty(s("main2"))]; let mut t = vec![];
    for i in 0..12 { let j = if rev { 11 - i } else { i }; let (w, k) = secs[(j + r) % 12]; t.push(section(&mut scr[w], k, &m)) }
    let t = t.join(["\n", "\n\n"][gap as usize]); let [a, b] = scr; let want = with(vec![a, b]);
    match Logic::parse(t.trim_end_matches('\n')) { Ok(l) => check(same_screens(&want, &l), "sections are read in any order"), Err(_) => check(false, "sections in any order are read") }
    reach("end");
}
/// Large pools: 4 to 130 entries in each pool in turn (variables, lists, components, events, more-blocks, blocks of one container, containers, screens), one name free. [jobs 8] [ins 90000000]
#[no_mangle] pub extern "C" fn h_c04_large() {
    let n = SIZES[choose(8) as usize]; let m = lower(1);
    let names: Vec<String> = (0..n).map(|i| if i == n / 2 { format!("{}_{}", m, i) } else { format!("n{}", i) }).collect();
    let mut sc = ScreenLogic::new_empty(s("main")); let mut v = vec![];
    match choose(8) {
        0 => { let l: Vec<(&str, VariableType)> = names.iter().enumerate().map(|(i, x)| (x.as_str(), vt(i as u64 % 4))).collect(); sc.variables = Some(vpool(&l)) }
        1 => { let l: Vec<(&str, VariableType)> = names.iter().enumerate().map(|(i, x)| (x.as_str(), vt(i as u64 / 2 % 4))).collect(); sc.list_variables = Some(lpool(&l)) }
        2 => sc.components = Some(ComponentPool(names.iter().enumerate().map(|(i, x)| comp(x, i as u8)).collect())),
        3 => sc.events = Some(EventPool(names.iter().map(|x| event(x, "t")).collect())),
        4 => { let l: Vec<(&str, &str)> = names.iter().map(|x| (x.as_str(), x.as_str())).collect(); sc.more_blocks = Some(mpool(&l)) }
        5 => { sc.block_containers.insert(s("onCreate"), BlockContainer(names.iter().enumerate().map(|(i, x)| { let mut b = block(&i.to_string(), x); b.next_block = i as i32 + 1; b }).collect())); }
        6 => for x in &names { sc.block_containers.insert(x.clone(), BlockContainer(vec![block("1", x)])); },
        _ => for x in &names { let mut z = ScreenLogic::new_empty(x.clone()); z.variables = Some(vpool(&[(x, VariableType::String)])); z.block_containers.insert(s("b"), BlockContainer(vec![])); v.push(z) },
    }
    v.push(sc); roundtrip(&with(v), "large pools"); reach("end");
}
/// Long texts (15 to 1025 bytes) and 36 special texts (emoji, escapes, separators, look-alikes of numbers, headers and JSON) and many parameters in every text place of a logic file. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_long() {
    let t = wide(); let mut sc = ScreenLogic::new_empty(s("main")); let mut b = block("1", "a"); let k = choose(14); if k < 6 { assume(!t.contains('\n')) }
    match k {
        0 => sc.variables = Some(vpool(&[(&t, VariableType::String)])), 1 => sc.list_variables = Some(lpool(&[(&t, VariableType::String)])), 2 => sc.more_blocks = Some(mpool(&[(&t.replace(':', ";"), "x")])), 3 => sc.more_blocks = Some(mpool(&[("i", &t)])),
        4 => { sc.block_containers.insert(t.clone(), BlockContainer(vec![])); } 5 => sc.name = t.clone(), 6 => b.id = t.clone(), 7 => b.op_code = t.clone(), 8 => b.spec = t.clone(), 9 => b.type_name = t.clone(), 10 => b.parameters = vec![t.clone(), s("q")],
        11 => b.parameters = (0..t.len().min(130)).map(|i| format!("p{}", i)).collect(),
        12 => sc.components = Some(ComponentPool(vec![Component { id: t.clone(), param1: t.clone(), param2: t.clone(), param3: t.clone(), r#type: 1 }])), _ => sc.events = Some(EventPool(vec![event(&t, &t)])),
    }
    sc.block_containers.insert(s("onX"), BlockContainer(vec![b, block("2", "z")]));
    roundtrip(&with(vec![sc]), "long texts"); reach("end");
}
/// Repeated records: events, components and blocks of one container in which any of 3 records are equal to each other (all patterns), the same container in two screens, the same names in every pool. [jobs 4]
#[no_mangle] pub extern "C" fn h_c04_repeats() {
    let m = lower(1); let pat = [choose(3), choose(3), choose(3)]; let nm: Vec<String> = pat.iter().map(|k| format!("{}{}", m, k)).collect();
    let mut a = ScreenLogic::new_empty(s("main")); let mut b = ScreenLogic::new_empty(s("other"));
    for sc in [&mut a, &mut b] { match choose(5) {
        0 => sc.events = Some(EventPool(nm.iter().map(|x| event(x, "t")).collect())), 1 => sc.events = Some(EventPool(nm.iter().map(|x| event("onClick", x)).collect())), 2 => sc.components = Some(ComponentPool(nm.iter().map(|x| comp(x, 3)).collect())),
        3 => { sc.block_containers.insert(s("x"), BlockContainer(nm.iter().map(|x| block(x, "op")).collect())); sc.block_containers.insert(s("y"), BlockContainer(nm.iter().map(|x| block("1", x)).collect())); }
        _ => { let x = &nm[0]; sc.variables = Some(vpool(&[(x, VariableType::String)])); sc.list_variables = Some(lpool(&[(x, VariableType::String)])); sc.components = Some(ComponentPool(vec![comp(x, 3)])); sc.more_blocks = Some(mpool(&[(x, x)])); sc.events = Some(EventPool(vec![event(x, x)])); sc.block_containers.insert(x.clone(), BlockContainer(vec![block(x, x)])); }
    } }
    roundtrip(&with(vec![a, b]), "repeated records"); reach("end");
}
/// Names of 1 to 24 free letters, digits and underscores (screens and containers: 1 to 5) in each place that is a line of the file, texts of 1 to 24 free printable characters in each field of a record. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_words() {
    let k = choose(16); let t = if k == 4 || k == 5 { short_name() } else if k < 6 { any_name() } else { any_plain() }; let mut sc = ScreenLogic::new_empty(s("main")); let mut b = block("1", "a");
    match k {
        0 => sc.variables = Some(vpool(&[(&t, VariableType::String), ("?", VariableType::Integer)])), 1 => sc.list_variables = Some(lpool(&[(&t, VariableType::String), ("?", VariableType::Integer)])), 2 => sc.more_blocks = Some(mpool(&[(&t, "x"), ("?", "y")])), 3 => sc.more_blocks = Some(mpool(&[("i", &t)])),
        4 => { assume(!["var", "list", "components", "events", "func"].contains(&t.as_str())); sc.block_containers.insert(t.clone(), BlockContainer(vec![block("1", "a")])); } 5 => sc.name = t.clone(),
        6 => b.id = t.clone(), 7 => b.op_code = t.clone(), 8 => b.spec = t.clone(), 9 => b.type_name = t.clone(), 10 => b.r#type = t.clone(), 11 => b.parameters = vec![t.clone(), s("q")],
        12 => sc.components = Some(ComponentPool(vec![Component { id: t.clone(), ..comp("q", 1) }])), 13 => { let mut c = comp("q", 1); match choose(3) { 0 => c.param1 = t.clone(), 1 => c.param2 = t.clone(), _ => c.param3 = t.clone() } sc.components = Some(ComponentPool(vec![c])) }
        14 => sc.events = Some(EventPool(vec![event(&t, "b")])), _ => sc.events = Some(EventPool(vec![event("e", &t)])),
    }
    sc.block_containers.insert(s("on X"), BlockContainer(vec![b, block("2", "z")]));
    roundtrip(&with(vec![sc]), "any names and texts"); reach("end");
}
/// Two or three block containers of one screen, the name of one being two parts of 1 or 2 free lower-case letters with ".java_" between them, the others its parts; as a model and as a header. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_dotted() {
    let a = lower(1 + choose(2) as usize); let b = lower(1 + choose(2) as usize); let n = format!("{a}.java_{b}"); let mut sc = ScreenLogic::new_empty(s("main")); let mut l = vec![n.clone(), a.clone()]; if a != b { l.push(b) } if choose(2) == 1 { l.reverse() }
    for (i, x) in l.iter().enumerate() { sc.block_containers.insert(x.clone(), BlockContainer((0..i).map(|j| block(&j.to_string(), x)).collect())); }
    match BlockContainerHeader::parse(&format!("@{a}.java_{n}")) { Ok(h) => { check(h.screen_name == a && h.container_name == n, "the header is read whole"); check(h.reconstruct() == Ok(format!("@{a}.java_{n}")), "the header is written whole") } Err(_) => check(false, "the header is read") }
    roundtrip(&with(vec![sc]), "container names with a dot"); reach("end");
}
/// Two fields of a block record at once, each at an edge (0, -1, extreme, empty, or special), on an ordinary or an empty record. [jobs 8]
#[no_mangle] pub extern "C" fn h_c04_pairs() {
    let mut b = if choose(2) == 0 { block("10", "op") } else { Block { color: Color::from(0), id: s(""), next_block: 0, op_code: s(""), parameters: vec![], spec: s(""), sub_stack1: 0, sub_stack2: 0, r#type: s(""), type_name: s("") } };
    let set = |b: &mut Block, k: u64, e: u64| { let n = [0, -1, i32::MAX, 10][e as usize]; let t = s(["", "true", "@1", "List String"][e as usize]); match k { 0 => b.id = t, 1 => b.op_code = t, 2 => b.spec = t, 3 => b.r#type = t, 4 => b.type_name = t, 5 => b.next_block = n, 6 => b.sub_stack1 = n, 7 => b.sub_stack2 = n, 8 => b.color = Color::from(n as u32), _ => b.parameters = match e { 0 => vec![], 1 => vec![s("")], 2 => vec![s(""), s("")], _ => vec![s("a"), s("a"), s("a")] } } };
    let k = choose(9); set(&mut b, k, choose(4)); let j = choose(10); assume(j > k); set(&mut b, j, choose(4));
    match b.reconstruct() { Ok(t) => match Block::parse(&t) { Ok(c) => check(b == c, "block round trip"), Err(_) => check(false, "written block parses") }, Err(_) => check(false, "block writes") }
    reach("end");
}
/// Canonical component, event and block records: any one text empty (or any letter) and any one other empty as well, or any one number 0, 1 or -1: reproduced.
#[no_mangle] pub extern "C" fn h_c04_empty() {
    use crate::{lists::{places, put}, parse::{BLOCK, COMP, EVENT}}; let k = choose(3); let mut t = s([BLOCK, COMP, EVENT][k as usize]);
    if k == 1 { t = t.replace("param2\":\"\"", "param2\":\"b\"").replace("param3\":\"\"", "param3\":\"c\"") } if k == 0 { t = t.replace("typeName\":\"\"", "typeName\":\"View\"") }
    let (p, n) = places(&t);
    if choose(2) == 0 {
        let v = lower(1); let (a, c) = (choose(p.len() as u64) as usize, choose(p.len() as u64 + 1) as usize); let w = choose(2);
        let (hi, lo) = if c < p.len() && c > a { (Some(c), Some(a)) } else if c < a { (Some(a), Some(c)) } else { (Some(a), None) };
        for x in [hi, lo] { if let Some(x) = x { t = put(&t, p[x], if x == a && w == 1 { &v } else { "" }) } }
    } else { t = put(&t, n[choose(n.len() as u64) as usize], if k == 0 { ["0", "1", "-1"][choose(3) as usize] } else { ["0", "1"][choose(2) as usize] }) }
    let u = match k { 0 => Block::parse(&t).ok().and_then(|x| x.reconstruct().ok()), 1 => component::Component::parse(&t).ok().and_then(|x| x.reconstruct().ok()), _ => event::Event::parse(&t).ok().and_then(|x| x.reconstruct().ok()) };
    match u { Some(u) => { observe(u.as_bytes()); check(u == t, "empty texts and small numbers are reproduced") } None => check(false, "empty texts and small numbers are read") }
    reach("end");
}
