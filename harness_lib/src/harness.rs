//! C14: the set of generated items, for symbolic requests and exclusions.
use crate::facts::{Facts, FACTS32, FACTS64};
use crate::functions::{get_functions_and_deps, Function, FUNCTIONS};
use symrt::*;

/// A name of 1 to `max` symbolic bytes other than the separator.
fn any_name(max: u64, tag: &str) -> String {
    let n = choose(max, &format!("{} length", tag)) + 1;
    let mut v = Vec::with_capacity(n as usize);
    for i in 0..n {
        let c = u64_in(0x21, 0x7e, &format!("{}{}", tag, i)) as u8;
        assume(c != b',');
        v.push(c);
    }
    unsafe { String::from_utf8_unchecked(v) }
}

fn index_of(name: &str) -> Option<usize> {
    (0..FUNCTIONS.len()).find(|&i| FUNCTIONS[i].name == name)
}

fn longest() -> u64 {
    FUNCTIONS.iter().map(|f| f.name.len()).max().unwrap() as u64
}

/// What the request needs, found by iterating over the facts until nothing changes.
fn needed(facts: &[Facts], requested: &[Option<usize>], exclude: &[bool]) -> Vec<bool> {
    let mut set = vec![false; FUNCTIONS.len()];
    for r in requested {
        if let Some(i) = *r {
            set[i] = !exclude[i];
        }
    }
    loop {
        let mut changed = false;
        for i in 0..FUNCTIONS.len() {
            if !set[i] {
                continue;
            }
            // A group stands for its members; generated code needs what it refers to.
            let names = if facts[i].empty { FUNCTIONS[i].deps } else { facts[i].refs };
            for n in names {
                for j in 0..FUNCTIONS.len() {
                    let hit = if facts[i].empty { FUNCTIONS[j].name == *n } else { facts[j].defs.contains(n) };
                    if hit && !set[j] && !exclude[j] {
                        set[j] = true;
                        changed = true;
                    }
                }
            }
        }
        if !changed {
            return set;
        }
    }
}

fn judge(facts: &[Facts], bits: &str, names: &Vec<String>, exclude: &Vec<String>) {
    let out0 = printed();
    nopanic(Some("selecting functions panics"));
    let got: Vec<&Function> = get_functions_and_deps(names, exclude);
    nopanic(None);
    let req: Vec<Option<usize>> = names.iter().map(|n| index_of(n)).collect();
    let mut exc = vec![false; FUNCTIONS.len()];
    for e in exclude {
        if let Some(i) = index_of(e) {
            exc[i] = true;
        }
    }
    for r in &req {
        note(r.map_or("(unknown)", |i| FUNCTIONS[i].name));
    }
    for i in 0..FUNCTIONS.len() {
        if exc[i] {
            note("excluding");
            note(FUNCTIONS[i].name);
        }
    }
    note(bits);
    let base = FUNCTIONS.as_ptr() as usize;
    let size = std::mem::size_of::<Function>();
    let idx: Vec<usize> = got.iter().map(|f| (*f as *const Function as usize - base) / size).collect();
    let mut seen = vec![false; FUNCTIONS.len()];
    for &i in &idx {
        check(!seen[i], "an item is generated twice");
        seen[i] = true;
    }
    check(idx.windows(2).all(|w| w[0] < w[1]), "the items are not in the table's order");
    let want = needed(facts, &req, &exc);
    for i in 0..FUNCTIONS.len() {
        if seen[i] != want[i] {
            note(FUNCTIONS[i].name);
        }
        check(!(seen[i] && exc[i]), "an excluded item is generated");
        check(!want[i] || seen[i], "an item that is needed is not generated");
        check(want[i] || !seen[i], "an item is generated that nothing needs");
    }
    // every reference resolves, unless to something excluded
    let mut defined: Vec<&str> = Vec::new();
    for &i in &idx {
        for d in facts[i].defs {
            check(!defined.contains(d), "two items define the same name");
            defined.push(d);
        }
    }
    for &i in &idx {
        for r in facts[i].refs {
            let excluded = (0..FUNCTIONS.len()).any(|j| exc[j] && facts[j].defs.contains(r));
            if !excluded && !defined.contains(r) {
                note(FUNCTIONS[i].name);
                note(r);
                check(false, "generated code refers to something that is neither defined nor excluded");
            }
        }
    }
    check(printed() == out0, "selecting functions writes to standard output, where the code goes");
}

fn both(names: &Vec<String>, exclude: &Vec<String>) {
    judge(FACTS32, "32 bits", names, exclude);
    judge(FACTS64, "64 bits", names, exclude);
}

#[no_mangle]
pub extern "C" fn h_c14_one() {
    let names = vec![any_name(longest() + 1, "f")];
    both(&names, &vec![String::new()]);
}

#[no_mangle]
pub extern "C" fn h_c14_exclude() {
    let names = vec![any_name(longest(), "f")];
    let exclude = vec![any_name(longest(), "x")];
    both(&names, &exclude);
}

#[no_mangle]
pub extern "C" fn h_c14_two() {
    let names = vec![any_name(longest(), "f"), any_name(longest(), "g")];
    both(&names, &vec![String::new()]);
}

#[no_mangle]
pub extern "C" fn h_c14_two_exclude() {
    let names = vec![any_name(4, "f"), any_name(4, "g")];
    let exclude = vec![any_name(6, "x")];
    both(&names, &exclude);
}

#[no_mangle]
pub extern "C" fn h_c14_exclude_two() {
    let names = vec![any_name(5, "f")];
    let exclude = vec![any_name(6, "x"), any_name(6, "y")];
    both(&names, &exclude);
}

pub fn main() {
    symrt::setup();
    let want = std::env::args().nth(1).unwrap_or_default();
    let table: &[(&str, extern "C" fn())] =
        &[("h_c14_one", h_c14_one), ("h_c14_exclude", h_c14_exclude), ("h_c14_two", h_c14_two), ("h_c14_two_exclude", h_c14_two_exclude), ("h_c14_exclude_two", h_c14_exclude_two)];
    for (n, f) in table {
        if *n == want {
            f();
            eprintln!("REPLAY-PASSED");
            return;
        }
    }
    std::process::exit(47);
}
