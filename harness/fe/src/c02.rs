//! C02: comment removal. All texts up to a length over an alphabet, and all fragment products.
use crate::{guard, par, Report};
use crate::yul2ir::utils::remove_comments;

#[derive(PartialEq, Debug)]
pub enum Item { Ch(char), Gap }

/// Independent scanner. None: lexically malformed (unterminated string/comment or raw line break in a string).
pub fn reference(t: &[char], out: &mut Vec<Item>) -> bool {
    out.clear();
    let n = t.len();
    let mut i = 0;
    while i < n {
        match t[i] {
            q @ ('"' | '\'') => {
                out.push(Item::Ch(q));
                i += 1;
                loop {
                    if i >= n || t[i] == '\n' { return false; }
                    if t[i] == '\\' {
                        if i + 1 >= n { return false; }
                        // a string gap: backslash, blanks and line breaks, backslash
                        let mut j = i + 1;
                        while j < n && matches!(t[j], ' ' | '\n' | '\t' | '\r' | '\u{c}') { j += 1; }
                        if j > i + 1 && j < n && t[j] == '\\' {
                            out.extend(t[i..=j].iter().map(|c| Item::Ch(*c)));
                            i = j + 1;
                            continue;
                        }
                        if j > i + 1 { return false; } // no such escape
                        out.push(Item::Ch('\\'));
                        out.push(Item::Ch(t[i + 1]));
                        i += 2;
                    } else {
                        out.push(Item::Ch(t[i]));
                        i += 1;
                        if t[i - 1] == q { break; }
                    }
                }
            }
            '/' if i + 1 < n && t[i + 1] == '/' => {
                i += 2;
                while i < n && t[i] != '\n' { i += 1; }
            }
            '/' if i + 1 < n && t[i + 1] == '*' => {
                let mut j = i + 2;
                loop {
                    if j + 1 >= n { return false; }
                    if t[j] == '*' && t[j + 1] == '/' { break; }
                    j += 1;
                }
                i = j + 2;
                out.push(Item::Gap);
            }
            c => { out.push(Item::Ch(c)); i += 1; }
        }
    }
    true
}
fn word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' || c == '$' || c == '.' }

/// A removed block comment may leave nothing or one blank; it must leave a blank where it alone separated two words.
fn matches(e: &[Item], a: &[char]) -> bool {
    fn go(e: &[Item], a: &[char], prev: Option<char>) -> bool {
        let (mut i, mut j, mut prev) = (0, 0, prev);
        while i < e.len() {
            match e[i] {
                Item::Ch(c) => {
                    if j >= a.len() || a[j] != c { return false; }
                    prev = Some(c);
                    i += 1; j += 1;
                }
                Item::Gap => {
                    if j < a.len() && a[j] == ' ' && go(&e[i + 1..], &a[j + 1..], Some(' ')) { return true; }
                    let next = e[i + 1..].iter().find_map(|x| if let Item::Ch(c) = x { Some(*c) } else { None });
                    if let (Some(p), Some(q)) = (prev, next) {
                        if word(p) && word(q) {
                            // some later gap of the same run may provide the blank
                            if e.get(i + 1) != Some(&Item::Gap) { return false; }
                        }
                    }
                    i += 1;
                }
            }
        }
        j == a.len()
    }
    go(e, a, None)
}
fn show(e: &[Item]) -> String {
    e.iter().map(|x| match x { Item::Ch(c) => c.to_string(), Item::Gap => "<comment>".into() }).collect()
}

fn check(r: &mut Report, text: &str, t: &[char], exp: &mut Vec<Item>, act: &mut Vec<char>) {
    r.states += 1;
    let ok = reference(t, exp);
    r.transitions += 1;
    match guard(text, || remove_comments(text)) {
        Err(p) => r.viol(text, if ok { "comments removed" } else { "termination without panic" }, &format!("panic: {p}")),
        Ok(a) => {
            if !ok { r.class("malformed (termination only)"); return; }
            act.clear();
            act.extend(a.chars());
            let plain = exp.len() == act.len() && exp.iter().zip(act.iter()).all(|(x, y)| matches!(x, Item::Ch(c) if c == y));
            if plain || matches(exp, act) {
                r.class(if !exp.contains(&Item::Gap) { if act.len() == t.len() { "nothing to remove" } else { "line comments" } } else { "block comments" });
            } else {
                r.viol(text, &show(exp), &a);
            }
        }
    }
}

const SYM: [char; 8] = ['/', '*', '"', '\\', '\n', 'a', ' ', '\''];
const FRAG: [&str; 28] = [
    "a", " ", "\n", "{}", "\"\"", "\"//\"", "\"/*\"", "\"*/\"", "\"\\\"\"", "\"\\\\\"", "\"it's\"", "/**/", "/***/", "/****/", "/* x */",
    "/** x **/", "/* \" */", "/*/*/", "/* // */", "// \"\n", "// /*\n", "//\n", "/* it's\n*/", ":=",
    "\"\\ \n \\//\"", "\"\\\t\\\"", "\"/*\\\n\\*/\"", "\"\\ \\\\\"",
];

pub fn explore(thorough: bool) -> Report {
    let maxlen = if thorough { 10 } else { 7 };
    let maxfrag = if thorough { 5 } else { 4 };
    let mut rep = par(|sh, n| {
        let mut r = Report::default();
        let (mut e, mut a) = (Vec::new(), Vec::new());
        for len in 0..=maxlen {
            let total = (SYM.len() as u64).pow(len as u32);
            let mut k = sh as u64;
            let mut t = vec!['/'; len];
            let mut s = String::new();
            while k < total {
                let mut x = k;
                for c in t.iter_mut() { *c = SYM[(x % 8) as usize]; x /= 8; }
                s.clear();
                s.extend(t.iter());
                check(&mut r, &s, &t, &mut e, &mut a);
                k += n as u64;
            }
        }
        for len in 1..=maxfrag {
            let total = (FRAG.len() as u64).pow(len as u32);
            let mut k = sh as u64;
            while k < total {
                let mut x = k;
                let mut s = String::new();
                for _ in 0..len { s.push_str(FRAG[(x % FRAG.len() as u64) as usize]); x /= FRAG.len() as u64; }
                let t: Vec<char> = s.chars().collect();
                check(&mut r, &s, &t, &mut e, &mut a);
                k += n as u64;
            }
        }
        r
    });
    // lengths around powers of two: long comments, long strings, long code
    for n in (0..140).chain([255, 256, 257, 1023, 1024, 4095, 4096, 65535, 65536]) {
        for f in [|n: usize| format!("/*{}*/b", "*".repeat(n)), |n: usize| format!("/*{}*/b", "/".repeat(n)), |n: usize| format!("//{}\nb", "*".repeat(n)),
                  |n: usize| format!("\"{}\"b", "/".repeat(n)), |n: usize| format!("\"{}\"b//c", "\\\"".repeat(n)), |n: usize| format!("a{}b/*\u{e9}\u{4e2d}*/c", " ".repeat(n)),
                  |n: usize| format!("a/*{}*/ \"{}\"\n", "\n".repeat(n), "/*".repeat(n)), |n: usize| "/**/".repeat(n) + "x", |n: usize| "x\u{e9} //\u{e9}\n".repeat(n)] {
            let s = f(n);
            let t: Vec<char> = s.chars().collect();
            check(&mut rep, &s, &t, &mut Vec::new(), &mut Vec::new());
        }
    }
    // every pair of characters in every place
    let mut cs: Vec<char> = (1u8..128).map(char::from).collect();
    cs.extend("\u{80}\u{a0}\u{e9}\u{ff}\u{100}\u{12f}\u{22a}\u{2028}\u{222a}\u{2f2a}\u{4e2d}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{1f600}\u{10ffff}".chars());
    let pairs = par(|sh, n| {
        let mut r = Report::default();
        let (mut e, mut a) = (Vec::new(), Vec::new());
        for (k, &x) in cs.iter().enumerate() {
            if k % n != sh { continue; }
            for &y in &cs {
                for s in [format!("{x}{y}"), format!("{x}/**/{y}"), format!("a{x}//\n{y}b"), format!("\"{x}{y}\"//\nc"), format!("\"\\{x}{y}\"//\nc"), format!("/*{x}{y}*/c"),
                          format!("//{x}{y}\nc"), format!("{x}/{y}"), format!("a/*/*{x}*/{y}"), format!("a//{x}\n{y}"), format!("'{x}{y}'/**/"), format!("// b{x}\n//{y} c\nd")] {
                    let t: Vec<char> = s.chars().collect();
                    // whether a carriage return alone ends a line is left open
                    if s.contains("//") && (0..t.len()).any(|i| t[i] == '\r' && t.get(i + 1) != Some(&'\n')) { continue; }
                    check(&mut r, &s, &t, &mut e, &mut a);
                }
            }
        }
        // all short texts over a wider alphabet
        let wide = ['/', '*', '"', '\\', '\n', 'a', ' ', '\'', '\t', '0', '.', '{', '\u{e9}', '\u{1f600}', '$'];
        for len in 0..=if thorough { 6 } else { 5 } {
            let mut k = sh as u64;
            let mut t = vec!['/'; len];
            while k < (wide.len() as u64).pow(len as u32) {
                let mut x = k;
                for c in t.iter_mut() { *c = wide[(x % wide.len() as u64) as usize]; x /= wide.len() as u64; }
                let s: String = t.iter().collect();
                check(&mut r, &s, &t, &mut e, &mut a);
                k += n as u64;
            }
        }
        r
    });
    rep.merge(pairs);
    rep.samples = vec!["a/**/\"//\"\n".into(), "\"\\\"//\"a".into(), "/***/ a".into()];
    rep
}
pub fn replay(text: &str) {
    let mut r = Report::default();
    let t: Vec<char> = text.chars().collect();
    check(&mut r, text, &t, &mut Vec::new(), &mut Vec::new());
    r.print();
}
