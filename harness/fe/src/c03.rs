//! C03, front-end part: string, number and hex literals as the parser returns them.
use crate::{guard, par, Report};
use crate::yul2ir::{ast::*, yul};

/// What the body of a double-quoted literal denotes. Supported: the escapes the grammar documents.
/// Other: not in the supported set (may be rejected, or must decode as the Yul rules say if accepted).
pub enum Ref { Supported(Vec<u8>), Other(Option<Vec<u8>>), NotAString }
pub fn reference(body: &[char]) -> Ref {
    let mut out: Vec<u8> = Vec::new();
    let mut sup = true;
    let mut known = true; // meaning defined by the Yul rules
    let mut i = 0;
    let n = body.len();
    let push = |out: &mut Vec<u8>, c: char| { let mut b = [0; 4]; out.extend(c.encode_utf8(&mut b).bytes()); };
    while i < n {
        let c = body[i];
        if c == '"' { return Ref::NotAString; }
        if c == '\n' { return Ref::NotAString; }
        if c == '\r' { sup = false; }
        if c != '\\' { push(&mut out, c); i += 1; continue; }
        if i + 1 >= n { return Ref::NotAString; }
        let d = body[i + 1];
        match d {
            '"' => { out.push(b'"'); i += 2; }
            '\\' => { out.push(b'\\'); i += 2; }
            'n' => { out.push(b'\n'); i += 2; }
            't' => { out.push(b'\t'); i += 2; }
            'r' => { sup = false; out.push(b'\r'); i += 2; }
            '\'' => { sup = false; out.push(b'\''); i += 2; }
            'x' => {
                let h: String = body[(i + 2).min(n)..(i + 4).min(n)].iter().collect();
                match (h.len(), u8::from_str_radix(&h, 16)) {
                    (2, Ok(v)) if h.chars().all(|c| c.is_ascii_hexdigit()) => {
                        out.push(v);
                        if v > 0x7f { sup = false; }
                        i += 4;
                    }
                    _ => { known = false; sup = false; i += 2; }
                }
            }
            'u' => {
                // \u{HHHH} (the grammar's form) or \uHHHH (Yul's form)
                let brace = body.get(i + 2) == Some(&'{');
                let st = i + 2 + brace as usize;
                let h: String = body[st.min(n)..(st + 4).min(n)].iter().collect();
                let closed = !brace || body.get(st + 4) == Some(&'}');
                if h.chars().count() == 4 && h.chars().all(|c| c.is_ascii_hexdigit()) && closed {
                    let v = u32::from_str_radix(&h, 16).unwrap();
                    match char::from_u32(v) { Some(c) => push(&mut out, c), None => { known = false; } }
                    if !brace || !known { sup = false; }
                    i = st + 4 + brace as usize;
                } else { known = false; sup = false; i += 2; }
            }
            ' ' | '\n' | '\t' | '\r' | '\x0c' => {
                // gap: backslash, white space, backslash
                let mut j = i + 1;
                while j < n && matches!(body[j], ' ' | '\n' | '\t' | '\r' | '\x0c') { j += 1; }
                if j < n && body[j] == '\\' { i = j + 1; } else { known = false; sup = false; i = j; if d == '\n' { return Ref::NotAString; } }
            }
            _ => { known = false; sup = false; i += 2; }
        }
    }
    if sup { Ref::Supported(out) } else if known { Ref::Other(Some(out)) } else { Ref::Other(None) }
}

fn get_string(src: &str) -> Result<String, String> {
    let o = guard(src, || yul::ObjectParser::new().parse(src).map_err(|e| format!("{e}")))??;
    match o.code.statements.first() {
        Some(Statement::Assignment(a)) => match &a.value {
            Expression::Literal(Literal::StringLiteral(s, _)) => Ok(s.str.clone()),
            x => Err(format!("not a string literal: {x:?}")),
        },
        x => Err(format!("not an assignment: {x:?}")),
    }
}
fn check_string(r: &mut Report, body: &[char]) {
    let b: String = body.iter().collect();
    let rf = reference(body);
    if let Ref::NotAString = rf { return; }
    r.states += 1;
    r.transitions += 1;
    let src = format!("object \"o\" {{ code {{ a := \"{b}\" }} }}");
    let got = match guard(&src, || get_string(&src)) { Ok(x) => x, Err(p) => { r.viol(&src, "a result", &format!("panic {p}")); return; } };
    match (&rf, &got) {
        (Ref::Supported(v), Ok(g)) if g.as_bytes() == &v[..] => r.class("supported, decoded"),
        (Ref::Supported(v), g) => r.viol(&src, &format!("bytes {v:02x?}"), &format!("{g:?}")),
        (Ref::Other(_), Err(_)) => r.class("unsupported, rejected"),
        (Ref::Other(Some(v)), Ok(g)) if g.as_bytes() == &v[..] => r.class("extra escape, decoded"),
        (Ref::Other(v), Ok(g)) => r.viol(&src, &format!("rejected, or bytes {v:02x?}"), &format!("{g:?}")),
        _ => {}
    }
}
fn check_literal(r: &mut Report, lit: &str) {
    // numbers and hex data must come back as the text that was written
    r.states += 1;
    r.transitions += 1;
    let src = format!("object \"o\" {{ code {{ a := {lit} }} }}");
    let got = guard(&src, || yul::ObjectParser::new().parse(&src).map_err(|e| format!("{e}")));
    let s = match got {
        Ok(Ok(o)) => match o.code.statements.first() {
            Some(Statement::Assignment(a)) => match &a.value {
                Expression::Literal(Literal::HexNumberLiteral(h, None)) => format!("hex {}", h.hex),
                Expression::Literal(Literal::DecimalNumberLiteral(h, None)) => format!("dec {}", h.dec),
                Expression::Literal(Literal::TrueLiteral(None)) => "true".into(),
                Expression::Literal(Literal::FalseLiteral(None)) => "false".into(),
                x => format!("{x:?}"),
            },
            x => format!("{x:?}"),
        },
        x => format!("{:?}", x.map(|y| y.map(|_| ()))),
    };
    let want = if lit.starts_with("0x") { format!("hex {lit}") } else if lit == "true" || lit == "false" { lit.into() } else { format!("dec {lit}") };
    // wider than a word: refused here or, kept as written, by the code generator
    let digits = lit.trim_start_matches("0x").trim_start_matches('0');
    let wide = if lit.starts_with("0x") { digits.len() > 64 } else { (digits.len(), digits) > (78, "115792089237316195423570985008687907853269984665640564039457584007913129639935") };
    if s == want { r.class("number kept"); } else if wide && s.starts_with("Ok(Err(") { r.class("wider than a word, refused"); } else { r.viol(&src, &want, &s); }
}
fn check_data(r: &mut Report, hexes: &[String]) {
    r.states += 1;
    r.transitions += 1;
    let src = format!("object \"o\" {{ code {{ }} data \"d.1_x\" {} }}", hexes.iter().map(|h| format!("hex\"{h}\"")).collect::<Vec<_>>().join(" "));
    let got = guard(&src, || yul::ObjectParser::new().parse(&src).map_err(|e| format!("{e}")));
    let s = match got {
        Ok(Ok(o)) => o.inner_segments.iter().map(|x| match x {
            InnerSegment::Data(n, v) => format!("{n}:{}", v.iter().map(|l| match l { DataLiteral::HexLiteral(h) => h.to_lowercase(), DataLiteral::StringLiteral(h) => h.bytes().map(|b| format!("{b:02x}")).collect() }).collect::<Vec<_>>().join("")),
            _ => "object".into() }).collect::<Vec<_>>().join(";"),
        x => format!("{:?}", x.map(|y| y.map(|_| ()))),
    };
    let want = format!("d.1_x:{}", hexes.join("").to_lowercase());
    if s == want { r.class("data kept"); } else { r.viol(&src, &want, &s); }
}

const ATOMS: [&str; 30] = ["a", " ", "\u{e9}", "\\\"", "\\\\", "\\n", "\\t", "\\x41", "\\x7F", "\\x00", "\\x80", "\\xFF", "\\x4f", "\\u{0041}", "\\u{00E9}", "\\u{D800}", "\\u{FFFF}",
    "\\ \\", "\\\n\\", "\\ \t\n \\", "'", "//", "\\r", "\\'", "n", "x41", "{", "0", "\\u0041", "<"];
const RAW: [char; 9] = ['\\', 'x', '4', 'u', '{', '}', 'A', ' ', 'n'];

pub fn explore(thorough: bool) -> Report {
    let (la, lr) = if thorough { (4, 7) } else { (3, 5) };
    let mut rep = par(|sh, n| {
        let mut r = Report::default();
        for len in 0..=la {
            let total = (ATOMS.len() as u64).pow(len);
            let mut k = sh as u64;
            while k < total {
                let mut x = k;
                let mut s = String::new();
                for _ in 0..len { s.push_str(ATOMS[(x % ATOMS.len() as u64) as usize]); x /= ATOMS.len() as u64; }
                check_string(&mut r, &s.chars().collect::<Vec<_>>());
                k += n as u64;
            }
        }
        for len in 0..=lr {
            let total = (RAW.len() as u64).pow(len);
            let mut k = sh as u64;
            while k < total {
                let mut x = k;
                let mut t = Vec::new();
                for _ in 0..len { t.push(RAW[(x % RAW.len() as u64) as usize]); x /= RAW.len() as u64; }
                check_string(&mut r, &t);
                k += n as u64;
            }
        }
        // every single byte as \xNN and every \u{HHHH}
        if sh == 0 {
            for b in 0..=255u32 {
                for f in [format!("\\x{b:02X}"), format!("\\x{b:02x}"), format!("p\\x{b:02X}q\\x{b:02X}")] { check_string(&mut r, &f.chars().collect::<Vec<_>>()); }
                if let Some(c) = char::from_u32(b) { check_string(&mut r, &[c]); check_string(&mut r, &['\\', c]); check_string(&mut r, &['a', c, 'b']); }
            }
        }
        if sh == 1 % n {
            let step = if thorough { 1 } else { 37 };
            let mut c = 0;
            while c <= 0xffff { check_string(&mut r, &format!("\\u{{{c:04X}}}").chars().collect::<Vec<_>>()); c += step; }
            for l in 0..70usize { check_string(&mut r, &vec!['z'; l]); check_string(&mut r, &"\\\\".repeat(l).chars().collect::<Vec<_>>()); }
        }
        if sh == 2 % n {
            for bits in 0..=256u32 {
                // hexadecimal: 2^bits - 1, 2^bits, 2^bits + 1 as text, with leading zeros and mixed case
                let mut d = vec!['0'; 65];
                if bits < 256 { let pos = 64 - (bits / 4) as usize; d[pos] = char::from_digit(1 << (bits % 4), 16).unwrap(); }
                let full: String = d.iter().collect();
                let t = full.trim_start_matches('0');
                let t = if t.is_empty() { "0" } else { t };
                for l in [t.to_string(), full[1..].to_string(), t.replace('0', "f"), t.replace('0', "F"), t.replace('0', "aB"), format!("00{t}")] { check_literal(&mut r, &format!("0x{l}")); }
            }
            for n in 1..=80usize { for c in ['0', '1', '9'] { check_literal(&mut r, &c.to_string().repeat(n)); } }
            for v in ["true", "false", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "0"] { check_literal(&mut r, v); }
            for b in 0..=255u32 { check_data(&mut r, &[format!("{b:02x}")]); check_data(&mut r, &[format!("{b:02X}0{:x}", b % 16)]); }
            for n in 1..100usize { check_data(&mut r, &["1f".repeat(n)]); }
            for a in ["00", "ff", "0123", "hex"] { for b in ["00", "eE", "00ff"] { if a != "hex" { check_data(&mut r, &[a.into(), b.into()]); } } }
        }
        r
    });
    rep.samples = vec!["\"\\x41\\u{00E9}\"".into(), "\"\\\\ \\\\\"".into(), "0xfF00".into(), "hex\"00ff\"".into()];
    rep
}
pub fn replay(src: &str) {
    let mut r = Report::default();
    if let (Some(i), Some(j)) = (src.find(":= \""), src.rfind("\" } }")) { check_string(&mut r, &src[i + 4..j].chars().collect::<Vec<_>>()); }
    else if let Some(i) = src.find(":= ") { check_literal(&mut r, src[i + 3..].trim_end_matches(|c| c == '}' || c == ' ')); }
    else { println!("{:?}", yul::ObjectParser::new().parse(src)); }
    r.print();
}
