//! C01: the parser. The prefix tree of the grammar's language is explored breadth first over a token alphabet:
//! every viable prefix up to a depth is extended by every token; the real parser must agree with an independent
//! recursive-descent parser on rejecting / accepting, and on the tree of everything accepted. Complete programs
//! are re-parsed in several spellings of the space between tokens. Second, all statement trees up to a size.
use crate::{guard, par, Report};
use crate::yul2ir::{ast::*, utils, yul};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K { Kw, Punct, Name, Num, Str, Data, Hex }
pub type Tok = (&'static str, K);

// ---------- reference parser over tokens ----------
pub enum Fail { Eof, Bad }
type R<T> = Result<T, Fail>;
pub struct P<'a> { t: &'a [Tok], i: usize }
impl<'a> P<'a> {
    pub fn new(t: &'a [Tok]) -> Self { P { t, i: 0 } }
    fn peek(&self) -> Option<Tok> { self.t.get(self.i).copied() }
    fn is(&self, s: &str) -> bool { self.peek().map_or(false, |x| x.0 == s && matches!(x.1, K::Kw | K::Punct)) }
    fn next(&mut self) -> R<Tok> { let x = self.peek().ok_or(Fail::Eof)?; self.i += 1; Ok(x) }
    fn eat(&mut self, s: &str) -> R<()> { if self.peek().is_none() { return Err(Fail::Eof); } if self.is(s) { self.i += 1; Ok(()) } else { Err(Fail::Bad) } }
    fn kind(&mut self, k: K) -> R<&'static str> { let x = self.peek().ok_or(Fail::Eof)?; if x.1 == k { self.i += 1; Ok(x.0) } else { Err(Fail::Bad) } }
    pub fn object(&mut self) -> R<String> {
        self.eat("object")?;
        let n = self.kind(K::Str)?;
        self.eat("{")?;
        self.eat("code")?;
        let mut r = format!("(object {} {}", n.trim_matches('"'), self.block()?);
        loop {
            match self.peek() {
                None => return Err(Fail::Eof),
                Some((s, K::Data)) => {
                    self.i += 1;
                    r += &format!(" (data {}", &s[6..s.len() - 1]);
                    while let Some((h, K::Hex)) = self.peek() { self.i += 1; r += " "; r += &h[4..h.len() - 1]; }
                    r += ")";
                }
                Some(_) if self.is("object") => { r += " "; r += &self.object()?; }
                Some(_) => { self.eat("}")?; return Ok(r + ")"); }
            }
        }
    }
    fn block(&mut self) -> R<String> {
        self.eat("{")?;
        let mut r = String::from("{");
        loop {
            if self.is("}") { self.i += 1; return Ok(r + "}"); }
            r += &self.stmt()?;
            r += ";";
        }
    }
    fn typed(&mut self) -> R<String> {
        let mut r = String::new();
        loop {
            r += self.kind(K::Name)?;
            if self.is(":") { self.i += 1; r += ":"; r += self.kind(K::Name)?; }
            if self.is(",") { self.i += 1; r += ","; } else { return Ok(r); }
        }
    }
    fn stmt(&mut self) -> R<String> {
        let t = self.peek().ok_or(Fail::Eof)?;
        if t.1 == K::Name {
            self.i += 1;
            let n = self.peek().ok_or(Fail::Eof)?;
            if n.0 == "(" { self.i -= 1; return self.call(); }
            let mut r = t.0.to_string();
            while self.is(",") { self.i += 1; r += ","; r += self.kind(K::Name)?; }
            self.eat(":=")?;
            return Ok(format!("(set {r} {})", self.expr()?));
        }
        match (t.0, t.1) {
            ("{", K::Punct) => self.block(),
            (_, K::Kw) => {
                if !["function", "let", "if", "for", "switch", "leave", "break", "continue"].contains(&t.0) { return Err(Fail::Bad); }
                self.i += 1;
                match t.0 {
                    "function" => {
                        let n = self.kind(K::Name)?;
                        self.eat("(")?;
                        let p = if self.is(")") { String::new() } else { self.typed()? };
                        self.eat(")")?;
                        let mut r = String::new();
                        if self.is("->") { self.i += 1; r = self.typed()?; }
                        else if self.peek().is_none() { return Err(Fail::Eof); }
                        Ok(format!("(fun {n} [{p}] [{r}] {})", self.block()?))
                    }
                    "let" => {
                        let v = self.typed()?;
                        if self.is(":=") { self.i += 1; return Ok(format!("(let {v} {})", self.expr()?)); }
                        Ok(format!("(let {v})"))
                    }
                    "if" => { let e = self.expr()?; Ok(format!("(if {e} {})", self.block()?)) }
                    "for" => { let a = self.block()?; let e = self.expr()?; let b = self.block()?; Ok(format!("(for {a} {e} {b} {})", self.block()?)) }
                    "switch" => {
                        let e = self.expr()?;
                        let mut r = format!("(switch {e}");
                        let mut any = false;
                        loop {
                            if self.is("case") { self.i += 1; any = true; let l = self.literal()?; r += &format!(" (case {l} {})", self.block()?); continue; }
                            if self.is("default") { self.i += 1; return Ok(r + &format!(" (default {}))", self.block()?)); }
                            if !any { return Err(if self.peek().is_none() { Fail::Eof } else { Fail::Bad }); }
                            return Ok(r + ")");
                        }
                    }
                    s => Ok(format!("({s})")),
                }
            }
            _ => Err(Fail::Bad),
        }
    }
    fn call(&mut self) -> R<String> {
        let mut r = format!("(call {}", self.kind(K::Name)?);
        self.eat("(")?;
        if self.is(")") { self.i += 1; return Ok(r + ")"); }
        loop {
            r += " ";
            r += &self.expr()?;
            if self.is(",") { self.i += 1; } else { break; }
        }
        self.eat(")")?;
        Ok(r + ")")
    }
    fn expr(&mut self) -> R<String> {
        let t = self.peek().ok_or(Fail::Eof)?;
        if t.1 == K::Name {
            if self.t.get(self.i + 1).map_or(false, |x| x.0 == "(") { return self.call(); }
            self.i += 1;
            return Ok(t.0.to_string());
        }
        self.literal()
    }
    fn literal(&mut self) -> R<String> {
        let t = self.next()?;
        if !(matches!(t.1, K::Num | K::Str) || (t.1 == K::Kw && (t.0 == "true" || t.0 == "false"))) { return Err(Fail::Bad); }
        let mut r = format!("'{}", t.0);
        if self.is(":") { self.i += 1; r += ":"; r += self.kind(K::Name)?; }
        Ok(r)
    }
}
fn reference(t: &[Tok]) -> R<String> {
    let mut p = P::new(t);
    let r = p.object()?;
    if p.i == t.len() { Ok(r) } else { Err(Fail::Bad) }
}

// ---------- dump of the real tree in the same notation ----------
fn d_obj(o: &Object) -> String {
    let mut r = format!("(object {} {}", o.name, d_block(&o.code));
    for s in &o.inner_segments {
        match s {
            InnerSegment::Object(o) => { r += " "; r += &d_obj(o); }
            InnerSegment::Data(n, l) => {
                r += &format!(" (data {n}");
                for x in l { match x { DataLiteral::HexLiteral(h) => { r += " "; r += h; } DataLiteral::StringLiteral(h) => { r += " str:"; r += h; } } }
                r += ")";
            }
        }
    }
    r + ")"
}
fn d_block(b: &Block) -> String { let mut r = String::from("{"); for s in &b.statements { r += &d_stmt(s); r += ";"; } r + "}" }
fn d_typed(v: &[TypedIdentifier]) -> String {
    v.iter().map(|t| match &t.type_name { Some(n) => format!("{}:{}", t.identifier.name, n.type_name.name), None => t.identifier.name.clone() }).collect::<Vec<_>>().join(",")
}
fn d_stmt(s: &Statement) -> String {
    match s {
        Statement::Block(b) => d_block(b),
        Statement::Assignment(a) => format!("(set {} {})", a.identifiers.iter().map(|x| x.name.as_str()).collect::<Vec<_>>().join(","), d_expr(&a.value)),
        Statement::VariableDeclaration(v) => match &v.value { Some(e) => format!("(let {} {})", d_typed(&v.identifiers), d_expr(e)), None => format!("(let {})", d_typed(&v.identifiers)) },
        Statement::If(i) => format!("(if {} {})", d_expr(&i.cond), d_block(&i.body)),
        Statement::For(f) => format!("(for {} {} {} {})", d_block(&f.init_block), d_expr(&f.condition), d_block(&f.post_block), d_block(&f.execution_block)),
        Statement::Switch(s) => {
            let mut r = format!("(switch {}", d_expr(&s.condition));
            let mut def = |d: &SwitchDefault, r: &mut String| *r += &format!(" (default {})", d_block(&d.body));
            match &s.opt {
                SwitchOptions::Cases(c, d) => { for c in c { r += &format!(" (case {} {})", d_lit(&c.case), d_block(&c.body)); } if let Some(d) = d { def(d, &mut r); } }
                SwitchOptions::Default(d) => def(d, &mut r),
            }
            r + ")"
        }
        Statement::Leave => "(leave)".into(),
        Statement::Break => "(break)".into(),
        Statement::Continue => "(continue)".into(),
        Statement::FunctionDefinition(f) => format!("(fun {} [{}] [{}] {})", f.name.name, d_typed(&f.params), d_typed(&f.returns), d_block(&f.body)),
        Statement::FunctionCall(c) => d_call(c),
        #[allow(unreachable_patterns)]
        _ => "(?)".into(),
    }
}
fn d_call(c: &FunctionCall) -> String { let mut r = format!("(call {}", c.id.name); for a in &c.arguments { r += " "; r += &d_expr(a); } r + ")" }
fn d_expr(e: &Expression) -> String {
    match e { Expression::Literal(l) => d_lit(l), Expression::Identifier(i) => i.name.clone(), Expression::FunctionCall(c) => d_call(c) }
}
fn d_lit(l: &Literal) -> String {
    let (s, t) = match l {
        Literal::TrueLiteral(t) => ("true".to_string(), t),
        Literal::FalseLiteral(t) => ("false".to_string(), t),
        Literal::HexNumberLiteral(n, t) => (n.hex.clone(), t),
        Literal::DecimalNumberLiteral(n, t) => (n.dec.clone(), t),
        Literal::StringLiteral(n, t) => (format!("\"{}\"", n.str), t),
    };
    match t { Some(t) => format!("'{s}:{}", t.name), None => format!("'{s}") }
}
pub enum Real { Tree(String), MaybeMore, Reject, Panic(String) }
fn real(src: &str) -> Real {
    match guard(src, || yul::ObjectParser::new().parse(src).map(|o| d_obj(&o)).map_err(|e| matches!(e, lalrpop_util::ParseError::UnrecognizedEof { .. }))) {
        Err(p) => Real::Panic(p),
        Ok(Ok(t)) => Real::Tree(t),
        Ok(Err(true)) => Real::MaybeMore,
        Ok(Err(false)) => Real::Reject,
    }
}

// ---------- spellings ----------
fn spell(t: &[Tok], mode: usize) -> String {
    let mut r = String::new();
    let wordy = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '"';
    for (k, (s, _)) in t.iter().enumerate() {
        if k > 0 {
            let l = r.chars().last().unwrap();
            let f = s.chars().next().unwrap();
            let need = (wordy(l) && wordy(f)) || (l == ':' && f == '=') || (l == ':' && f == ':') || (l == '-' && f == '>');
            r += match mode {
                0 => " ",
                1 => "\n\t ",
                2 => if need { " " } else { "" },
                3 => "\r\n",
                4 => "/* } { */ ",
                5 => "// ) \"\n",
                6 => if need { "/***/ " } else { "/**/" },
                7 => " /** @src 0:1:2 \"a\\\" b\" **/\n",
                _ => unreachable!(),
            };
        }
        r += s;
    }
    match mode { 1 => format!("\n {r}\n"), 5 => format!("// x\n{r}\n//"), 4 => format!("/* a */{r}/* b */"), _ => r }
}
const MODES: usize = 8;
fn text(t: &[Tok], mode: usize) -> String {
    let s = spell(t, mode);
    if mode >= 4 { guard(&s, || utils::remove_comments(&s)).unwrap_or_else(|p| format!("<panic {p}>")) } else { s }
}

// ---------- exploration of the language's prefix tree ----------
const KW: fn(&'static str) -> Tok = |s| (s, K::Kw);
fn tok(s: &'static str) -> Tok {
    let k = if s.starts_with("data \"") { K::Data } else if s.starts_with("hex\"") { K::Hex } else if s.starts_with('"') { K::Str }
        else if s.as_bytes()[0].is_ascii_digit() { K::Num }
        else if ["object", "code", "function", "let", "if", "for", "switch", "case", "default", "leave", "break", "continue", "true", "false"].contains(&s) { K::Kw }
        else if s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_' { K::Name } else { K::Punct };
    (s, k)
}
fn toks(s: &[&'static str]) -> Vec<Tok> { s.iter().map(|x| tok(x)).collect() }

fn check_program(r: &mut Report, t: &[Tok], want: &str, modes: std::ops::Range<usize>) {
    for m in modes {
        let s = text(t, m);
        r.transitions += 1;
        match real(&s) {
            Real::Tree(d) if d == want => {}
            Real::Tree(d) => r.viol(&spell(t, m), want, &d),
            Real::MaybeMore | Real::Reject => r.viol(&spell(t, m), want, "rejected"),
            Real::Panic(p) => r.viol(&spell(t, m), want, &format!("panic {p}")),
        }
    }
    r.class("accepted with equal tree");
}
/// The real parser still hopes for more input where the grammar allows nothing: look for a completion it accepts.
fn hunt(r: &mut Report, base: &[Tok], alpha: &[Tok]) {
    let closers: [&[&'static str]; 7] = [&[], &["}", "}"], &["a", "}", "}"], &["{", "}", "}", "}"], &[")", "}", "}"], &[")", "{", "}", "}", "}"], &["}"]];
    for x in alpha.iter().map(|x| Some(*x)).chain([None]) {
        for c in closers {
            let mut t = base.to_vec();
            t.extend(x);
            t.extend(toks(c));
            for d in 0..4 {
                if d > 0 { t.push(tok("}")); }
                r.transitions += 1;
                if let Real::Tree(d) = real(&spell(&t, 0)) {
                    if reference(&t).is_err() { r.viol(&spell(&t, 0), "rejected", &d); return; }
                }
            }
        }
    }
}
fn bfs(start: &[Tok], alpha: &[Tok], depth: usize) -> Report {
    // frontier of viable prefixes, expanded level by level
    let mut frontier: Vec<Vec<u8>> = vec![vec![]];
    let mut rep = Report::default();
    let mut level = 0;
    while level < depth {
        let fr = &frontier;
        let next = std::sync::Mutex::new(Vec::<Vec<u8>>::new());
        let r = par(|sh, n| {
            let mut r = Report::default();
            let mut mine = Vec::new();
            let mut k = sh;
            while k < fr.len() {
                for (ai, a) in alpha.iter().enumerate() {
                    let mut t = start.to_vec();
                    t.extend(fr[k].iter().map(|&i| alpha[i as usize]));
                    t.push(*a);
                    r.states += 1;
                    r.transitions += 1;
                    let s = spell(&t, 0);
                    match (reference(&t), real(&s)) {
                        (_, Real::Panic(p)) => r.viol(&s, "no panic", &p),
                        (Ok(w), _) => check_program(&mut r, &t, &w, 0..MODES),
                        (Err(_), Real::Tree(d)) => r.viol(&s, "rejected", &d),
                        (Err(Fail::Bad), Real::MaybeMore) => hunt(&mut r, &t, alpha),
                        (Err(Fail::Bad), _) => r.class("rejected"),
                        (Err(Fail::Eof), _) => {
                            // viable: remember, and close it off if that makes a program
                            let mut c = t.clone();
                            for _ in 0..6 {
                                c.push(tok("}"));
                                if let Ok(w) = reference(&c) { check_program(&mut r, &c, &w, 0..1); break; }
                            }
                            let mut v = fr[k].clone();
                            v.push(ai as u8);
                            mine.push(v);
                        }
                    }
                }
                k += n;
            }
            next.lock().unwrap().extend(mine);
            r
        });
        rep.merge(r);
        frontier = next.into_inner().unwrap();
        frontier.sort();
        level += 1;
        if frontier.is_empty() { break; }
    }
    rep
}

// ---------- statement trees by size ----------
/// all statement lists using exactly `n` statement nodes, nesting allowed
fn lists(n: usize, memo: &mut Vec<Option<Vec<Vec<Tok>>>>) -> Vec<Vec<Tok>> {
    if let Some(Some(v)) = memo.get(n) { return v.clone(); }
    let mut out: Vec<Vec<Tok>> = Vec::new();
    if n == 0 { out.push(vec![]); }
    for first in 1..=n {
        let heads = stmts(first, memo);
        let tails = lists(n - first, memo);
        for h in &heads { for t in &tails { let mut v = h.clone(); v.extend(t); out.push(v); } }
    }
    while memo.len() <= n { memo.push(None); }
    memo[n] = Some(out.clone());
    out
}
fn stmts(n: usize, memo: &mut Vec<Option<Vec<Vec<Tok>>>>) -> Vec<Vec<Tok>> {
    let mut out = Vec::new();
    if n == 1 {
        for s in [&["let", "a"][..], &["let", "a", ",", "b", ":", "u256", ":=", "f", "(", "a", ",", "f", "(", ")", ")"], &["a", ":=", "0xfF"], &["a", ",", "b.c$1", ":=", "_g", "(", "\"s t\"", ")"],
                  &["f", "(", "true", ":", "bool", ",", "12", ")"], &["leave"], &["break"], &["continue"], &["let", "x1", ":=", "\"\""]] { out.push(toks(s)); }
    }
    let inner = |k: usize, memo: &mut Vec<Option<Vec<Vec<Tok>>>>| lists(k, memo);
    let b = |x: &Vec<Tok>| { let mut v = vec![tok("{")]; v.extend(x); v.push(tok("}")); v };
    if n >= 1 {
        for x in inner(n - 1, memo) {
            out.push(b(&x));
            for h in [&["if", "a"][..], &["if", "f", "(", "1", ")"], &["function", "f", "(", ")"], &["function", "g", "(", "a", ",", "b", ":", "t", ")", "->", "r", ",", "s"]] { let mut v = toks(h); v.extend(b(&x)); out.push(v); }
            for (pre, post) in [(&["switch", "a", "default"][..], &[][..]), (&["switch", "a", "case", "1"], &[]), (&["switch", "f", "(", "a", ")", "case", "\"x\"", "{", "}", "case", "false"], &["default", "{", "}"]),
                                (&["switch", "0", "case", "0x0", "{", "}", "default"], &[]), (&["for", "{", "}", "1", "{", "}"], &[]), (&["for"], &["a", "{", "}", "{", "}"]), (&["for", "{", "}", "f", "(", "a", ")"], &["{", "}"])] {
                let mut v = toks(pre); v.extend(b(&x)); v.extend(toks(post)); out.push(v);
            }
        }
    }
    out
}
fn trees(max: usize) -> Report {
    let mut all = Vec::new();
    let mut memo = Vec::new();
    for n in 0..=max { all.extend(lists(n, &mut memo)); }
    let all = &all;
    par(|sh, n| {
        let mut r = Report::default();
        let mut k = sh;
        while k < all.len() {
            let mut t = toks(&["object", "\"Top_1\"", "{", "code", "{"]);
            t.extend(&all[k]);
            t.push(tok("}"));
            if k % 3 == 1 { t.extend(toks(&["object", "\"Top_1_deployed\"", "{", "code", "{"])); t.extend(&all[k]); t.extend(toks(&["}", "data \".metadata\"", "hex\"0aF1\"", "}"])); }
            t.push(tok("}"));
            r.states += 1;
            match reference(&t) { Ok(w) => check_program(&mut r, &t, &w, 0..if all[k].len() < 24 { MODES } else { 3 }), Err(_) => panic!("generator and reference disagree on {}", spell(&t, 0)) }
            k += n;
        }
        r
    })
}

pub fn explore(thorough: bool) -> Report {
    let d = |q, t| if thorough { t } else { q };
    let body = toks(&["object", "\"A\"", "{", "code", "{"]);
    let mut rep = Report::default();
    // statement level, full alphabet
    let full = toks(&["{", "}", "(", ")", ",", ":", ":=", "->", "function", "let", "if", "for", "switch", "case", "default", "leave", "break", "continue", "true", "false", "a", "f.b$1", "1", "0x2", "\"s\"", "object", "code", "data \"d\"", "hex\"00\""]);
    rep.merge(bfs(&body, &full, d(5, 6)));
    // deeper on sub-alphabets
    let mut deep = |p: &[&'static str], al: &[&'static str], q: usize, t: usize| { let mut s = body.clone(); s.extend(toks(p)); rep.merge(bfs(&s, &toks(al), d(q, t))); };
    deep(&[], &["{", "}", "if", "a", ":="], 9, 12);
    deep(&["a", "(" ], &["(", ")", ",", "a", "1"], 8, 11);
    deep(&["switch"], &["{", "}", "case", "default", "a", "1", "(", ")"], 8, 10);
    deep(&["for"], &["{", "}", "a", "(", ")", "break", "1"], 9, 11);
    deep(&["function"], &["f", "(", ")", "->", ",", ":", "{", "}", "leave"], 9, 11);
    deep(&["let"], &["a", "b", ",", ":", ":=", "1", "(", ")"], 8, 10);
    deep(&["a"], &["a", ",", ":=", "\"s\"", ":", "true", "(", ")"], 8, 10);
    // object level
    let obj = toks(&["object", "\"A\"", "\"B.c\"", "{", "}", "code", "data \"d\"", "data \"._x\"", "hex\"00\"", "hex\"aB\"", "leave", "a"]);
    rep.merge(bfs(&[], &obj, d(9, 11)));
    rep.merge(trees(d(3, 4)));
    rep.samples = vec!["object \"A\" { code { for { } a { } { break } } }".into(), "object \"A\" { code { switch a case 1 { } default { } } }".into(), "object \"A\" { code { let a : b , b := a ( 1 ) } }".into()];
    rep
}
pub fn replay(src: &str) {
    let s = guard(src, || utils::remove_comments(src)).unwrap_or_default();
    let a = match real(&s) { Real::Tree(t) => t, Real::Panic(p) => format!("panic {p}"), _ => "rejected".into() };
    println!("{{\"actual\":{}}}", crate::jstr(&a));
}
