//! C15: reports of errors: line numbers, quoted lines, underline, stack trace
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

/// Statements which fail, the location of the operation between ⟦ and ⟧. A ~ stands for any line breaks, blanks and comments.
const RUN: &[(&str, &str)] = &[
    ("one ⟦/⟧~zero", "ValueError: Division by zero"), ("one ⟦%⟧~zero", "ValueError: Modulo by zero"), ("one~⟦/⟧~zero", "ValueError: Division by zero"), ("one +~one~⟦/⟧~zero", "ValueError: Division by zero"),
    ("⟦!⟧~s", "TypeError: Operator unary '!' is not supported for type str"), ("print(~⟦-⟧~s)", "TypeError: Operator unary '-' is not supported for type str"), ("not~one~⟦%⟧~zero", "ValueError: Modulo by zero"),
    ("ls⟦[5]⟧", "Index '5' is out of bounds for list of length [0, 2)"), ("ls⟦[~5~]⟧", "Index '5' is out of bounds for list of length [0, 2)"), ("ls[1~]⟦[~7]⟧", "TypeError: Cannot index '2' of type 'int'"),
    ("one⟦(2)⟧", "Tried to evaluate 1 but it is not a function."), ("(one)⟦(~2,~3~)⟧", "Tried to evaluate 1 but it is not a function."), ("one ⟦two⟧", "Tried to evaluate 1 but it is not a function."),
    ("int⟦('x')⟧", "ValueError: Cannot convert 'x' of type 'str' to an integer: invalid digit found in string"), ("'x'~⟦.~int⟧", "ValueError: Cannot convert 'x' of type 'str' to an integer: invalid digit found in string"),
    ("one~⟦/=⟧~zero", "ValueError: Division by zero"), ("ls[1]~⟦/=⟧~zero", "ValueError: Division by zero"), ("p->a ⟦/=⟧ zero", "ValueError: Division by zero"), ("p->a~⟦/=⟧~zero", "ValueError: Division by zero"),
    ("ls[7]~⟦=⟧~3", "Index '7' is out of bounds for list of length [0, 2)"), ("ls[~one~] =~ls⟦[~4]⟧", "Index '4' is out of bounds for list of length [0, 2)"), ("ls[0]~⟦=⟧~d~[2]~= zero", "TODO"),
    ("s⟦[1:2:~zero]⟧", "ValueError: 'step' argument cannot be zero"), ("s⟦[::zero~]⟧", "ValueError: 'step' argument cannot be zero"), ("[~one~,~two~]⟦[:~:~zero~]⟧", "ValueError: 'step' argument cannot be zero"),
    ("assert~⟦zero⟧", "Assertion Failed:"), ("assert~⟦zero⟧~:~s", "Assertion Failed: é"), ("assert~⟦zero~==~one⟧", "Assertion Failed: Expected 0 == 1"),
    ("for i in~⟦one⟧ {~}", "TypeError: Expected '1' of type 'int' to be an iterable"), ("[~1,~⟦...⟧~one~]", "TypeError: Expected '1' of type 'int' to be an iterable"), ("print(1,~⟦...⟧~one)", "TypeError: Expected '1' of type 'int' to be an iterable"),
    ("let (a, (b, _)) =~⟦ls⟧", "ValueError: Cannot unpack '[1, 2]' of type 'list' with length 2, expected exactly 1 elements"), ("let~a,~b,~c~=~⟦ls⟧", "ValueError: Cannot unpack '[1, 2]' of type 'list' with length 2, expected exactly 3 elements"),
    ("one~=~ls⟦[~4]⟧", "Index '4' is out of bounds for list of length [0, 2)"), ("two~⟦.=⟧~len", "TypeError: Expected '2' of type 'int' to be an iterable"),
    ("s~⟦.~(/ one)⟧", "TypeError: Operator '/' is not supported for arguments of type str and int"), ("s~⟦.~(one /)⟧", "TypeError: Operator '/' is not supported for arguments of type int and str"),
    ("if~one⟦(3)⟧~{ }", "Tried to evaluate 1 but it is not a function."), ("while~one⟦(3)⟧~{ }", "Tried to evaluate 1 but it is not a function."), ("print(if~zero~then~zero~else~one⟦(~3)⟧)", "Tried to evaluate 1 but it is not a function."),
    ("do {~}~while~one⟦(3)⟧", "Tried to evaluate 1 but it is not a function."), ("loop { one⟦(~3)⟧ }", "Tried to evaluate 1 but it is not a function."), ("if zero {~} elif~one⟦(3)⟧ {~}", "Tried to evaluate 1 but it is not a function."),
    ("[one,~zero]~⟦.~map(~1~/)⟧", "ValueError: Division by zero"), ("P⟦(1)⟧", "Incorrect number of arguments for struct P(a, b), got 1"), ("one~⟦is⟧~zero", "TypeError: '0' of type 'int' is not a type and cannot be used with binary 'is' on '1' of type 'int'"),
    ("one~⟦is~not⟧~zero", "TypeError: '0' of type 'int' is not a type and cannot be used with binary 'is' on '1' of type 'int'"), ("one~⟦in⟧~zero", "TypeError: Operator 'in' is not supported for arguments of type int and int"), ("one~⟦not~in⟧~3", "TypeError: Operator 'in' is not supported for arguments of type int and int"),
    ("d⟦[~7~]⟧", "ValueError: Key '7' of type 'int' not found in dictionary"), ("d⟦->~b⟧", "TypeError: Cannot get field 'b' on '{1: 2}' of type 'dict'"), ("ls->a~⟦=⟧~3", "TypeError: Cannot set field 'a' on '[1, 2]' of type 'list'"),
    ("let q = 1~;~;~one⟦(2)⟧", "Tried to evaluate 1 but it is not a function."), ("one~and~zero⟦(1)⟧~or~one(1)", "Tried to evaluate 0 but it is not a function."), ("s~⟦*⟧~-~one", "ValueError: Operator '*' is not supported for arguments of type str and negative integer -1"),
    ("one~<~two~<~one⟦(1)⟧", "Tried to evaluate 1 but it is not a function."), ("s~⟦-⟧~s", "TypeError: Operator '-' is not supported for arguments of type str and str"), ("one~&~two~⟦|⟧~s", "TypeError: Operator '|' is not supported for arguments of type int and str"),
    ("{~1~,~two⟦(1)⟧~}", "Tried to evaluate 2 but it is not a function."), ("{~1~:~two⟦(1)⟧~,~2~:~3~}", "Tried to evaluate 2 but it is not a function."), ("(fn(x) ->~x⟦(1)⟧)(~3)", "STACK"),
];
/// Programs which do not compile, the first location reported
const COMPILE: &[(&str, &str)] = &[
    ("⟦zzz⟧", "Undeclared identifier: 'zzz'"), ("one~+~⟦zzz⟧", "Undeclared identifier: 'zzz'"), ("one~⟦$⟧~zero", "Invalid character: '$'"), ("p->~⟦zz⟧", "Invalid or unknown field name: 'zz'"), ("⟦break⟧", "Invalid 'break' statement outside of an enclosing loop"), ("⟦continue⟧", "Invalid 'continue' statement outside of an enclosing loop"),
    ("one~+~⟦]⟧", "Expected an expression terminal, got ']' token instead"), ("print(~⟦let⟧~)", "Expected an expression terminal, got 'let' keyword instead"), ("⟦0x⟧", "Invalid numeric value: cannot parse integer from empty string"), ("print(~one,~⟦=⟧ 3)", "Expected an expression terminal, got '=' token instead"), ("[~1~,~⟦=⟧~2]", "Expected an expression terminal, got '=' token instead"),
];
const END: &[(&str, &str)] = &[
    ("print(1,", "Expected an expression terminal, got end of input instead"), ("1 +", "Expected an expression terminal, got end of input instead"), ("let", "Expected a variable binding, either a name, '_', or pattern, got end of input instead"), ("[1, 2", "Expected a ',' or ']' after list literal, got end of input instead"), ("if one {", "Expected a '}' token, got end of input instead"), ("one .", "Expected an expression terminal, got end of input instead"), ("\tone /", "Expected an expression terminal, got end of input instead"),
];
const PRE: &str = "let zero = 0, one = 1, two = 2, s = 'é', ls = [1, 2], d = {1: 2}\nstruct P(a, b)\nlet p = P(1, 2)\n";

/// The report, by the definition: positions and lines are counted anew from the text
fn report(text: &[char], from: usize, to: usize, name: &str, message: &str, stack: &str) -> String {
    let line = |p: usize| text[..p].iter().filter(|c| **c == '\n').count();
    let lines: Vec<String> = text.iter().collect::<String>().split('\n').map(|u| u.strip_suffix('\r').unwrap_or(u).to_string()).collect();
    let (a, b) = (line(from), line(to - 1));
    let mut r = format!("{message}\n  at: line {} ({name})\n{stack}\n", if a == b { format!("{}", a + 1) } else { format!("{} - {}", a + 1, b + 1) });
    let w = (b + 2).to_string().len();
    for i in a..=b { r += &format!("{:w$} |{}{}\n", i + 1, if lines[i].is_empty() { "" } else { " " }, lines[i]); }
    r += &format!("{:w$} |", b + 2);
    if a == b {
        let start = text[..from].iter().rposition(|c| *c == '\n').map(|u| u + 1).unwrap_or(0);
        r.push(' '); for c in &text[start..from] { r.push(if *c == '\t' { '\t' } else { ' ' }); }
        r += &"^".repeat(to - from);
    } else {
        let n = (a..=b).map(|i| lines[i].chars().count()).max().unwrap(); r += " "; r += &"^".repeat(n);
    }
    r + "\n"
}
struct Text { t: Vec<char>, crlf: u64 }
impl Text {
    fn push(&mut self, s: &str, rng: &mut Rng) { for c in s.chars() { if c == '\n' && rng.below(4) < self.crlf { self.t.push('\r'); } self.t.push(c); } }
    fn line(&self) -> usize { self.t.iter().filter(|c| **c == '\n').count() + 1 }
}
fn gap(rng: &mut Rng, breaks: bool) -> String {
    let mut s = String::from(" ");
    if breaks { for _ in 0..rng.below(3) { s += match rng.below(9) { 0 => "\n", 1 => "\n\n  ", 2 => "/* é */", 3 => "/* 世\n  a */", 4 => "// x 😀\n", 5 => "\n\t", 6 => "\t ", _ => " " }; } }
    s
}
fn filler(rng: &mut Rng) -> &'static str {
    *rng.pick(&["\n", "\n\n", "  \n", "// é世😀\n", "/* é\n\n * 😀\n */\n", "if true { let k = 'mul\nti\n\nline' }\n", "\t\t\n", "if true {\n\n} else {\n}\n", "if true { fn g(a, b) {\n  a / b\n  // \n} }\n", "ls[0] = len([\n 1\n])\n", ";\n", "do {\n\n} while false\n", "for i in range(3) {\n  i + 1\n}\n", "if true { let k = '😀'\n s + s;\n }\n", "assert two == two\n : 'a'\n", "one = one\n+ zero\n", "p->a =\n 1\n", "ls[0] =\n\n1\n"])
}
fn fillers(rng: &mut Rng) -> String { let mut s = String::new(); for _ in 0..rng.below(4) { let f = filler(rng); s += f; } s }

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed); let n = if ctx.thorough { 3000 } else { 250 };
    for round in 0..n {
        for (k, (st, message)) in RUN.iter().chain(COMPILE).enumerate() {
            if *message == "TODO" { continue }
            let compile = k >= RUN.len();
            let mut t = Text { t: Vec::new(), crlf: *rng.pick(&[0, 0, 4, 2]) }; let mut stack: Vec<String> = Vec::new();
            t.push(PRE, &mut rng);
            // The statement within functions, called from other lines, and within blocks
            let mut close: Vec<(String, bool)> = Vec::new();
            let depth = if round == 0 { 0 } else { rng.below(4) };
            for i in 0..depth {
                let f = fillers(&mut rng); t.push(&f, &mut rng);
                let (open, c, call) = match rng.below(if st.contains("break") || st.contains("continue") { 2 } else { 7 }) {
                    0 => ("if true {\n".to_string(), "\n}\n".to_string(), false), 1 => ("if false {\n\n} else {\n".to_string(), "\n}\n".into(), false), 2 => ("for i in [1, 2] {".into(), "}\n".into(), false), 3 => ("loop { \n".into(), "\n}\n".into(), false), 4 => ("while true {\n".into(), "\n}\n".into(), false),
                    _ => (format!("fn f{i}() {{\n"), format!("\n}}\n"), true),
                };
                t.push(&open, &mut rng); let _ = &c; close.push((c + &if call { format!("@f{i}") } else { String::new() }, call));
            }
            let f = fillers(&mut rng); t.push(&f, &mut rng);
            for _ in 0..rng.below(3) { let i = *rng.pick(&["\t", "  ", "let u = 'é😀世'; ", "/* 世 */", " \t"]); if !(i.starts_with("let u") && t.t.ends_with(&['x'])) { if i.starts_with("let u") { t.push("if one { let u = 'é😀世' }; ", &mut rng) } else { t.push(i, &mut rng); } } }
            let (mut from, mut to) = (0, 0); let mut inner = 0;
            for c in st.chars() { match c { '⟦' => { from = t.t.len(); inner = t.line(); } '⟧' => to = t.t.len(), '~' => { let g = gap(&mut rng, round > 0); t.push(&g, &mut rng); } c => t.push(&c.to_string(), &mut rng) } }
            let _ = inner; let mut message = *message;
            if message == "STACK" { message = "Tried to evaluate 3 but it is not a function."; let at = t.t.iter().rposition(|c| *c == '(').unwrap(); stack.push(format!("  at: `fn _(x)` (line {})\n", t.t[..at].iter().filter(|c| **c == '\n').count() + 1)); }
            for (c, call) in close.iter().rev() {
                if *call {
                    let (body, name) = c.split_once('@').unwrap(); t.push(body, &mut rng);
                    let f = fillers(&mut rng); if !compile { t.push(&f, &mut rng); }
                    stack.push(format!("  at: `fn {name}()` (line {})\n", t.line())); t.push(&format!("{name}()"), &mut rng);
                } else { t.push(c, &mut rng); }
            }
            if rng.bool() { t.push("\n", &mut rng); if !compile { let f = fillers(&mut rng); t.push(&f, &mut rng); } }
            let st = if compile { String::new() } else { stack.concat() }; let r = report(&t.t, from, to, "<t>", message, &st);
            let src: String = t.t.iter().collect();
            sink(Case { src, expect: if compile { Expect::Fail(r) } else { Expect::Err(String::new(), r) } });
        }
        for (st, message) in END {
            let mut t = Text { t: Vec::new(), crlf: *rng.pick(&[0, 4, 2]) }; t.push(PRE, &mut rng); let f = fillers(&mut rng); t.push(&f, &mut rng); t.push(st, &mut rng); let line = t.line();
            for _ in 0..rng.below(3) { let f = *rng.pick(&["\n", "  \n", "\t\n\n"]); t.push(f, &mut rng); }
            let src: String = t.t.iter().collect(); let text = src.split('\n').nth(line - 1).unwrap().trim_end_matches('\r').to_string(); let w = (line + 1).to_string().len();
            let mut under = String::new(); for c in text.chars() { under.push(if c == '\t' { '\t' } else { ' ' }); }
            sink(Case { src, expect: Expect::Fail(format!("{message}\n  at: line {line} (<t>)\n\n{line:w$} | {text}\n{:w$} | {under}^^^\n", line + 1)) });
        }
    }
}
