//! C39: literals, strings, comments and operators read from source text, and text which is no program
use crate::{Case, Ctx, Expect, Sink};
use crate::gen::*;

/// Digits with underscores after the first one (anywhere after a prefix)
fn underscored(s: &str, rng: &mut Rng) -> String {
    let mut r = String::new();
    for c in s.chars() { r.push(c); while rng.below(4) == 0 { r.push('_'); } }
    r
}
fn number(x: i64, base: u32, rng: &mut Rng) -> String {
    let x = x as u64;
    match base {
        10 if x == 0 => "0".into(), 10 => underscored(&x.to_string(), rng),
        16 => { let s = if rng.bool() { format!("{x:x}") } else { format!("{x:X}") }; format!("0x{}{}", "_0".repeat(rng.below(2) as usize), underscored(&s, rng)) }
        _ => format!("0b{}{}", "0_".repeat(rng.below(2) as usize), underscored(&format!("{x:b}"), rng)),
    }
}
/// A string literal, its value
fn string(rng: &mut Rng) -> (String, String) {
    let q = *rng.pick(&['\'', '"']); let mut s = q.to_string(); let mut v = String::new();
    for _ in 0..rng.below(8) {
        match rng.below(12) {
            0 => { s += "\\n"; v += "\n"; } 1 => { s += "\\t"; v += "\t"; } 2 => { s += "\\\\"; v += "\\"; } 3 => { s += "\\'"; v += "'"; } 4 => { s += "\\\""; v += "\""; }
            5 => { let o = if q == '"' { '\'' } else { '"' }; s.push(o); v.push(o); }
            6 => { s += "\n"; v += "\n"; } 7 => { s += "\r\n"; v += "\n"; }
            8 => { let c = *rng.pick(&['a', 'z', '0', ' ', 'é', '世', '(']); s.push('\\'); s.push(c); v.push('\\'); v.push(c); }
            9 => { s += "//"; v += "//"; } 10 => { s += "/*"; v += "/*"; }
            _ => { let c = *rng.pick(&['a', '_', ' ', '$', '#', 'é', '世', '😀', '%', '*', '/']); s.push(c); v.push(c); }
        }
    }
    s.push(q); (s, v)
}
/// Blanks and comments
fn lines(rng: &mut Rng) -> String { let mut s = String::new(); for _ in 0..rng.below(3) { s += match rng.below(6) { 0 => "/*\n*/", 1 => "// a */ /* '\n", 2 => "/*\r\n * x\r\n **/", 3 => "\n", 4 => "//\n", _ => "\r\n" }; } s + &gap(rng) }
fn gap(rng: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..rng.below(3) { s += match rng.below(14) { 0 => "/**/", 1 => "/***/", 2 => "/****/", 3 => "/* a **/", 4 => "/* * / ** /* // */", 6 => "/*é'\"*/", 7 => "/*/*/", 8 => "/* \\*/", 10 => "\t", 11 => "/*/ 1 + */", _ => " " }; }
    s
}

pub fn generate(ctx: &Ctx, sink: Sink) {
    let mut rng = Rng::new(ctx.seed); let n = if ctx.thorough { 60000 } else { 4000 };
    let mut ints = edges(); ints.retain(|x| *x >= 0); for _ in 0..n { ints.push(rng.int().max(0)); } ints.extend([i64::MAX, MAX + 1, MAX + 2, 1 << 62 | 12345]);
    for x in ints {
        for base in [2, 10, 16] {
            let t = number(x, base, &mut rng); let w = wrap(x as i128);
            let (a, b, c) = (gap(&mut rng), gap(&mut rng), gap(&mut rng)); let l = lines(&mut rng);
            sink(Case { src: format!("{l}print{b}({c}[{t},{t}{b},{a}{t}i,{t}j{c}]{a}){b}"), expect: Expect::Out(format!("[{w}, {w}, {0}, {0}]\n", if w == 0 { "0".into() } else { format!("{w}i") })) });
        }
    }
    for t in ["9223372036854775808", "9_223_372_036_854_775_808", "18446744073709551616", "0x8000000000000000", "0xffffffffffffffff", "0x1_0000_0000_0000_0000", "99999999999999999999999999", "0b", "0x", "0x_", "0b__"] {
        sink(Case { src: format!("print({t})"), expect: Expect::Fail(format!("Invalid numeric value")) });
    }
    for t in ["0z", "00", "0_", "09", "0o7", "0X1", "0B1", "0_1", "0A"] {
        for (pre, post) in [("", ""), (" ", ""), ("", " "), ("1 + ", " + 1"), ("é", ""), ("", "\n")] { if pre != "é" { sink(Case { src: format!("{pre}{t}{post}"), expect: Expect::Fail("Invalid numeric prefix".into()) }); } }
    }
    for _ in 0..n * 2 {
        let (s, v) = string(&mut rng); let (s2, v2) = string(&mut rng);
        let (a, b, c) = (gap(&mut rng), gap(&mut rng), gap(&mut rng)); let l = lines(&mut rng);
        sink(Case { src: format!("{l}print({b}{s}{c})\nprint({s}{a}+{b}{s2}{c},{c}len({s2}))"), expect: Expect::Out(format!("{v}\n{v}{v2} {}\n", v2.chars().count())) });
    }
    for s in ["'", "\"", "'abc", "'a\\'", "\"'", "/*", "/* *", "/* /", "/*/", "/**", "/* **", "1 /* a\n b", "'\\", "x = '\n\n", "/*/ print(1)", "print(1) /*/"] {
        sink(Case { src: s.into(), expect: Expect::Fail("Unterminated".into()) });
    }
    // operators are the longest ones, whatever follows
    for (e, w) in [("1<<2", "4"), ("9>>1", "4"), ("2**3", "8"), ("2*3", "6"), ("1<2", "true"), ("1<=1", "true"), ("2>=3", "false"), ("1==1", "true"), ("1!=1", "false"), ("7%4", "3"), ("6&3", "2"), ("6|3", "7"), ("6^3", "5"), ("6-3", "3"), ("7/2", "3"), ("not true", "false"), ("!5", "-6"), ("2*-3", "-6"), ("2--3", "5"), ("2**-0", "1"), ("5-!0", "6"), ("[1]==[1]", "true"), ("'a'<'b'", "true"), ("1<<1<<1", "4"), ("[3,1].len", "2"), ("[...[1,2],3].len", "3"), ("[1,2,3][:2].len", "2"), ("(fn(a)->a)(4)", "4"), ("(fn(a,b?)->a)(4)", "4")] {
        for _ in 0..4 { let (a, b) = (gap(&mut rng), gap(&mut rng)); sink(Case { src: format!("print({a}{e}{b})"), expect: Expect::Out(format!("{w}\n")) }); }
    }
    for (op, w) in [("+", 15), ("-", 9), ("*", 36), ("/", 4), ("%", 0), ("**", 1728), ("&", 0), ("|", 15), ("^", 15), ("<<", 96), (">>", 1)] {
        sink(Case { src: format!("let x=12;x{op}=3\nprint(x,12{op}3)"), expect: Expect::Out(format!("{w} {w}\n")) });
    }
    sink(Case { src: "let x='ab';x.=len\nprint(x)".into(), expect: Expect::Out("2\n".into()) });
    // names which contain keywords
    for k in ["let", "fn", "return", "if", "elif", "else", "then", "loop", "while", "for", "in", "is", "not", "break", "continue", "do", "true", "false", "nil", "struct", "exit", "assert", "module", "self", "native", "and", "or"] {
        for t in [format!("{k}1"), format!("{k}_"), format!("x{k}"), format!("{}", k.to_uppercase()), format!("{k}{k}")] { sink(Case { src: format!("let {t}=5\nprint({t}+1)"), expect: Expect::Out("6\n".into()) }); }
        sink(Case { src: format!("let {k}=5"), expect: Expect::Fail("Compile".into()) });
    }
    for c in ["$", "#", "`", "~", "\\", "é", "世", "😀", "\u{0}", "\u{7f}", "\u{a0}", "\u{feff}"] { sink(Case { src: format!("print(1){c}"), expect: Expect::Fail("Invalid character".into()) }); }
    // text which is no program
    let words = ["0", "1", "0x", "0b", "0i", "9", "a", "_", "'", "\"", "\\", "/", "*", "//", "/*", "*/", ".", "..", "...", "=", "<", ">", "!", "-", "+", "&", "|", "^", "%", "(", ")", "[", "]", ",", ":", ";", "@", "?", "\n", "\r\n", " ", "\t", "é", "世", "#", "0z", "1_", "99999999999999999999"];
    for _ in 0..n * 4 { let mut s = String::new(); for _ in 0..1 + rng.below(9) { s += rng.pick::<&str>(&words); } sink(Case { src: s, expect: Expect::Same }); }
}
