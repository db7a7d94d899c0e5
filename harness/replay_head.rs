// generated by engine/genreplay.py: runs the compiled code on given inputs
#![allow(warnings)]
use std::io::{BufRead, Write};
#[derive(Debug, Clone)]
enum V { S(String), L(Vec<V>) }
impl V {
    fn s(&self) -> &str { match self { V::S(s) => s, _ => panic!("scalar") } }
    fn list(&self) -> &[V] { match self { V::L(l) => l, _ => panic!("list") } }
    fn to_f64(&self) -> f64 { let s = self.s(); if let Some(h) = s.strip_prefix('x') { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse().unwrap() } }
    fn to_f32(&self) -> f32 { self.to_f64() as f32 }
    fn to_u64(&self) -> u64 { self.s().parse().unwrap() }
    fn to_u32(&self) -> u32 { self.s().parse().unwrap() }
    fn to_u8(&self) -> u8 { self.s().parse().unwrap() }
    fn to_usize(&self) -> usize { self.s().parse().unwrap() }
    fn to_i64(&self) -> i64 { self.s().parse().unwrap() }
    fn to_i32(&self) -> i32 { self.s().parse().unwrap() }
    fn to_bool(&self) -> bool { self.s() == "true" }
    fn to_char(&self) -> char { char::from_u32(self.s().parse().unwrap()).unwrap() }
    fn to_s(&self) -> String { let h = &self.s()[1..]; let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8(b).unwrap() }
    fn expr(&self) -> symbolic_math::Expr {
        use symbolic_math::Expr as E;
        let l = self.list();
        let b = |i: usize| Box::new(l[i].expr());
        match l[0].to_s().as_str() {
            "Const" => E::Const(l[1].to_f64()), "Var" => E::Var(l[1].to_s()),
            "Add" => E::Add(b(1), b(2)), "Sub" => E::Sub(b(1), b(2)), "Mul" => E::Mul(b(1), b(2)), "Div" => E::Div(b(1), b(2)), "Pow" => E::Pow(b(1), b(2)),
            "Ln" => E::Ln(b(1)), "Exp" => E::Exp(b(1)), "Sqrt" => E::Sqrt(b(1)), "Sin" => E::Sin(b(1)), "Cos" => E::Cos(b(1)), "Neg" => E::Neg(b(1)),
            o => panic!("{o}"),
        }
    }
    fn repr(&self) -> symbolic_math::final_tagless::JITRepr {
        use symbolic_math::final_tagless::JITRepr as E;
        let l = self.list();
        let b = |i: usize| Box::new(l[i].repr());
        match l[0].to_s().as_str() {
            "Const" => E::Constant(l[1].to_f64()), "Var" => E::Variable(l[1].to_s()),
            "Add" => E::Add(b(1), b(2)), "Sub" => E::Sub(b(1), b(2)), "Mul" => E::Mul(b(1), b(2)), "Div" => E::Div(b(1), b(2)), "Pow" => E::Pow(b(1), b(2)),
            "Ln" => E::Ln(b(1)), "Exp" => E::Exp(b(1)), "Sqrt" => E::Sqrt(b(1)), "Sin" => E::Sin(b(1)), "Cos" => E::Cos(b(1)), "Neg" => E::Neg(b(1)),
            o => panic!("{o}"),
        }
    }
}
fn parse(c: &[u8], i: &mut usize) -> V {
    if c[*i] == b'[' {
        *i += 1;
        let mut l = vec![];
        while c[*i] != b']' { l.push(parse(c, i)); if c[*i] == b',' { *i += 1; } }
        *i += 1;
        return V::L(l);
    }
    let j = *i;
    while *i < c.len() && !b",]".contains(&c[*i]) { *i += 1; }
    V::S(String::from_utf8(c[j..*i].to_vec()).unwrap())
}
trait Show { fn sh(&self) -> String; }
fn show<T: Show>(t: &T) -> String { t.sh() }
impl Show for f64 { fn sh(&self) -> String { format!("x{:016x}", self.to_bits()) } }
impl Show for f32 { fn sh(&self) -> String { (*self as f64).sh() } }
macro_rules! ints { ($($t:ty),*) => { $(impl Show for $t { fn sh(&self) -> String { self.to_string() } })* } }
ints!(u8, u32, u64, usize, i32, i64, bool);
impl Show for () { fn sh(&self) -> String { "ok".into() } }
impl Show for String { fn sh(&self) -> String { format!("s{}", self.bytes().map(|b| format!("{b:02x}")).collect::<String>()) } }
impl<T: Show> Show for Vec<T> { fn sh(&self) -> String { format!("[{}]", self.iter().map(|x| x.sh()).collect::<Vec<_>>().join(",")) } }
impl<T: Show, const N: usize> Show for [T; N] { fn sh(&self) -> String { format!("[{}]", self.iter().map(|x| x.sh()).collect::<Vec<_>>().join(",")) } }
impl<A: Show, B: Show> Show for (A, B) { fn sh(&self) -> String { format!("({},{})", self.0.sh(), self.1.sh()) } }
impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn sh(&self) -> String { format!("({},{},{})", self.0.sh(), self.1.sh(), self.2.sh()) } }
impl<A: Show, B: Show, C: Show, D: Show> Show for (A, B, C, D) { fn sh(&self) -> String { format!("({},{},{},{})", self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh()) } }
impl<A: Show, B: Show, C: Show, D: Show, E: Show> Show for (A, B, C, D, E) { fn sh(&self) -> String { format!("({},{},{},{},{})", self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh(), self.4.sh()) } }
impl<A: Show, B: Show, C: Show, D: Show, E: Show, F: Show> Show for (A, B, C, D, E, F) { fn sh(&self) -> String { format!("({},{},{},{},{},{})", self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh(), self.4.sh(), self.5.sh()) } }
impl<T: Show> Show for Option<T> { fn sh(&self) -> String { match self { Some(x) => format!("({})", x.sh()), None => "None".into() } } }
impl<T: Show, E> Show for Result<T, E> { fn sh(&self) -> String { match self { Ok(x) => format!("({})", x.sh()), Err(_) => "Err".into() } } }
impl Show for symbolic_math::Expr {
    fn sh(&self) -> String {
        use symbolic_math::Expr as E;
        let n = |s: &str, v: Vec<String>| format!("[{},{}]", s.to_string().sh(), v.join(","));
        match self {
            E::Const(c) => n("Const", vec![c.sh()]), E::Var(v) => n("Var", vec![v.sh()]),
            E::Add(a, b) => n("Add", vec![a.sh(), b.sh()]), E::Sub(a, b) => n("Sub", vec![a.sh(), b.sh()]), E::Mul(a, b) => n("Mul", vec![a.sh(), b.sh()]), E::Div(a, b) => n("Div", vec![a.sh(), b.sh()]), E::Pow(a, b) => n("Pow", vec![a.sh(), b.sh()]),
            E::Ln(a) => n("Ln", vec![a.sh()]), E::Exp(a) => n("Exp", vec![a.sh()]), E::Sqrt(a) => n("Sqrt", vec![a.sh()]), E::Sin(a) => n("Sin", vec![a.sh()]), E::Cos(a) => n("Cos", vec![a.sh()]), E::Neg(a) => n("Neg", vec![a.sh()]),
        }
    }
}
impl Show for symbolic_math::final_tagless::JITRepr {
    fn sh(&self) -> String {
        use symbolic_math::final_tagless::JITRepr as E;
        let n = |s: &str, v: Vec<String>| format!("[{},{}]", s.to_string().sh(), v.join(","));
        match self {
            E::Constant(c) => n("Const", vec![c.sh()]), E::Variable(v) => n("Var", vec![v.sh()]),
            E::Add(a, b) => n("Add", vec![a.sh(), b.sh()]), E::Sub(a, b) => n("Sub", vec![a.sh(), b.sh()]), E::Mul(a, b) => n("Mul", vec![a.sh(), b.sh()]), E::Div(a, b) => n("Div", vec![a.sh(), b.sh()]), E::Pow(a, b) => n("Pow", vec![a.sh(), b.sh()]),
            E::Ln(a) => n("Ln", vec![a.sh()]), E::Exp(a) => n("Exp", vec![a.sh()]), E::Sqrt(a) => n("Sqrt", vec![a.sh()]), E::Sin(a) => n("Sin", vec![a.sh()]), E::Cos(a) => n("Cos", vec![a.sh()]), E::Neg(a) => n("Neg", vec![a.sh()]),
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let mut it = line.split('\t');
        let f = it.next().unwrap().to_string();
        let a: Vec<V> = it.filter(|x| !x.is_empty()).map(|x| parse(x.as_bytes(), &mut 0)).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&f, &a))).unwrap_or_else(|_| "PANIC".into());
        println!("\n@{r}");   // the marker tells answers from what the code under test prints
        std::io::stdout().flush().unwrap();
    }
}
