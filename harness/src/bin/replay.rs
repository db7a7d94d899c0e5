// generated by engine/genreplay.py: runs the compiled code on given inputs
#![allow(warnings)]
use std::io::{BufRead, Write};
#[derive(Debug, Clone)]
enum V { S(String), L(Vec<V>) }
impl V {
    fn s(&self) -> &str { match self { V::S(s) => s, _ => panic!("scalar") } }
    fn list(&self) -> &[V] { match self { V::L(l) => l, _ => panic!("list") } }
    fn to_f64(&self) -> f64 { let s = self.s(); if let Some(h) = s.strip_prefix('x') { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse().unwrap() } }
    fn to_f32(&self) -> f32 { self.to_f64() as f32 }
    fn to_u64(&self) -> u64 { self.s().parse().unwrap() }
    fn to_u32(&self) -> u32 { self.s().parse().unwrap() }
    fn to_u8(&self) -> u8 { self.s().parse().unwrap() }
    fn to_usize(&self) -> usize { self.s().parse().unwrap() }
    fn to_i64(&self) -> i64 { self.s().parse().unwrap() }
    fn to_i32(&self) -> i32 { self.s().parse().unwrap() }
    fn to_bool(&self) -> bool { self.s() == "true" }
    fn to_char(&self) -> char { char::from_u32(self.s().parse().unwrap()).unwrap() }
    fn to_s(&self) -> String { let h = &self.s()[1..]; let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); String::from_utf8(b).unwrap() }
    fn expr(&self) -> symbolic_math::Expr {
        use symbolic_math::Expr as E;
        let l = self.list();
        let b = |i: usize| Box::new(l[i].expr());
        match l[0].to_s().as_str() {
            "Const" => E::Const(l[1].to_f64()), "Var" => E::Var(l[1].to_s()),
            "Add" => E::Add(b(1), b(2)), "Sub" => E::Sub(b(1), b(2)), "Mul" => E::Mul(b(1), b(2)), "Div" => E::Div(b(1), b(2)), "Pow" => E::Pow(b(1), b(2)),
            "Ln" => E::Ln(b(1)), "Exp" => E::Exp(b(1)), "Sqrt" => E::Sqrt(b(1)), "Sin" => E::Sin(b(1)), "Cos" => E::Cos(b(1)), "Neg" => E::Neg(b(1)),
            o => panic!("{o}"),
        }
    }
    fn repr(&self) -> symbolic_math::final_tagless::JITRepr {
        use symbolic_math::final_tagless::JITRepr as E;
        let l = self.list();
        let b = |i: usize| Box::new(l[i].repr());
        match l[0].to_s().as_str() {
            "Const" => E::Constant(l[1].to_f64()), "Var" => E::Variable(l[1].to_s()),
            "Add" => E::Add(b(1), b(2)), "Sub" => E::Sub(b(1), b(2)), "Mul" => E::Mul(b(1), b(2)), "Div" => E::Div(b(1), b(2)), "Pow" => E::Pow(b(1), b(2)),
            "Ln" => E::Ln(b(1)), "Exp" => E::Exp(b(1)), "Sqrt" => E::Sqrt(b(1)), "Sin" => E::Sin(b(1)), "Cos" => E::Cos(b(1)), "Neg" => E::Neg(b(1)),
            o => panic!("{o}"),
        }
    }
}
fn parse(c: &[u8], i: &mut usize) -> V {
    if c[*i] == b'[' {
        *i += 1;
        let mut l = vec![];
        while c[*i] != b']' { l.push(parse(c, i)); if c[*i] == b',' { *i += 1; } }
        *i += 1;
        return V::L(l);
    }
    let j = *i;
    while *i < c.len() && !b",]".contains(&c[*i]) { *i += 1; }
    V::S(String::from_utf8(c[j..*i].to_vec()).unwrap())
}
trait Show { fn sh(&self) -> String; }
fn show<T: Show>(t: &T) -> String { t.sh() }
impl Show for f64 { fn sh(&self) -> String { format!("x{:016x}", self.to_bits()) } }
impl Show for f32 { fn sh(&self) -> String { (*self as f64).sh() } }
macro_rules! ints { ($($t:ty),*) => { $(impl Show for $t { fn sh(&self) -> String { self.to_string() } })* } }
ints!(u8, u32, u64, usize, i32, i64, bool);
impl Show for () { fn sh(&self) -> String { "ok".into() } }
impl Show for String { fn sh(&self) -> String { format!("s{}", self.bytes().map(|b| format!("{b:02x}")).collect::<String>()) } }
impl<T: Show> Show for Vec<T> { fn sh(&self) -> String { format!("[{}]", self.iter().map(|x| x.sh()).collect::<Vec<_>>().join(",")) } }
impl<T: Show, const N: usize> Show for [T; N] { fn sh(&self) -> String { format!("[{}]", self.iter().map(|x| x.sh()).collect::<Vec<_>>().join(",")) } }
impl<A: Show, B: Show> Show for (A, B) { fn sh(&self) -> String { format!("({},{})", self.0.sh(), self.1.sh()) } }
impl<A: Show, B: Show, C: Show> Show for (A, B, C) { fn sh(&self) -> String { format!("({},{},{})", self.0.sh(), self.1.sh(), self.2.sh()) } }
impl<A: Show, B: Show, C: Show, D: Show> Show for (A, B, C, D) { fn sh(&self) -> String { format!("({},{},{},{})", self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh()) } }
impl<A: Show, B: Show, C: Show, D: Show, E: Show> Show for (A, B, C, D, E) { fn sh(&self) -> String { format!("({},{},{},{},{})", self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh(), self.4.sh()) } }
impl<A: Show, B: Show, C: Show, D: Show, E: Show, F: Show> Show for (A, B, C, D, E, F) { fn sh(&self) -> String { format!("({},{},{},{},{},{})", self.0.sh(), self.1.sh(), self.2.sh(), self.3.sh(), self.4.sh(), self.5.sh()) } }
impl<T: Show> Show for Option<T> { fn sh(&self) -> String { match self { Some(x) => format!("({})", x.sh()), None => "None".into() } } }
impl<T: Show, E> Show for Result<T, E> { fn sh(&self) -> String { match self { Ok(x) => format!("({})", x.sh()), Err(_) => "Err".into() } } }
impl Show for symbolic_math::Expr {
    fn sh(&self) -> String {
        use symbolic_math::Expr as E;
        let n = |s: &str, v: Vec<String>| format!("[{},{}]", s.to_string().sh(), v.join(","));
        match self {
            E::Const(c) => n("Const", vec![c.sh()]), E::Var(v) => n("Var", vec![v.sh()]),
            E::Add(a, b) => n("Add", vec![a.sh(), b.sh()]), E::Sub(a, b) => n("Sub", vec![a.sh(), b.sh()]), E::Mul(a, b) => n("Mul", vec![a.sh(), b.sh()]), E::Div(a, b) => n("Div", vec![a.sh(), b.sh()]), E::Pow(a, b) => n("Pow", vec![a.sh(), b.sh()]),
            E::Ln(a) => n("Ln", vec![a.sh()]), E::Exp(a) => n("Exp", vec![a.sh()]), E::Sqrt(a) => n("Sqrt", vec![a.sh()]), E::Sin(a) => n("Sin", vec![a.sh()]), E::Cos(a) => n("Cos", vec![a.sh()]), E::Neg(a) => n("Neg", vec![a.sh()]),
        }
    }
}
impl Show for symbolic_math::final_tagless::JITRepr {
    fn sh(&self) -> String {
        use symbolic_math::final_tagless::JITRepr as E;
        let n = |s: &str, v: Vec<String>| format!("[{},{}]", s.to_string().sh(), v.join(","));
        match self {
            E::Constant(c) => n("Const", vec![c.sh()]), E::Variable(v) => n("Var", vec![v.sh()]),
            E::Add(a, b) => n("Add", vec![a.sh(), b.sh()]), E::Sub(a, b) => n("Sub", vec![a.sh(), b.sh()]), E::Mul(a, b) => n("Mul", vec![a.sh(), b.sh()]), E::Div(a, b) => n("Div", vec![a.sh(), b.sh()]), E::Pow(a, b) => n("Pow", vec![a.sh(), b.sh()]),
            E::Ln(a) => n("Ln", vec![a.sh()]), E::Exp(a) => n("Exp", vec![a.sh()]), E::Sqrt(a) => n("Sqrt", vec![a.sh()]), E::Sin(a) => n("Sin", vec![a.sh()]), E::Cos(a) => n("Cos", vec![a.sh()]), E::Neg(a) => n("Neg", vec![a.sh()]),
        }
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() { continue; }
        let mut it = line.split('\t');
        let f = it.next().unwrap().to_string();
        let a: Vec<V> = it.filter(|x| !x.is_empty()).map(|x| parse(x.as_bytes(), &mut 0)).collect();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| dispatch(&f, &a))).unwrap_or_else(|_| "PANIC".into());
        println!("\n@{r}");   // the marker tells answers from what the code under test prints
        std::io::stdout().flush().unwrap();
    }
}
fn dispatch(f: &str, a: &[V]) -> String {
 match f {
  "root_c26_linear" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_linear(&a0, &a1, &a2)) }
  "root_c26_linear22" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_linear22([a0[0], a0[1], a0[2], a0[3]], [a1[0], a1[1]], [a2[0], a2[1]])) }
  "root_c26_linear23" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_linear23([a0[0], a0[1], a0[2], a0[3], a0[4], a0[5]], [a1[0], a1[1], a1[2]], [a2[0], a2[1]])) }
  "root_c26_linear32" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_linear32([a0[0], a0[1], a0[2], a0[3], a0[4], a0[5]], [a1[0], a1[1]], [a2[0], a2[1], a2[2]])) }
  "root_c26_linear_dims" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: usize = a[2].to_usize(); let a3: usize = a[3].to_usize(); show(&harness::ad::root_c26_linear_dims(&a0, &a1, a2, a3)) }
  "root_c26_linear_input" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_linear_input([a0[0], a0[1], a0[2], a0[3], a0[4], a0[5]], [a1[0], a1[1], a1[2]], &a2)) }
  "root_c26_linear_jac" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: f64 = a[2].to_f64(); show(&harness::ad::root_c26_linear_jac([a0[0], a0[1], a0[2], a0[3]], [a1[0], a1[1]], a2)) }
  "root_c26_comp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_comp(a0, &a1)) }
  "root_c26_comp_input" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::ad::root_c26_comp_input(&a0, a1)) }
  "root_c26_comp_dims" => { let a0: usize = a[0].to_usize(); show(&harness::ad::root_c26_comp_dims(a0)) }
  "root_c26_comp_jac" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ad::root_c26_comp_jac(a0, a1)) }
  "root_c26_measure" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ad::root_c26_measure(a0, a1, &a2)) }
  "root_c26_at_ad" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ad::root_c26_at_ad(a0, a1)) }
  "root_c26_at_ad_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ad::root_c26_at_ad_wrt(a0, a1, a2)) }
  "root_c26_value" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ad::root_c26_value(a0, a1, a2)) }
  "root_c26_grad" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ad::root_c26_grad(a0, a1)) }
  "root_c26_with" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ad::root_c26_with(a0, a1)) }
  "root_c07_opq_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c07_opq_at(a0, a1)) }
  "root_c07_opq_ff" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_opq_ff(a0, a1, a2)) }
  "root_c07_opq_ft" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_opq_ft(a0, a1, a2)) }
  "root_c07_opq_tf" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_opq_tf(a0, a1, a2)) }
  "root_c07_opq_tt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_opq_tt(a0, a1, a2)) }
  "root_c07_opq_same" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_opq_same(a0, a1, a2)) }
  "root_c07_opq_self" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c07_opq_self(a0, a1)) }
  "root_c07_opq_leb" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c07_opq_leb(a0, a1)) }
  "root_c07_opq_leb_inv" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c07_opq_leb_inv(a0, a1)) }
  "root_c07_opq_rewrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c07_opq_rewrt(a0, a1, a2, a3)) }
  "root_c07_opq_chain" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c07_opq_chain(a0, a1, a2, a3)) }
  "root_c07_opq_access" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c07_opq_access(a0, a1)) }
  "root_c07_opq_clone" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_opq_clone(a0, a1, a2)) }
  "root_c07_zst_at" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c07_zst_at(a0)) }
  "root_c07_zst_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c07_zst_wrt(a0, a1)) }
  "root_c07_shared" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c07_shared(a0, a1, a2)) }
  "root_c07_primitives" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c07_primitives(a0, a1)) }
  "root_c09_opq_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c09_opq_batch(a0, &a1)) }
  "root_c09_opq_one" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c09_opq_one(a0, a1)) }
  "root_c09_cached_four" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); let a3: u64 = a[3].to_u64(); let a4: u64 = a[4].to_u64(); show(&harness::comb::root_c09_cached_four(a0, a1, a2, a3, a4)) }
  "root_c09_cached_new" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c09_cached_new(a0, a1)) }
  "root_c09_cached_conv" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::comb::root_c09_cached_conv(a0, a1, a2)) }
  "root_c06_opq_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c06_opq_fallback(a0, &a1)) }
  "root_c06_opq_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c06_opq_iidbase(a0, &a1)) }
  "root_c06_opq_basesupp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c06_opq_basesupp(a0, &a1)) }
  "root_c06_opq_supp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c06_opq_supp(a0, &a1)) }
  "root_c10_product_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c10_product_ld(a0, a1, a2, a3)) }
  "root_c10_product_supp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c10_product_supp(a0, a1, a2, a3)) }
  "root_c10_product_ext" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c10_product_ext(a0, a1, a2, a3)) }
  "root_c10_product_nested" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::comb::root_c10_product_nested(a0, a1, a2, a3, a4, a5)) }
  "root_c10_product_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c10_product_at(a0, a1, a2, a3)) }
  "root_c10_mixture_ld" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_mixture_ld(&a0, &a1, a2)) }
  "root_c10_mixture_supp" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_mixture_supp(&a0, &a1, a2)) }
  "root_c10_mixture_new" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c10_mixture_new(&a0, &a1)) }
  "root_c10_mixture_uniform" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c10_mixture_uniform(&a0)) }
  "root_c10_mixture_two" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::comb::root_c10_mixture_two(a0, a1, a2, a3, a4)) }
  "root_c10_mixture_utwo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_mixture_utwo(a0, a1, a2)) }
  "root_c10_mixture_macro" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c10_mixture_macro(a0, a1, a2, a3)) }
  "root_c10_push_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_push_ld(a0, a1)) }
  "root_c10_push_ext" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_push_ext(a0, a1)) }
  "root_c10_push_supp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_push_supp(a0, a1)) }
  "root_c10_tr_log" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c10_tr_log(a0)) }
  "root_c10_tr_exp" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c10_tr_exp(a0)) }
  "root_c10_tr_linear" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_tr_linear(a0, a1, a2)) }
  "root_c10_tr_logit" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c10_tr_logit(a0)) }
  "root_c10_tr_logit_inv" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c10_tr_logit_inv(a0)) }
  "root_c10_tr_round" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_tr_round(a0, a1, a2)) }
  "root_c10_lognormal" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_lognormal(a0, a1, a2)) }
  "root_c10_push_linear" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c10_push_linear(a0, a1, a2, a3)) }
  "root_c10_push_logit" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_push_logit(a0, a1)) }
  "root_c10_weighted_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_weighted_ld(a0, a1, a2)) }
  "root_c10_weighted_supp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_weighted_supp(a0, a1, a2)) }
  "root_c10_integral_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_integral_ld(a0, a1)) }
  "root_c10_integral_supp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_integral_supp(a0, a1)) }
  "root_c10_dirac_supp" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c10_dirac_supp(a0, a1)) }
  "root_c10_dirac_supp_f" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::comb::root_c10_dirac_supp_f(a0, a1)) }
  "root_c08_built_eval" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c08_built_eval(a0, a1, a2, a3)) }
  "root_c08_built_iid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c08_built_iid(a0, a1, &a2, a3)) }
  "root_c08_built_parts" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::comb::root_c08_built_parts(a0, a1, a2, a3)) }
  "root_c08_empty" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c08_empty(a0, a1, &a2)) }
  "root_c08_normal_dec" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::comb::root_c08_normal_dec(a0, a1, a2, a3, a4)) }
  "root_c08_normal_deciid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: Vec<f64> = a[4].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c08_normal_deciid(a0, a1, a2, a3, &a4)) }
  "root_c08_cauchy_dec" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::comb::root_c08_cauchy_dec(a0, a1, a2, a3, a4)) }
  "root_c08_cauchy_deciid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: Vec<f64> = a[4].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c08_cauchy_deciid(a0, a1, a2, a3, &a4)) }
  "root_c08_studentt_dec" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c08_studentt_dec(a0, a1, a2)) }
  "root_c08_studentt_deciid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::comb::root_c08_studentt_deciid(a0, a1, &a2)) }
  "root_c08_normal_decparts" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::comb::root_c08_normal_decparts(a0, a1, a2, a3, a4)) }
  "root_c10_mixture_three" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: f64 = a[2].to_f64(); show(&harness::comb::root_c10_mixture_three([a0[0], a0[1], a0[2]], [a1[0], a1[1], a1[2]], a2)) }
  "root_c11_logfact_f32" => { let a0: u64 = a[0].to_u64(); show(&harness::comb::root_c11_logfact_f32(a0)) }
  "root_c11_factorial_ld" => { let a0: u64 = a[0].to_u64(); show(&harness::comb::root_c11_factorial_ld(a0)) }
  "root_c11_factorial_supp" => { let a0: u64 = a[0].to_u64(); show(&harness::comb::root_c11_factorial_supp(a0)) }
  "root_c11_logbinom" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c11_logbinom(a0, a1)) }
  "root_c11_binom_ld" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c11_binom_ld(a0, a1)) }
  "root_c11_binom_supp" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c11_binom_supp(a0, a1)) }
  "root_c11_lognegbinom" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c11_lognegbinom(a0, a1)) }
  "root_c11_negbinom_ld" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c11_negbinom_ld(a0, a1)) }
  "root_c11_negbinom_supp" => { let a0: u64 = a[0].to_u64(); let a1: u64 = a[1].to_u64(); show(&harness::comb::root_c11_negbinom_supp(a0, a1)) }
  "root_c11_counting_ld" => { let a0: u64 = a[0].to_u64(); show(&harness::comb::root_c11_counting_ld(a0)) }
  "root_c11_counting_supp" => { let a0: u64 = a[0].to_u64(); show(&harness::comb::root_c11_counting_supp(a0)) }
  "root_c11_lebesgue_ld" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c11_lebesgue_ld(a0)) }
  "root_c11_lebesgue_supp" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c11_lebesgue_supp(a0)) }
  "root_c11_counting2_ld" => { let a0: u64 = a[0].to_u64(); show(&harness::comb::root_c11_counting2_ld(a0)) }
  "root_c11_lebesgue2_ld" => { let a0: f64 = a[0].to_f64(); show(&harness::comb::root_c11_lebesgue2_ld(a0)) }
  "root_c01_normal_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c01_normal_ld(a0, a1, a2)) }
  "root_c03_normal_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c03_normal_support(a0, a1, a2)) }
  "root_c04_normal_efld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c04_normal_efld(a0, a1, a2)) }
  "root_c04_normal_fn" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c04_normal_fn(a0, a1, a2)) }
  "root_c05_normal_nat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_normal_nat(a0, a1)) }
  "root_c05_normal_tonat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_normal_tonat(a0, a1)) }
  "root_c05_normal_logpart" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_normal_logpart(a0, a1)) }
  "root_c05_normal_stat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_normal_stat(a0, a1, a2)) }
  "root_c05_normal_base" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_normal_base(a0, a1, a2)) }
  "root_c05_normal_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_normal_rtrip(a0, a1, a2)) }
  "root_c06_normal_iid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_iid(a0, a1, &a2)) }
  "root_c06_normal_iidef" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_iidef(a0, a1, &a2)) }
  "root_c06_normal_iidld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_iidld(a0, a1, &a2)) }
  "root_c06_normal_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_iidsupp(a0, a1, &a2)) }
  "root_c06_normal_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_iidstat(a0, a1, &a2)) }
  "root_c06_normal_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_iidbase(a0, a1, &a2)) }
  "root_c06_normal_fallback" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_fallback(a0, a1, &a2)) }
  "root_c09_normal_batch" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_normal_batch(a0, a1, &a2)) }
  "root_c09_normal_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c09_normal_at(a0, a1, a2)) }
  "root_c07_normal_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_normal_at(a0, a1, a2)) }
  "root_c07_normal_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::dist::root_c07_normal_wrt(a0, a1, a2, a3, a4)) }
  "root_c21_normal_new" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c21_normal_new(a0, a1)) }
  "root_c03_stdnormal_support" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c03_stdnormal_support(a0)) }
  "root_c04_stdnormal_efld" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c04_stdnormal_efld(a0)) }
  "root_c04_stdnormal_fn" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c04_stdnormal_fn(a0)) }
  "root_c05_stdnormal_nat" => {  show(&harness::dist::root_c05_stdnormal_nat()) }
  "root_c05_stdnormal_tonat" => {  show(&harness::dist::root_c05_stdnormal_tonat()) }
  "root_c05_stdnormal_logpart" => {  show(&harness::dist::root_c05_stdnormal_logpart()) }
  "root_c05_stdnormal_stat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_stdnormal_stat(a0)) }
  "root_c05_stdnormal_base" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_stdnormal_base(a0)) }
  "root_c06_stdnormal_iid" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_stdnormal_iid(&a0)) }
  "root_c06_stdnormal_iidef" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_stdnormal_iidef(&a0)) }
  "root_c06_stdnormal_iidld" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_stdnormal_iidld(&a0)) }
  "root_c06_stdnormal_iidsupp" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_stdnormal_iidsupp(&a0)) }
  "root_c06_stdnormal_iidstat" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_stdnormal_iidstat(&a0)) }
  "root_c06_stdnormal_iidbase" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_stdnormal_iidbase(&a0)) }
  "root_c01_exponential_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c01_exponential_ld(a0, a1)) }
  "root_c03_exponential_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c03_exponential_support(a0, a1)) }
  "root_c04_exponential_efld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c04_exponential_efld(a0, a1)) }
  "root_c04_exponential_fn" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c04_exponential_fn(a0, a1)) }
  "root_c05_exponential_nat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_exponential_nat(a0)) }
  "root_c05_exponential_tonat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_exponential_tonat(a0)) }
  "root_c05_exponential_logpart" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_exponential_logpart(a0)) }
  "root_c05_exponential_stat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_exponential_stat(a0, a1)) }
  "root_c05_exponential_base" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_exponential_base(a0, a1)) }
  "root_c05_exponential_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_exponential_rtrip(a0, a1)) }
  "root_c06_exponential_iid" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_iid(a0, &a1)) }
  "root_c06_exponential_iidef" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_iidef(a0, &a1)) }
  "root_c06_exponential_iidld" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_iidld(a0, &a1)) }
  "root_c06_exponential_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_iidsupp(a0, &a1)) }
  "root_c06_exponential_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_iidstat(a0, &a1)) }
  "root_c06_exponential_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_iidbase(a0, &a1)) }
  "root_c06_exponential_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_exponential_fallback(a0, &a1)) }
  "root_c09_exponential_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_exponential_batch(a0, &a1)) }
  "root_c09_exponential_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c09_exponential_at(a0, a1)) }
  "root_c07_exponential_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c07_exponential_at(a0, a1)) }
  "root_c07_exponential_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_exponential_wrt(a0, a1, a2)) }
  "root_c20_exponential_mv" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_exponential_mv(a0)) }
  "root_c21_exponential_new" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c21_exponential_new(a0)) }
  "root_c01_gamma_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c01_gamma_ld(a0, a1, a2)) }
  "root_c03_gamma_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c03_gamma_support(a0, a1, a2)) }
  "root_c04_gamma_efld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c04_gamma_efld(a0, a1, a2)) }
  "root_c04_gamma_fn" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c04_gamma_fn(a0, a1, a2)) }
  "root_c05_gamma_nat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_gamma_nat(a0, a1)) }
  "root_c05_gamma_tonat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_gamma_tonat(a0, a1)) }
  "root_c05_gamma_logpart" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_gamma_logpart(a0, a1)) }
  "root_c05_gamma_stat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_gamma_stat(a0, a1, a2)) }
  "root_c05_gamma_base" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_gamma_base(a0, a1, a2)) }
  "root_c05_gamma_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_gamma_rtrip(a0, a1, a2)) }
  "root_c06_gamma_iid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_iid(a0, a1, &a2)) }
  "root_c06_gamma_iidef" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_iidef(a0, a1, &a2)) }
  "root_c06_gamma_iidld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_iidld(a0, a1, &a2)) }
  "root_c06_gamma_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_iidsupp(a0, a1, &a2)) }
  "root_c06_gamma_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_iidstat(a0, a1, &a2)) }
  "root_c06_gamma_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_iidbase(a0, a1, &a2)) }
  "root_c06_gamma_fallback" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_gamma_fallback(a0, a1, &a2)) }
  "root_c09_gamma_batch" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_gamma_batch(a0, a1, &a2)) }
  "root_c09_gamma_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c09_gamma_at(a0, a1, a2)) }
  "root_c07_gamma_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_gamma_at(a0, a1, a2)) }
  "root_c07_gamma_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::dist::root_c07_gamma_wrt(a0, a1, a2, a3, a4)) }
  "root_c20_gamma_mv" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_gamma_mv(a0, a1)) }
  "root_c21_gamma_new" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c21_gamma_new(a0, a1)) }
  "root_c01_beta_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c01_beta_ld(a0, a1, a2)) }
  "root_c03_beta_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c03_beta_support(a0, a1, a2)) }
  "root_c04_beta_efld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c04_beta_efld(a0, a1, a2)) }
  "root_c04_beta_fn" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c04_beta_fn(a0, a1, a2)) }
  "root_c05_beta_nat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_beta_nat(a0, a1)) }
  "root_c05_beta_tonat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_beta_tonat(a0, a1)) }
  "root_c05_beta_logpart" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_beta_logpart(a0, a1)) }
  "root_c05_beta_stat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_beta_stat(a0, a1, a2)) }
  "root_c05_beta_base" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_beta_base(a0, a1, a2)) }
  "root_c05_beta_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c05_beta_rtrip(a0, a1, a2)) }
  "root_c06_beta_iid" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_iid(a0, a1, &a2)) }
  "root_c06_beta_iidef" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_iidef(a0, a1, &a2)) }
  "root_c06_beta_iidld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_iidld(a0, a1, &a2)) }
  "root_c06_beta_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_iidsupp(a0, a1, &a2)) }
  "root_c06_beta_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_iidstat(a0, a1, &a2)) }
  "root_c06_beta_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_iidbase(a0, a1, &a2)) }
  "root_c06_beta_fallback" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_beta_fallback(a0, a1, &a2)) }
  "root_c09_beta_batch" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_beta_batch(a0, a1, &a2)) }
  "root_c09_beta_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c09_beta_at(a0, a1, a2)) }
  "root_c07_beta_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_beta_at(a0, a1, a2)) }
  "root_c07_beta_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::dist::root_c07_beta_wrt(a0, a1, a2, a3, a4)) }
  "root_c20_beta_mv" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_beta_mv(a0, a1)) }
  "root_c21_beta_new" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c21_beta_new(a0, a1)) }
  "root_c01_chisq_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c01_chisq_ld(a0, a1)) }
  "root_c03_chisq_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c03_chisq_support(a0, a1)) }
  "root_c04_chisq_efld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c04_chisq_efld(a0, a1)) }
  "root_c04_chisq_fn" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c04_chisq_fn(a0, a1)) }
  "root_c05_chisq_nat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_chisq_nat(a0)) }
  "root_c05_chisq_tonat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_chisq_tonat(a0)) }
  "root_c05_chisq_logpart" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_chisq_logpart(a0)) }
  "root_c05_chisq_stat" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_chisq_stat(a0, a1)) }
  "root_c05_chisq_base" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_chisq_base(a0, a1)) }
  "root_c05_chisq_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_chisq_rtrip(a0, a1)) }
  "root_c06_chisq_iid" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_iid(a0, &a1)) }
  "root_c06_chisq_iidef" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_iidef(a0, &a1)) }
  "root_c06_chisq_iidld" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_iidld(a0, &a1)) }
  "root_c06_chisq_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_iidsupp(a0, &a1)) }
  "root_c06_chisq_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_iidstat(a0, &a1)) }
  "root_c06_chisq_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_iidbase(a0, &a1)) }
  "root_c06_chisq_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_chisq_fallback(a0, &a1)) }
  "root_c09_chisq_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_chisq_batch(a0, &a1)) }
  "root_c09_chisq_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c09_chisq_at(a0, a1)) }
  "root_c07_chisq_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c07_chisq_at(a0, a1)) }
  "root_c07_chisq_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_chisq_wrt(a0, a1, a2)) }
  "root_c20_chisq_mv" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_chisq_mv(a0)) }
  "root_c21_chisq_new" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c21_chisq_new(a0)) }
  "root_c01_cauchy_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c01_cauchy_ld(a0, a1, a2)) }
  "root_c03_cauchy_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c03_cauchy_support(a0, a1, a2)) }
  "root_c06_cauchy_fallback" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_cauchy_fallback(a0, a1, &a2)) }
  "root_c09_cauchy_batch" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_cauchy_batch(a0, a1, &a2)) }
  "root_c09_cauchy_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c09_cauchy_at(a0, a1, a2)) }
  "root_c07_cauchy_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_cauchy_at(a0, a1, a2)) }
  "root_c07_cauchy_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::dist::root_c07_cauchy_wrt(a0, a1, a2, a3, a4)) }
  "root_c21_cauchy_new" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c21_cauchy_new(a0, a1)) }
  "root_c01_studentt_ld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c01_studentt_ld(a0, a1)) }
  "root_c03_studentt_support" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c03_studentt_support(a0, a1)) }
  "root_c06_studentt_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_studentt_fallback(a0, &a1)) }
  "root_c09_studentt_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c09_studentt_batch(a0, &a1)) }
  "root_c09_studentt_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c09_studentt_at(a0, a1)) }
  "root_c07_studentt_at" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c07_studentt_at(a0, a1)) }
  "root_c07_studentt_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c07_studentt_wrt(a0, a1, a2)) }
  "root_c21_studentt_new" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c21_studentt_new(a0)) }
  "root_c02_poisson_ld" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c02_poisson_ld(a0, a1)) }
  "root_c03_poisson_support" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c03_poisson_support(a0, a1)) }
  "root_c04_poisson_efld" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c04_poisson_efld(a0, a1)) }
  "root_c04_poisson_fn" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c04_poisson_fn(a0, a1)) }
  "root_c05_poisson_nat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_poisson_nat(a0)) }
  "root_c05_poisson_tonat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_poisson_tonat(a0)) }
  "root_c05_poisson_logpart" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_poisson_logpart(a0)) }
  "root_c05_poisson_stat" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c05_poisson_stat(a0, a1)) }
  "root_c05_poisson_base" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c05_poisson_base(a0, a1)) }
  "root_c05_poisson_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c05_poisson_rtrip(a0, a1)) }
  "root_c06_poisson_iid" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_poisson_iid(a0, &a1)) }
  "root_c06_poisson_iidld" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_poisson_iidld(a0, &a1)) }
  "root_c06_poisson_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_poisson_iidsupp(a0, &a1)) }
  "root_c06_poisson_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_poisson_fallback(a0, &a1)) }
  "root_c09_poisson_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c09_poisson_batch(a0, &a1)) }
  "root_c09_poisson_at" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c09_poisson_at(a0, a1)) }
  "root_c07_poisson_at" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c07_poisson_at(a0, a1)) }
  "root_c07_poisson_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c07_poisson_wrt(a0, a1, a2)) }
  "root_c21_poisson_new" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c21_poisson_new(a0)) }
  "root_c02_binomial_ld" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c02_binomial_ld(a0, a1, a2)) }
  "root_c03_binomial_support" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c03_binomial_support(a0, a1, a2)) }
  "root_c04_binomial_efld" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c04_binomial_efld(a0, a1, a2)) }
  "root_c04_binomial_fn" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c04_binomial_fn(a0, a1, a2)) }
  "root_c05_binomial_nat" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_binomial_nat(a0, a1)) }
  "root_c05_binomial_tonat" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_binomial_tonat(a0, a1)) }
  "root_c05_binomial_logpart" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_binomial_logpart(a0, a1)) }
  "root_c05_binomial_stat" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c05_binomial_stat(a0, a1, a2)) }
  "root_c05_binomial_base" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c05_binomial_base(a0, a1, a2)) }
  "root_c06_binomial_iid" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_binomial_iid(a0, a1, &a2)) }
  "root_c06_binomial_iidld" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_binomial_iidld(a0, a1, &a2)) }
  "root_c06_binomial_iidsupp" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_binomial_iidsupp(a0, a1, &a2)) }
  "root_c06_binomial_fallback" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_binomial_fallback(a0, a1, &a2)) }
  "root_c09_binomial_batch" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c09_binomial_batch(a0, a1, &a2)) }
  "root_c09_binomial_at" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c09_binomial_at(a0, a1, a2)) }
  "root_c07_binomial_at" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c07_binomial_at(a0, a1, a2)) }
  "root_c07_binomial_wrt" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); let a3: f64 = a[3].to_f64(); let a4: u64 = a[4].to_u64(); show(&harness::dist::root_c07_binomial_wrt(a0, a1, a2, a3, a4)) }
  "root_c20_binomial_mv" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_binomial_mv(a0, a1)) }
  "root_c21_binomial_new" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c21_binomial_new(a0, a1)) }
  "root_c02_negbin_ld" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c02_negbin_ld(a0, a1, a2)) }
  "root_c03_negbin_support" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c03_negbin_support(a0, a1, a2)) }
  "root_c04_negbin_efld" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c04_negbin_efld(a0, a1, a2)) }
  "root_c04_negbin_fn" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c04_negbin_fn(a0, a1, a2)) }
  "root_c05_negbin_nat" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_negbin_nat(a0, a1)) }
  "root_c05_negbin_tonat" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_negbin_tonat(a0, a1)) }
  "root_c05_negbin_logpart" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c05_negbin_logpart(a0, a1)) }
  "root_c05_negbin_stat" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c05_negbin_stat(a0, a1, a2)) }
  "root_c05_negbin_base" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c05_negbin_base(a0, a1, a2)) }
  "root_c06_negbin_iid" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_negbin_iid(a0, a1, &a2)) }
  "root_c06_negbin_iidld" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_negbin_iidld(a0, a1, &a2)) }
  "root_c06_negbin_iidsupp" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_negbin_iidsupp(a0, a1, &a2)) }
  "root_c06_negbin_fallback" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_negbin_fallback(a0, a1, &a2)) }
  "root_c09_negbin_batch" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: Vec<u64> = a[2].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c09_negbin_batch(a0, a1, &a2)) }
  "root_c09_negbin_at" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c09_negbin_at(a0, a1, a2)) }
  "root_c07_negbin_at" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c07_negbin_at(a0, a1, a2)) }
  "root_c07_negbin_wrt" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); let a3: f64 = a[3].to_f64(); let a4: u64 = a[4].to_u64(); show(&harness::dist::root_c07_negbin_wrt(a0, a1, a2, a3, a4)) }
  "root_c20_negbin_mv" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_negbin_mv(a0, a1)) }
  "root_c21_negbin_new" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c21_negbin_new(a0, a1)) }
  "root_c02_geometric_ld" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c02_geometric_ld(a0, a1)) }
  "root_c03_geometric_support" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c03_geometric_support(a0, a1)) }
  "root_c04_geometric_efld" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c04_geometric_efld(a0, a1)) }
  "root_c04_geometric_fn" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c04_geometric_fn(a0, a1)) }
  "root_c05_geometric_nat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_geometric_nat(a0)) }
  "root_c05_geometric_tonat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_geometric_tonat(a0)) }
  "root_c05_geometric_logpart" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_geometric_logpart(a0)) }
  "root_c05_geometric_stat" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c05_geometric_stat(a0, a1)) }
  "root_c05_geometric_base" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c05_geometric_base(a0, a1)) }
  "root_c05_geometric_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c05_geometric_rtrip(a0, a1)) }
  "root_c06_geometric_iid" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_iid(a0, &a1)) }
  "root_c06_geometric_iidef" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_iidef(a0, &a1)) }
  "root_c06_geometric_iidld" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_iidld(a0, &a1)) }
  "root_c06_geometric_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_iidsupp(a0, &a1)) }
  "root_c06_geometric_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_iidstat(a0, &a1)) }
  "root_c06_geometric_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_iidbase(a0, &a1)) }
  "root_c06_geometric_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c06_geometric_fallback(a0, &a1)) }
  "root_c09_geometric_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::dist::root_c09_geometric_batch(a0, &a1)) }
  "root_c09_geometric_at" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c09_geometric_at(a0, a1)) }
  "root_c07_geometric_at" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::dist::root_c07_geometric_at(a0, a1)) }
  "root_c07_geometric_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::dist::root_c07_geometric_wrt(a0, a1, a2)) }
  "root_c20_geometric_mv" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_geometric_mv(a0)) }
  "root_c21_geometric_new" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c21_geometric_new(a0)) }
  "root_c02_bernoulli_ld" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c02_bernoulli_ld(a0, a1)) }
  "root_c03_bernoulli_support" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c03_bernoulli_support(a0, a1)) }
  "root_c04_bernoulli_efld" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c04_bernoulli_efld(a0, a1)) }
  "root_c04_bernoulli_fn" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c04_bernoulli_fn(a0, a1)) }
  "root_c05_bernoulli_nat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_bernoulli_nat(a0)) }
  "root_c05_bernoulli_tonat" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_bernoulli_tonat(a0)) }
  "root_c05_bernoulli_logpart" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c05_bernoulli_logpart(a0)) }
  "root_c05_bernoulli_stat" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c05_bernoulli_stat(a0, a1)) }
  "root_c05_bernoulli_base" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c05_bernoulli_base(a0, a1)) }
  "root_c05_bernoulli_rtrip" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c05_bernoulli_rtrip(a0, a1)) }
  "root_c06_bernoulli_iid" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_iid(a0, &a1)) }
  "root_c06_bernoulli_iidef" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_iidef(a0, &a1)) }
  "root_c06_bernoulli_iidld" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_iidld(a0, &a1)) }
  "root_c06_bernoulli_iidsupp" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_iidsupp(a0, &a1)) }
  "root_c06_bernoulli_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_iidstat(a0, &a1)) }
  "root_c06_bernoulli_iidbase" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_iidbase(a0, &a1)) }
  "root_c06_bernoulli_fallback" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c06_bernoulli_fallback(a0, &a1)) }
  "root_c09_bernoulli_batch" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::dist::root_c09_bernoulli_batch(a0, &a1)) }
  "root_c09_bernoulli_at" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c09_bernoulli_at(a0, a1)) }
  "root_c07_bernoulli_at" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::dist::root_c07_bernoulli_at(a0, a1)) }
  "root_c07_bernoulli_wrt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u8 = a[2].to_u8(); show(&harness::dist::root_c07_bernoulli_wrt(a0, a1, a2)) }
  "root_c20_bernoulli_mv" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_bernoulli_mv(a0)) }
  "root_c21_bernoulli_new" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c21_bernoulli_new(a0)) }
  "root_c02_categorical_ld" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c02_categorical_ld(&a0, a1)) }
  "root_c03_categorical_support" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c03_categorical_support(&a0, a1)) }
  "root_c04_categorical_efld" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c04_categorical_efld(&a0, a1)) }
  "root_c04_categorical_fn" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c04_categorical_fn(&a0, a1)) }
  "root_c05_categorical_nat" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c05_categorical_nat(&a0)) }
  "root_c05_categorical_tonat" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c05_categorical_tonat(&a0)) }
  "root_c05_categorical_logpart" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c05_categorical_logpart(&a0)) }
  "root_c05_categorical_rtrip" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c05_categorical_rtrip(&a0, a1)) }
  "root_c05_categorical_stat" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c05_categorical_stat(&a0, a1)) }
  "root_c05_categorical_base" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c05_categorical_base(&a0, a1)) }
  "root_c06_categorical_fallback" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<usize> = a[1].list().iter().map(|x| x.to_usize()).collect(); show(&harness::dist::root_c06_categorical_fallback(&a0, &a1)) }
  "root_c09_categorical_batch" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<usize> = a[1].list().iter().map(|x| x.to_usize()).collect(); show(&harness::dist::root_c09_categorical_batch(&a0, &a1)) }
  "root_c09_categorical_at" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c09_categorical_at(&a0, a1)) }
  "root_c07_categorical_at" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::dist::root_c07_categorical_at(&a0, a1)) }
  "root_c07_categorical_wrt" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: usize = a[2].to_usize(); show(&harness::dist::root_c07_categorical_wrt(&a0, &a1, a2)) }
  "root_c20_categorical_mv" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c20_categorical_mv(&a0)) }
  "root_c21_categorical_new" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c21_categorical_new(&a0)) }
  "root_c01_cauchy_logpdf" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c01_cauchy_logpdf(a0, a1, a2)) }
  "root_c01_studentt_logpdf" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c01_studentt_logpdf(a0, a1)) }
  "root_c20_normal_acc" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_normal_acc(a0, a1)) }
  "root_c20_cauchy_acc" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_cauchy_acc(a0, a1)) }
  "root_c20_cauchy_std" => {  show(&harness::dist::root_c20_cauchy_std()) }
  "root_c20_chisq_acc" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_chisq_acc(a0)) }
  "root_c20_gamma_acc" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_gamma_acc(a0, a1)) }
  "root_c20_gamma_fss" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_gamma_fss(a0, a1)) }
  "root_c20_studentt_acc" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_studentt_acc(a0)) }
  "root_c20_bernoulli_acc" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_bernoulli_acc(a0)) }
  "root_c20_binomial_acc" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_binomial_acc(a0, a1)) }
  "root_c20_geometric_acc" => { let a0: f64 = a[0].to_f64(); show(&harness::dist::root_c20_geometric_acc(a0)) }
  "root_c20_negbin_acc" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); show(&harness::dist::root_c20_negbin_acc(a0, a1)) }
  "root_c20_categorical_uniform" => { let a0: usize = a[0].to_usize(); show(&harness::dist::root_c20_categorical_uniform(a0)) }
  "root_c11_logfact" => { let a0: u64 = a[0].to_u64(); show(&harness::dist::root_c11_logfact(a0)) }
  "root_c06_normal_inh" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_normal_inh(a0, a1, &a2)) }
  "root_c06_cauchy_inh" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_cauchy_inh(a0, a1, &a2)) }
  "root_c06_studentt_inh" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::dist::root_c06_studentt_inh(a0, &a1)) }
  "root_c20_defaults" => {  show(&harness::dist::root_c20_defaults()) }
  "root_c20_defaults2" => {  show(&harness::dist::root_c20_defaults2()) }
  "root_c20_params" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::dist::root_c20_params(a0, a1, a2)) }
  "root_c17_normal_zo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_normal_zo(a0, a1, a2)) }
  "root_c17_normal_zot" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_normal_zot(a0, a1, a2)) }
  "root_c17_normal_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::ef::root_c17_normal_zow(a0, a1, a2, a3, a4)) }
  "root_c17_normal_zowt" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::ef::root_c17_normal_zowt(a0, a1, a2, a3, a4)) }
  "root_c17_exp_gamma_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::ef::root_c17_exp_gamma_zow(a0, a1, a2, a3)) }
  "root_c17_normal_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_normal_iidzo(a0, a1, &a2)) }
  "root_c17_stdnormal_zo" => { let a0: f64 = a[0].to_f64(); show(&harness::ef::root_c17_stdnormal_zo(a0)) }
  "root_c17_stdnormal_zot" => { let a0: f64 = a[0].to_f64(); show(&harness::ef::root_c17_stdnormal_zot(a0)) }
  "root_c17_exponential_zo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_exponential_zo(a0, a1)) }
  "root_c17_exponential_zot" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_exponential_zot(a0, a1)) }
  "root_c17_exponential_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_exponential_zow(a0, a1, a2)) }
  "root_c17_exponential_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_exponential_iidzo(a0, &a1)) }
  "root_c17_gamma_zo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_gamma_zo(a0, a1, a2)) }
  "root_c17_gamma_zot" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_gamma_zot(a0, a1, a2)) }
  "root_c17_gamma_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::ef::root_c17_gamma_zow(a0, a1, a2, a3, a4)) }
  "root_c17_gamma_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_gamma_iidzo(a0, a1, &a2)) }
  "root_c17_beta_zo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_beta_zo(a0, a1, a2)) }
  "root_c17_beta_zot" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_beta_zot(a0, a1, a2)) }
  "root_c17_beta_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::ef::root_c17_beta_zow(a0, a1, a2, a3, a4)) }
  "root_c17_beta_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_beta_iidzo(a0, a1, &a2)) }
  "root_c17_chisq_zo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_chisq_zo(a0, a1)) }
  "root_c17_chisq_zot" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_chisq_zot(a0, a1)) }
  "root_c17_chisq_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_chisq_zow(a0, a1, a2)) }
  "root_c17_chisq_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_chisq_iidzo(a0, &a1)) }
  "root_c17_poisson_zo" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::ef::root_c17_poisson_zo(a0, a1)) }
  "root_c17_poisson_zot" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::ef::root_c17_poisson_zot(a0, a1)) }
  "root_c17_poisson_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::ef::root_c17_poisson_zow(a0, a1, a2)) }
  "root_c17_binomial_zo" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::ef::root_c17_binomial_zo(a0, a1, a2)) }
  "root_c17_binomial_zot" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::ef::root_c17_binomial_zot(a0, a1, a2)) }
  "root_c17_binomial_zow" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); let a3: f64 = a[3].to_f64(); let a4: u64 = a[4].to_u64(); show(&harness::ef::root_c17_binomial_zow(a0, a1, a2, a3, a4)) }
  "root_c17_negbin_zo" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::ef::root_c17_negbin_zo(a0, a1, a2)) }
  "root_c17_negbin_zot" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::ef::root_c17_negbin_zot(a0, a1, a2)) }
  "root_c17_negbin_zow" => { let a0: u64 = a[0].to_u64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); let a3: f64 = a[3].to_f64(); let a4: u64 = a[4].to_u64(); show(&harness::ef::root_c17_negbin_zow(a0, a1, a2, a3, a4)) }
  "root_c17_geometric_zo" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::ef::root_c17_geometric_zo(a0, a1)) }
  "root_c17_geometric_zot" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::ef::root_c17_geometric_zot(a0, a1)) }
  "root_c17_geometric_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::ef::root_c17_geometric_zow(a0, a1, a2)) }
  "root_c17_geometric_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u64> = a[1].list().iter().map(|x| x.to_u64()).collect(); show(&harness::ef::root_c17_geometric_iidzo(a0, &a1)) }
  "root_c17_bernoulli_zo" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::ef::root_c17_bernoulli_zo(a0, a1)) }
  "root_c17_bernoulli_zot" => { let a0: f64 = a[0].to_f64(); let a1: u8 = a[1].to_u8(); show(&harness::ef::root_c17_bernoulli_zot(a0, a1)) }
  "root_c17_bernoulli_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: u8 = a[2].to_u8(); show(&harness::ef::root_c17_bernoulli_zow(a0, a1, a2)) }
  "root_c17_bernoulli_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: Vec<u8> = a[1].list().iter().map(|x| x.to_u8()).collect(); show(&harness::ef::root_c17_bernoulli_iidzo(a0, &a1)) }
  "root_c17_categorical_zo" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::ef::root_c17_categorical_zo(&a0, a1)) }
  "root_c17_categorical_zot" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: usize = a[1].to_usize(); show(&harness::ef::root_c17_categorical_zot(&a0, a1)) }
  "root_c04_any_efld" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c04_any_efld(a0, a1)) }
  "root_c04_any_fn" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c04_any_fn(a0, a1)) }
  "root_c05_any_tonat" => { let a0: f64 = a[0].to_f64(); show(&harness::ef::root_c05_any_tonat(a0)) }
  "root_c06_any_iid" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_any_iid(a0, &a1)) }
  "root_c06_any_iidef" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_any_iidef(a0, &a1)) }
  "root_c06_any_iidld" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_any_iidld(a0, &a1)) }
  "root_c06_any_iidstat" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_any_iidstat(a0, &a1)) }
  "root_c17_any_zo" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_any_zo(a0, a1)) }
  "root_c17_any_zow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_any_zow(a0, a1, a2)) }
  "root_c17_any_iidzo" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_any_iidzo(a0, &a1)) }
  "root_c17_any_iidzot" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_any_iidzot(a0, &a1)) }
  "root_c17_any_iidzow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_any_iidzow(a0, a1, &a2)) }
  "root_c17_inl_normal" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_inl_normal(a0, a1, a2)) }
  "root_c17_inl_exponential" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_inl_exponential(a0, a1)) }
  "root_c17_add_arrays" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::ef::root_c17_add_arrays(a0, a1, a2, a3, a4, a5)) }
  "root_c17_default_array" => {  show(&harness::ef::root_c17_default_array()) }
  "root_c17_sum_arrays" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_sum_arrays(&a0)) }
  "root_c17_sum_stats" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_sum_stats(&a0)) }
  "root_c17_ef_dot" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ef_dot(&a0, &a1)) }
  "root_c17_ef_sum2" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ef_sum2(&a0, &a1)) }
  "root_c17_ef_sum0" => {  show(&harness::ef::root_c17_ef_sum0()) }
  "root_c17_ft_dot" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ft_dot(&a0, &a1)) }
  "root_c17_ft_efdot" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ft_efdot(&a0, &a1)) }
  "root_c17_ft_ld" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::ef::root_c17_ft_ld(&a0, &a1, a2, a3)) }
  "root_c17_ft_iid" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::ef::root_c17_ft_iid(&a0, &a1, a2, a3, a4)) }
  "root_c17_ft_logistic" => { let a0: f64 = a[0].to_f64(); show(&harness::ef::root_c17_ft_logistic(a0)) }
  "root_c17_ft_softplus" => { let a0: f64 = a[0].to_f64(); show(&harness::ef::root_c17_ft_softplus(a0)) }
  "root_c17_ft_lse" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ft_lse(&a0)) }
  "root_c17_ft_sum" => { let a0: u64 = a[0].to_u64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ft_sum(a0, &a1)) }
  "root_c17_ft_stdnormal" => { let a0: f64 = a[0].to_f64(); show(&harness::ef::root_c17_ft_stdnormal(a0)) }
  "root_c17_ft_normal" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::ef::root_c17_ft_normal(a0, a1, a2)) }
  "root_c17_ft_exponential" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_ft_exponential(a0, a1)) }
  "root_c17_ft_poisson" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::ef::root_c17_ft_poisson(a0, a1)) }
  "root_c17_ft_sumn" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ft_sumn(&a0)) }
  "root_c17_ef_sumn" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c17_ef_sumn(&a0)) }
  "root_c06_any_nested" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_any_nested(a0, &a1, &a2)) }
  "root_c06_any_nestedef" => { let a0: f64 = a[0].to_f64(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_any_nestedef(a0, &a1)) }
  "root_c06_normal_nested" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); let a3: Vec<f64> = a[3].list().iter().map(|x| x.to_f64()).collect(); show(&harness::ef::root_c06_normal_nested(a0, a1, &a2, &a3)) }
  "root_c25_rules" => {  show(&harness::eg::root_c25_rules()) }
  "root_c25_opt" => { let a0 = a[0].expr(); show(&harness::eg::root_c25_opt(&a0)) }
  "root_c25_again" => { let a0 = a[0].expr(); let a1 = a[1].expr(); show(&harness::eg::root_c25_again(&a0, &a1)) }
  "root_c15_single" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a3: f64 = a[3].to_f64(); show(&harness::jit::root_c15_single(&a0, &a1, &a2, a3)) }
  "root_c15_param" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::jit::root_c15_param(&a0, &a1, &a2, &a3, a4, a5)) }
  "root_c15_params2" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4: std::collections::HashMap<String,f64> = a[4].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a5: f64 = a[5].to_f64(); let a6: f64 = a[6].to_f64(); let a7: f64 = a[7].to_f64(); show(&harness::jit::root_c15_params2(&a0, &a1, &a2, &a3, &a4, a5, a6, a7)) }
  "root_c15_params3" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4 = a[4].to_s(); let a5: std::collections::HashMap<String,f64> = a[5].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a6: f64 = a[6].to_f64(); let a7: f64 = a[7].to_f64(); let a8: f64 = a[8].to_f64(); let a9: f64 = a[9].to_f64(); show(&harness::jit::root_c15_params3(&a0, &a1, &a2, &a3, &a4, &a5, a6, a7, a8, a9)) }
  "root_c15_custom" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: f64 = a[2].to_f64(); show(&harness::jit::root_c15_custom(a0, a1, a2)) }
  "root_c15_customjit" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: f64 = a[2].to_f64(); show(&harness::jit::root_c15_customjit(a0, a1, a2)) }
  "root_c15_wrongcall" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a4: f64 = a[4].to_f64(); show(&harness::jit::root_c15_wrongcall(&a0, &a1, &a2, &a3, a4)) }
  "root_c15_tsingle" => { let a0 = a[0].repr(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::jit::root_c15_tsingle(a0, &a1, a2)) }
  "root_c15_tparam" => { let a0 = a[0].repr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::jit::root_c15_tparam(a0, &a1, &a2, a3, a4)) }
  "root_c15_tparams" => { let a0 = a[0].repr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); let a6: f64 = a[6].to_f64(); show(&harness::jit::root_c15_tparams(a0, &a1, &a2, &a3, a4, a5, a6)) }
  "root_c15_tsig" => { let a0 = a[0].repr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::jit::root_c15_tsig(a0, &a1, &a2, a3, a4)) }
  "root_c15_tconst" => { let a0 = a[0].repr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); show(&harness::jit::root_c15_tconst(a0, &a1, &a2, a3, a4)) }
  "root_c15_ln" => { let a0: f64 = a[0].to_f64(); show(&harness::jit::root_c15_ln(a0)) }
  "root_c15_exp" => { let a0: f64 = a[0].to_f64(); show(&harness::jit::root_c15_exp(a0)) }
  "root_c15_sin" => { let a0: f64 = a[0].to_f64(); show(&harness::jit::root_c15_sin(a0)) }
  "root_c15_cos" => { let a0: f64 = a[0].to_f64(); show(&harness::jit::root_c15_cos(a0)) }
  "root_c15_pow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::jit::root_c15_pow(a0, a1)) }
  "root_c15_batch0" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::jit::root_c15_batch0(&a0, &a1)) }
  "root_c15_batch2" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::jit::root_c15_batch2(&a0, &a1, &a2, &a3, a4, a5)) }
  "root_c15_batch4" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4 = a[4].to_s(); let a5: std::collections::HashMap<String,f64> = a[5].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a6: f64 = a[6].to_f64(); let a7: f64 = a[7].to_f64(); let a8: f64 = a[8].to_f64(); let a9: f64 = a[9].to_f64(); show(&harness::jit::root_c15_batch4(&a0, &a1, &a2, &a3, &a4, &a5, a6, a7, a8, a9)) }
  "root_c15_batch3" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4: std::collections::HashMap<String,f64> = a[4].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a5: f64 = a[5].to_f64(); let a6: f64 = a[6].to_f64(); let a7: f64 = a[7].to_f64(); show(&harness::jit::root_c15_batch3(&a0, &a1, &a2, &a3, &a4, a5, a6, a7)) }
  "root_c15_batch6" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); let a6: f64 = a[6].to_f64(); let a7: f64 = a[7].to_f64(); let a8: f64 = a[8].to_f64(); show(&harness::jit::root_c15_batch6(&a0, &a1, &a2, a3, a4, a5, a6, a7, a8)) }
  "root_c15_batch8" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a3: f64 = a[3].to_f64(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); let a6: f64 = a[6].to_f64(); let a7: f64 = a[7].to_f64(); let a8: f64 = a[8].to_f64(); let a9: f64 = a[9].to_f64(); let a10: f64 = a[10].to_f64(); show(&harness::jit::root_c15_batch8(&a0, &a1, &a2, a3, a4, a5, a6, a7, a8, a9, a10)) }
  "root_c15_bposterior" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::jit::root_c15_bposterior(&a0, &a1, &a2, &a3, a4, a5)) }
  "root_c15_blikelihood" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::jit::root_c15_blikelihood(&a0, &a1, &a2, &a3, a4, a5)) }
  "root_c15_bprior" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); show(&harness::jit::root_c15_bprior(&a0, &a1, &a2, &a3, a4, a5)) }
  "root_c15_bmixed" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4: std::collections::HashMap<String,f64> = a[4].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a5: f64 = a[5].to_f64(); let a6: f64 = a[6].to_f64(); show(&harness::jit::root_c15_bmixed(&a0, &a1, &a2, &a3, &a4, a5, a6)) }
  "root_c19_de_arith" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_de_arith(a0, a1)) }
  "root_c19_de_pow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_de_pow(a0, a1)) }
  "root_c19_de_un" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_de_un(a0)) }
  "root_c19_de_ln" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_de_ln(a0)) }
  "root_c19_de_sqrt" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_de_sqrt(a0)) }
  "root_c19_de_var" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_de_var(&a0, a1)) }
  "root_c19_de_logistic" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_de_logistic(a0)) }
  "root_c19_de_softplus" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_de_softplus(a0)) }
  "root_c19_de_sigmoid" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_de_sigmoid(a0)) }
  "root_c19_pp_add" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::mj::root_c19_pp_add(&a0, &a1)) }
  "root_c19_pp_sub" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::mj::root_c19_pp_sub(&a0, &a1)) }
  "root_c19_pp_mul" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::mj::root_c19_pp_mul(&a0, &a1)) }
  "root_c19_pp_div" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::mj::root_c19_pp_div(&a0, &a1)) }
  "root_c19_pp_pow" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::mj::root_c19_pp_pow(&a0, &a1)) }
  "root_c19_pp_neg" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_neg(&a0)) }
  "root_c19_pp_ln" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_ln(&a0)) }
  "root_c19_pp_exp" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_exp(&a0)) }
  "root_c19_pp_sqrt" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_sqrt(&a0)) }
  "root_c19_pp_sin" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_sin(&a0)) }
  "root_c19_pp_cos" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_cos(&a0)) }
  "root_c19_pp_logistic" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_logistic(&a0)) }
  "root_c19_pp_softplus" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_softplus(&a0)) }
  "root_c19_pp_sigmoid" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_sigmoid(&a0)) }
  "root_c19_pp_var" => { let a0 = a[0].to_s(); show(&harness::mj::root_c19_pp_var(&a0)) }
  "root_c19_pp_const" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_pp_const(a0)) }
  "root_c19_pp_powc" => { let a0: f64 = a[0].to_f64(); let a1 = a[1].to_s(); show(&harness::mj::root_c19_pp_powc(a0, &a1)) }
  "root_c19_horner" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_horner(&a0, a1)) }
  "root_c19_hornerx" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_hornerx(&a0, a1)) }
  "root_c19_roots" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_roots(&a0, a1)) }
  "root_c19_deriv" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: f64 = a[1].to_f64(); show(&harness::mj::root_c19_deriv(&a0, a1)) }
  "root_c19_wrap" => { let a0: f64 = a[0].to_f64(); show(&harness::mj::root_c19_wrap(a0)) }
  "root_c24_ff" => { let a0: f64 = a[0].to_f64(); show(&harness::num::root_c24_ff(a0)) }
  "root_c24_uf" => { let a0: u64 = a[0].to_u64(); show(&harness::num::root_c24_uf(a0)) }
  "root_c24_if" => { let a0: i64 = a[0].to_i64(); show(&harness::num::root_c24_if(a0)) }
  "root_c24_fu" => { let a0: f64 = a[0].to_f64(); show(&harness::num::root_c24_fu(a0)) }
  "root_c24_fi" => { let a0: f64 = a[0].to_f64(); show(&harness::num::root_c24_fi(a0)) }
  "root_c24_fu32" => { let a0: f64 = a[0].to_f64(); show(&harness::num::root_c24_fu32(a0)) }
  "root_c24_uu" => { let a0: u64 = a[0].to_u64(); show(&harness::num::root_c24_uu(a0)) }
  "root_c24_iu" => { let a0: i64 = a[0].to_i64(); show(&harness::num::root_c24_iu(a0)) }
  "root_c24_or_ff" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::num::root_c24_or_ff(a0, a1)) }
  "root_c24_or_fu" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::num::root_c24_or_fu(a0, a1)) }
  "root_c24_or_iu32" => { let a0: i64 = a[0].to_i64(); let a1: u32 = a[1].to_u32(); show(&harness::num::root_c24_or_iu32(a0, a1)) }
  "root_c24_fconv" => { let a0: f64 = a[0].to_f64(); show(&harness::num::root_c24_fconv(a0)) }
  "root_c24_const" => { let a0: f64 = a[0].to_f64(); show(&harness::num::root_c24_const(a0)) }
  "root_c24_sub1" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::num::root_c24_sub1([a0[0]], [a1[0]])) }
  "root_c24_sub2" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::num::root_c24_sub2([a0[0], a0[1]], [a1[0], a1[1]])) }
  "root_c24_sub5" => { let a0: Vec<f64> = a[0].list().iter().map(|x| x.to_f64()).collect(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); show(&harness::num::root_c24_sub5([a0[0], a0[1], a0[2], a0[3], a0[4]], [a1[0], a1[1], a1[2], a1[3], a1[4]])) }
  "root_c24_inf" => { let a0: bool = a[0].to_bool(); let a1: f64 = a[1].to_f64(); let a2: u64 = a[2].to_u64(); show(&harness::num::root_c24_inf(a0, a1, a2)) }
  "root_c24_nan" => { let a0: f64 = a[0].to_f64(); let a1: u64 = a[1].to_u64(); show(&harness::num::root_c24_nan(a0, a1)) }
  "root_c23_display" => { let a0 = a[0].expr(); show(&harness::pr::root_c23_display(&a0)) }
  "root_c23_pretty" => { let a0 = a[0].expr(); show(&harness::pr::root_c23_pretty(&a0)) }
  "root_c23_latex" => { let a0 = a[0].expr(); show(&harness::pr::root_c23_latex(&a0)) }
  "root_c23_python" => { let a0 = a[0].expr(); show(&harness::pr::root_c23_python(&a0)) }
  "root_c23_dlatex" => { let a0 = a[0].expr(); show(&harness::pr::root_c23_dlatex(&a0)) }
  "root_c23_dpython" => { let a0 = a[0].expr(); show(&harness::pr::root_c23_dpython(&a0)) }
  "root_c23_equation" => { let a0 = a[0].to_s(); let a1 = a[1].expr(); show(&harness::pr::root_c23_equation(&a0, &a1)) }
  "root_c12_eval" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c12_eval(&a0, &a1)) }
  "root_c12_single" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c12_single(&a0, &a1, a2)) }
  "root_c12_poly" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c12_poly(&a0, &a1, a2)) }
  "root_c12_linear" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c12_linear(&a0, &a1, a2)) }
  "root_c12_coeffs" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c12_coeffs(&a0, &a1, a2)) }
  "root_c12_smart" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c12_smart(&a0, &a1, a2)) }
  "root_c12_batch" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::sym::root_c12_batch(&a0, &a1, &a2)) }
  "root_c12_batchopt" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); show(&harness::sym::root_c12_batchopt(&a0, &a1, &a2)) }
  "root_c12_batchvars" => { let a0 = a[0].expr(); let a1: Vec<std::collections::HashMap<String,f64>> = a[1].list().iter().map(|m| m.list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect()).collect(); show(&harness::sym::root_c12_batchvars(&a0, &a1)) }
  "root_c12_grid" => { let a0 = a[0].expr(); let a1 = a[1].to_s(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); let a3 = a[3].to_s(); let a4: Vec<f64> = a[4].list().iter().map(|x| x.to_f64()).collect(); show(&harness::sym::root_c12_grid(&a0, &a1, &a2, &a3, &a4)) }
  "root_c12_complexity" => { let a0 = a[0].expr(); show(&harness::sym::root_c12_complexity(&a0)) }
  "root_c12_variables" => { let a0 = a[0].expr(); show(&harness::sym::root_c12_variables(&a0)) }
  "root_c13_simplify" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c13_simplify(a0, &a1)) }
  "root_c13_eq" => { let a0 = a[0].expr(); let a1 = a[1].expr(); show(&harness::sym::root_c13_eq(&a0, &a1)) }
  "root_c22_eval" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_eval(a0, a1, &a2)) }
  "root_c22_single" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2 = a[2].to_s(); let a3: f64 = a[3].to_f64(); show(&harness::sym::root_c22_single(a0, a1, &a2, a3)) }
  "root_c22_simplified" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_simplified(a0, a1, &a2)) }
  "root_c22_subst" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_subst(a0, a1, &a2)) }
  "root_c22_jeval" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_jeval(a0, a1, &a2)) }
  "root_c22_jsingle" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2 = a[2].to_s(); let a3: f64 = a[3].to_f64(); show(&harness::sym::root_c22_jsingle(a0, a1, &a2, a3)) }
  "root_c22_jsimplified" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_jsimplified(a0, a1, &a2)) }
  "root_c22_quadratic" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::sym::root_c22_quadratic(&a0, a1, a2, a3)) }
  "root_c22_linear" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c22_linear(&a0, a1, a2)) }
  "root_c22_normconst" => { let a0: f64 = a[0].to_f64(); let a1 = a[1].to_s(); let a2: f64 = a[2].to_f64(); show(&harness::sym::root_c22_normconst(a0, &a1, a2)) }
  "root_c22_ops" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_ops(a0, a1, &a2)) }
  "root_c22_ctors" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_ctors(a0, a1, &a2)) }
  "root_c22_opsr" => { let a0 = a[0].expr(); let a1: f64 = a[1].to_f64(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_opsr(a0, a1, &a2)) }
  "root_c22_opsl" => { let a0 = a[0].expr(); let a1: f64 = a[1].to_f64(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_opsl(a0, a1, &a2)) }
  "root_c22_unary" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_unary(a0, &a1)) }
  "root_c22_unary2" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_unary2(a0, &a1)) }
  "root_c22_powers" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_powers(a0, &a1)) }
  "root_c22_leaves" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); let a2: i32 = a[2].to_i32(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c22_leaves(&a0, a1, a2, &a3)) }
  "root_c14_eval" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c14_eval(&a0, &a1)) }
  "root_c14_simp" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c14_simp(a0, &a1)) }
  "root_c14_evals" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c14_evals(&a0, &a1, &a2, &a3)) }
  "root_c14_simps" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c14_simps(a0, a1, &a2)) }
  "root_c14_clear" => {  show(&harness::sym::root_c14_clear()) }
  "root_c14_stats" => {  show(&harness::sym::root_c14_stats()) }
  "root_c14_rates" => { let a0: usize = a[0].to_usize(); let a1: usize = a[1].to_usize(); let a2: usize = a[2].to_usize(); let a3: usize = a[3].to_usize(); show(&harness::sym::root_c14_rates(a0, a1, a2, a3)) }
  "root_c18_likelihood" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_likelihood(&a0, &a1, &a2, &a3)) }
  "root_c18_prior" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_prior(&a0, a1, a2, &a3)) }
  "root_c18_posterior" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_posterior(a0, a1, &a2)) }
  "root_c18_hierarchical" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); let a2 = a[2].to_s(); let a3 = a[3].to_s(); let a4: f64 = a[4].to_f64(); let a5: f64 = a[5].to_f64(); let a6: std::collections::HashMap<String,f64> = a[6].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_hierarchical(&a0, &a1, &a2, &a3, a4, a5, &a6)) }
  "root_c18_mixture" => { let a0 = a[0].to_s(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: Vec<f64> = a[2].list().iter().map(|x| x.to_f64()).collect(); let a3: Vec<f64> = a[3].list().iter().map(|x| x.to_f64()).collect(); let a4: std::collections::HashMap<String,f64> = a[4].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_mixture(&a0, &a1, &a2, &a3, &a4)) }
  "root_c18_mixold" => { let a0: Vec<(f64, symbolic_math::Expr)> = a[0].list().iter().map(|x| {let l=x.list(); (l[0].to_f64(), l[1].expr())}).collect(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_mixold(&a0, &a1)) }
  "root_c18_variable" => { let a0 = a[0].to_s(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_variable(&a0, &a1)) }
  "root_c18_normal" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2 = a[2].expr(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_normal(a0, a1, a2, &a3)) }
  "root_c18_kernel" => { let a0 = a[0].expr(); let a1 = a[1].expr(); let a2 = a[2].expr(); let a3: std::collections::HashMap<String,f64> = a[3].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_kernel(a0, a1, a2, &a3)) }
  "root_c18_curves" => { let a0 = a[0].expr(); let a1: std::collections::HashMap<String,f64> = a[1].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_curves(a0, &a1)) }
  "root_c18_poly" => { let a0 = a[0].expr(); let a1: Vec<f64> = a[1].list().iter().map(|x| x.to_f64()).collect(); let a2: std::collections::HashMap<String,f64> = a[2].list().iter().map(|x| {let l=x.list(); (l[0].to_s(),l[1].to_f64())}).collect(); show(&harness::sym::root_c18_poly(a0, &a1, &a2)) }
  "root_c16_de_arith" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_de_arith(a0, a1)) }
  "root_c16_de_pow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_de_pow(a0, a1)) }
  "root_c16_de_un" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_de_un(a0)) }
  "root_c16_de_ln" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_de_ln(a0)) }
  "root_c16_de_sqrt" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_de_sqrt(a0)) }
  "root_c16_de_var" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_de_var(&a0, a1)) }
  "root_c16_fe_arith" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_fe_arith(a0, a1)) }
  "root_c16_fe_pow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_fe_pow(a0, a1)) }
  "root_c16_fe_un" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_fe_un(a0)) }
  "root_c16_fe_ln" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_fe_ln(a0)) }
  "root_c16_fe_sqrt" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_fe_sqrt(a0)) }
  "root_c16_fe_var" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_fe_var(&a0, a1)) }
  "root_c16_ve_arith" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_ve_arith(a0, a1)) }
  "root_c16_ve_pow" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_ve_pow(a0, a1)) }
  "root_c16_ve_un" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_ve_un(a0)) }
  "root_c16_ve_ln" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_ve_ln(a0)) }
  "root_c16_ve_sqrt" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_ve_sqrt(a0)) }
  "root_c16_ve_var" => { let a0 = a[0].to_s(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_ve_var(&a0, a1)) }
  "root_c16_de_logistic" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_de_logistic(a0)) }
  "root_c16_de_softplus" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_de_softplus(a0)) }
  "root_c16_de_sigmoid" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_de_sigmoid(a0)) }
  "root_c16_pp_add" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::tag::root_c16_pp_add(&a0, &a1)) }
  "root_c16_pp_sub" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::tag::root_c16_pp_sub(&a0, &a1)) }
  "root_c16_pp_mul" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::tag::root_c16_pp_mul(&a0, &a1)) }
  "root_c16_pp_div" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::tag::root_c16_pp_div(&a0, &a1)) }
  "root_c16_pp_pow" => { let a0 = a[0].to_s(); let a1 = a[1].to_s(); show(&harness::tag::root_c16_pp_pow(&a0, &a1)) }
  "root_c16_pp_neg" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_neg(&a0)) }
  "root_c16_pp_ln" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_ln(&a0)) }
  "root_c16_pp_exp" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_exp(&a0)) }
  "root_c16_pp_sqrt" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_sqrt(&a0)) }
  "root_c16_pp_sin" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_sin(&a0)) }
  "root_c16_pp_cos" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_cos(&a0)) }
  "root_c16_pp_logistic" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_logistic(&a0)) }
  "root_c16_pp_softplus" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_softplus(&a0)) }
  "root_c16_pp_sigmoid" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_sigmoid(&a0)) }
  "root_c16_pp_var" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_pp_var(&a0)) }
  "root_c16_pp_const" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_pp_const(a0)) }
  "root_c16_pp_powc" => { let a0: f64 = a[0].to_f64(); let a1 = a[1].to_s(); show(&harness::tag::root_c16_pp_powc(a0, &a1)) }
  "root_c16_jt_add" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_jt_add(a0, a1)) }
  "root_c16_jt_sub" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_jt_sub(a0, a1)) }
  "root_c16_jt_mul" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_jt_mul(a0, a1)) }
  "root_c16_jt_div" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_jt_div(a0, a1)) }
  "root_c16_jt_pow" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_jt_pow(a0, a1)) }
  "root_c16_jt_neg" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_neg(a0)) }
  "root_c16_jt_ln" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_ln(a0)) }
  "root_c16_jt_exp" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_exp(a0)) }
  "root_c16_jt_sqrt" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_sqrt(a0)) }
  "root_c16_jt_sin" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_sin(a0)) }
  "root_c16_jt_cos" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_cos(a0)) }
  "root_c16_jt_logistic" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_logistic(a0)) }
  "root_c16_jt_softplus" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_softplus(a0)) }
  "root_c16_jt_sigmoid" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jt_sigmoid(a0)) }
  "root_c16_jt_const" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_jt_const(a0)) }
  "root_c16_jt_var" => { let a0 = a[0].to_s(); show(&harness::tag::root_c16_jt_var(&a0)) }
  "root_c16_jr_complexity" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jr_complexity(&a0)) }
  "root_c16_jr_constants" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jr_constants(&a0)) }
  "root_c16_jr_variables" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_jr_variables(&a0)) }
  "root_c16_fp_stdnormal_de" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_fp_stdnormal_de(a0)) }
  "root_c16_fp_normal_de" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::tag::root_c16_fp_normal_de(a0, a1, a2)) }
  "root_c16_fp_exponential_de" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_fp_exponential_de(a0, a1)) }
  "root_c16_fp_stdnormal_jt" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_fp_stdnormal_jt(a0)) }
  "root_c16_fp_normal_jt" => { let a0 = a[0].repr(); let a1 = a[1].repr(); let a2 = a[2].repr(); show(&harness::tag::root_c16_fp_normal_jt(a0, a1, a2)) }
  "root_c16_fp_exponential_jt" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_fp_exponential_jt(a0, a1)) }
  "root_c16_dp_stdnormal_de" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_dp_stdnormal_de(a0)) }
  "root_c16_dp_normal_de" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::tag::root_c16_dp_normal_de(a0, a1, a2)) }
  "root_c16_dp_exponential_de" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_dp_exponential_de(a0, a1)) }
  "root_c16_dp_stdnormal_jt" => { let a0 = a[0].repr(); show(&harness::tag::root_c16_dp_stdnormal_jt(a0)) }
  "root_c16_dp_normal_jt" => { let a0 = a[0].repr(); let a1 = a[1].repr(); let a2 = a[2].repr(); show(&harness::tag::root_c16_dp_normal_jt(a0, a1, a2)) }
  "root_c16_dp_exponential_jt" => { let a0 = a[0].repr(); let a1 = a[1].repr(); show(&harness::tag::root_c16_dp_exponential_jt(a0, a1)) }
  "root_c16_dp_cauchy_de" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::tag::root_c16_dp_cauchy_de(a0, a1, a2)) }
  "root_c16_dp_cauchy_jt" => { let a0 = a[0].repr(); let a1 = a[1].repr(); let a2 = a[2].repr(); show(&harness::tag::root_c16_dp_cauchy_jt(a0, a1, a2)) }
  "root_c16_ve_normal" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::tag::root_c16_ve_normal(a0, a1, a2)) }
  "root_c16_ve_exponential" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_ve_exponential(a0, a1)) }
  "root_c16_ve_gamma" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); show(&harness::tag::root_c16_ve_gamma(a0, a1, a2)) }
  "root_c16_ve_lgamma" => { let a0: f64 = a[0].to_f64(); show(&harness::tag::root_c16_ve_lgamma(a0)) }
  "root_c16_agree_quad" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); let a2: f64 = a[2].to_f64(); let a3: f64 = a[3].to_f64(); show(&harness::tag::root_c16_agree_quad(a0, a1, a2, a3)) }
  "root_c16_agree_auto" => { let a0: f64 = a[0].to_f64(); let a1: f64 = a[1].to_f64(); show(&harness::tag::root_c16_agree_auto(a0, a1)) }
  _ => "UNKNOWN".to_string(),
 }
}
