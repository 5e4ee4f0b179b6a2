//! Driver of the compiler's front end: the repository's grammar, ast.rs and utils.rs.
//! Frames on stdin/stdout: u32 LE field count, then per field u32 LE length and bytes.
//! Request: op, text. Response: ok|error|panic, payload.
#![allow(dead_code, unused)]
#[path = "../../../build/tree/src/yul2ir"]
pub mod yul2ir {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(pub yul);
    pub mod ast;
    pub mod utils;
}
use std::io::{Read, Write};
use yul2ir::ast::*;
use yul2ir::utils;

fn q(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn list<T>(o: &mut String, v: &[T], f: impl Fn(&mut String, &T)) {
    o.push('[');
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        f(o, x);
    }
    o.push(']');
}
fn node(o: &mut String, tag: &str, parts: &[&dyn Fn(&mut String)]) {
    o.push('[');
    q(o, tag);
    for p in parts {
        o.push(',');
        p(o);
    }
    o.push(']');
}
fn id(o: &mut String, i: &Identifier) {
    q(o, &i.name)
}
fn oid(o: &mut String, i: &Option<Identifier>) {
    match i {
        Some(i) => id(o, i),
        None => o.push_str("null"),
    }
}
fn tid(o: &mut String, t: &TypedIdentifier) {
    node(o, "id", &[&|o| id(o, &t.identifier), &|o| match &t.type_name {
        Some(t) => id(o, &t.type_name),
        None => o.push_str("null"),
    }])
}
fn lit(o: &mut String, l: &Literal) {
    match l {
        Literal::TrueLiteral(t) => node(o, "true", &[&|o| oid(o, t)]),
        Literal::FalseLiteral(t) => node(o, "false", &[&|o| oid(o, t)]),
        Literal::HexNumberLiteral(h, t) => node(o, "hex", &[&|o| q(o, &h.hex), &|o| oid(o, t)]),
        Literal::DecimalNumberLiteral(d, t) => node(o, "dec", &[&|o| q(o, &d.dec), &|o| oid(o, t)]),
        Literal::StringLiteral(s, t) => node(o, "str", &[&|o| q(o, &s.str), &|o| oid(o, t)]),
    }
}
fn call(o: &mut String, c: &FunctionCall) {
    node(o, "call", &[&|o| id(o, &c.id), &|o| list(o, &c.arguments, expr)])
}
fn expr(o: &mut String, e: &Expression) {
    match e {
        Expression::Identifier(i) => node(o, "var", &[&|o| id(o, i)]),
        Expression::FunctionCall(c) => call(o, c),
        Expression::Literal(l) => lit(o, l),
    }
}
fn block(o: &mut String, b: &Block) {
    list(o, &b.statements, stmt)
}
fn stmt(o: &mut String, s: &Statement) {
    match s {
        Statement::Assignment(a) => node(o, "assign", &[&|o| list(o, &a.identifiers, id), &|o| expr(o, &a.value)]),
        Statement::VariableDeclaration(v) => node(o, "let", &[&|o| list(o, &v.identifiers, tid), &|o| match &v.value {
            Some(e) => expr(o, e),
            None => o.push_str("null"),
        }]),
        Statement::If(i) => node(o, "if", &[&|o| expr(o, &i.cond), &|o| block(o, &i.body)]),
        Statement::For(f) => node(o, "for", &[&|o| block(o, &f.init_block), &|o| expr(o, &f.condition), &|o| block(o, &f.post_block), &|o| block(o, &f.execution_block)]),
        Statement::Switch(s) => {
            let (cases, default): (&[SwitchCase], Option<&SwitchDefault>) = match &s.opt {
                SwitchOptions::Cases(c, d) => (c, d.as_ref()),
                SwitchOptions::Default(d) => (&[], Some(d)),
            };
            node(o, "switch", &[&|o| expr(o, &s.condition), &|o| list(o, cases, |o, c| node(o, "case", &[&|o| lit(o, &c.case), &|o| block(o, &c.body)])), &|o| match default {
                Some(d) => block(o, &d.body),
                None => o.push_str("null"),
            }])
        }
        Statement::Leave => node(o, "leave", &[]),
        Statement::Break => node(o, "break", &[]),
        Statement::Continue => node(o, "continue", &[]),
        Statement::Block(b) => node(o, "block", &[&|o| block(o, b)]),
        Statement::FunctionDefinition(f) => node(o, "function", &[&|o| id(o, &f.name), &|o| list(o, &f.params, tid), &|o| list(o, &f.returns, tid), &|o| block(o, &f.body)]),
        Statement::FunctionCall(c) => call(o, c),
        Statement::Comment => node(o, "comment", &[]),
    }
}
fn object(o: &mut String, b: &Object) {
    node(o, "object", &[&|o| q(o, &b.name), &|o| block(o, &b.code), &|o| {
        list(o, &b.inner_segments, |o, s| match s {
            InnerSegment::Object(b) => object(o, b),
            InnerSegment::Data(n, d) => node(o, "data", &[&|o| q(o, n), &|o| {
                list(o, d, |o, l| match l {
                    DataLiteral::HexLiteral(h) => node(o, "hexdata", &[&|o| q(o, h)]),
                    DataLiteral::StringLiteral(s) => node(o, "strdata", &[&|o| q(o, s)]),
                })
            }]),
        })
    }])
}
fn handle(op: &str, t: &[u8]) -> Result<Vec<u8>, String> {
    let s = || String::from_utf8(t.to_vec()).unwrap();
    let parse = |s: &str| -> Result<Vec<u8>, String> {
        let b = yul2ir::yul::ObjectParser::new().parse(s).map_err(|e| format!("{e}"))?;
        let mut o = String::new();
        object(&mut o, &b);
        Ok(o.into_bytes())
    };
    match op {
        "strip" => Ok(utils::remove_comments(&s()).into_bytes()),
        "parse" => parse(&s()),
        // As the command line tool reads a source file.
        "load" => parse(&utils::remove_comments(&s())),
        "prefix" => Ok(utils::merge_sub_wasm_with_length_prefix(t)),
        _ => panic!("op"),
    }
}
fn read_exact(r: &mut impl Read, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0; n];
    r.read_exact(&mut b).ok()?;
    Some(b)
}
fn read_frame(r: &mut impl Read) -> Option<Vec<Vec<u8>>> {
    let n = u32::from_le_bytes(read_exact(r, 4)?.try_into().unwrap());
    let mut v = vec![];
    for _ in 0..n {
        let l = u32::from_le_bytes(read_exact(r, 4)?.try_into().unwrap());
        v.push(read_exact(r, l as usize)?);
    }
    Some(v)
}
fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = std::io::BufReader::new(std::io::stdin().lock());
    let mut out = std::io::BufWriter::new(std::io::stdout().lock());
    while let Some(f) = read_frame(&mut inp) {
        let op = String::from_utf8_lossy(&f[0]).into_owned();
        let mut reply: Vec<Vec<u8>> = vec![];
        for t in &f[1..] {
            let (st, p) = match std::panic::catch_unwind(|| handle(&op, t)) {
                Ok(Ok(p)) => (&b"ok"[..], p),
                Ok(Err(e)) => (&b"error"[..], e.into_bytes()),
                Err(p) => (&b"panic"[..], p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().into_bytes()),
            };
            reply.push(st.to_vec());
            reply.push(p);
        }
        out.write_all(&(reply.len() as u32).to_le_bytes()).unwrap();
        for x in &reply {
            out.write_all(&(x.len() as u32).to_le_bytes()).unwrap();
            out.write_all(x).unwrap();
        }
        out.flush().unwrap();
    }
}
fn main() {
    std::thread::Builder::new().stack_size(512 << 20).spawn(serve).unwrap().join().unwrap();
}
