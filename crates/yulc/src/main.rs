//! Compile server around the repository's compiler modules (the files of /repo/src/yul2ir, synced).
//! Frames on stdin/stdout: u32 LE field count, then per field u32 LE length and bytes.
//! Request: "compile", k=v options..., "" , yul source. Response: status, payload.
#![allow(dead_code, unused)]
#[path = "../../../build/tree/src/yul2ir/mod.rs"]
mod yul2ir;

use inkwell::context::Context;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use yul2ir::config::Yul2IROptions;
use yul2ir::context::Yul2IRContext;
use yul2ir::yul_instruction::YulLowLevelValueType;

fn read_exact(r: &mut impl Read, n: usize) -> Option<Vec<u8>> {
    let mut b = vec![0; n];
    r.read_exact(&mut b).ok()?;
    Some(b)
}
fn read_frame(r: &mut impl Read) -> Option<Vec<Vec<u8>>> {
    let n = u32::from_le_bytes(read_exact(r, 4)?.try_into().unwrap());
    let mut v = vec![];
    for _ in 0..n {
        let l = u32::from_le_bytes(read_exact(r, 4)?.try_into().unwrap());
        v.push(read_exact(r, l as usize)?);
    }
    Some(v)
}
fn write_frame(w: &mut impl Write, f: &[&[u8]]) {
    w.write_all(&(f.len() as u32).to_le_bytes()).unwrap();
    for x in f {
        w.write_all(&(x.len() as u32).to_le_bytes()).unwrap();
        w.write_all(x).unwrap();
    }
    w.flush().unwrap();
}
fn compile(args: &[Vec<u8>], src: &str) -> Result<Vec<u8>, String> {
    let yul_src = yul2ir::utils::remove_comments(src);
    let obj = yul2ir::yul::ObjectParser::new().parse(&yul_src).map_err(|e| format!("parse: {e}"))?;
    let ctx = Context::create();
    let mut opts = Yul2IROptions { no_binaryen_optimize: true, ..Default::default() };
    opts.main_contract_name = obj.name.clone();
    // the compiler leaves the modules of embedded objects here
    if let Ok(d) = std::env::var("YULC_OUT") {
        opts.output_dir = d;
    }
    let mut ret = YulLowLevelValueType::U256;
    for a in args {
        let a = String::from_utf8_lossy(a).into_owned();
        let (k, v) = a.split_once('=').unwrap();
        let b = v == "1";
        match k {
            "opt_level" => opts.opt_level = v.parse().unwrap(),
            "no_inline" => opts.no_inline = b,
            "debug" => {
                if b {
                    opts.no_inline = true;
                    opts.opt_level = yul2ir::config::OptimizationLevel::None;
                    opts.debug_mode = true;
                }
            }
            "minify" => opts.minify_wasm_size = b,
            "disable_all" => opts.disable_all_optimizers = b,
            "enable_all" => opts.enable_all_optimizers = b,
            "le_storage" => opts.enable_storage_load_store_little_endian = b,
            "ignore_unknown" => opts.ignore_unknown_linker_library = b,
            "main" => opts.main_contract_name = v.to_string(),
            "symbol" => {
                let (p, ad) = v.split_once('=').unwrap();
                opts.symbol2addr.insert(p.to_string(), ad.to_string());
            }
            "ret" => {
                ret = match v {
                    "u256" => YulLowLevelValueType::U256,
                    _ => YulLowLevelValueType::Bytes32Pointer,
                }
            }
            _ => panic!("unknown option {k}"),
        }
    }
    let mut c = Yul2IRContext::new_with_object(&ctx, &opts, obj);
    c.default_ret_type = ret;
    c.emit("verif").map_err(|e| format!("emit: {e}"))
}
fn main() {
    // The compiler prints to stdout: keep the protocol on a private copy of it.
    let mut out = unsafe {
        let fd = libc::dup(1);
        libc::dup2(2, 1);
        std::fs::File::from_raw_fd(fd)
    };
    std::panic::set_hook(Box::new(|_| {}));
    let mut inp = std::io::stdin().lock();
    while let Some(f) = read_frame(&mut inp) {
        let sep = f.iter().position(|x| x.is_empty()).unwrap();
        let src = String::from_utf8_lossy(&f[sep + 1]).into_owned();
        let args = f[1..sep].to_vec();
        // LLVM and the parser recurse on the source's nesting.
        let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || compile(&args, &src)).unwrap().join();
        match r {
            Ok(Ok(w)) => write_frame(&mut out, &[b"ok", &w]),
            Ok(Err(e)) => write_frame(&mut out, &[b"error", e.as_bytes()]),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                write_frame(&mut out, &[b"panic", m.as_bytes()])
            }
        }
    }
}
