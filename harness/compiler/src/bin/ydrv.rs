//! Line driver around the real compiler. One request per line on stdin:
//!     <id> <comma separated options> <hex of Yul source>
//! one reply per line on (the original) stdout:
//!     <id> ok <hex of wasm> | <id> err <stage> <hex of message>
//! Options: O0..O3, debug, noinline, llvmtool, allopt, disopt, minify, le, bytes32, ignlink, binopt,
//!          rc (remove_comments first, as the CLI does), main=<name>, dir=<output dir>, sym=<hex path>:<hex addr>
#![allow(dead_code, unused_imports)]
#[path = "../yul2ir/mod.rs"]
mod yul2ir;

use std::io::{BufRead, Write};
use std::os::fd::FromRawFd;
use yul2ir::config::{OptimizationLevel, Yul2IROptions};
use yul2ir::context::Yul2IRContext;

fn unhex(s: &str) -> String {
    String::from_utf8(hex::decode(s).expect("hex")).expect("utf8")
}

fn compile(optstr: &str, src: &str) -> Result<Vec<u8>, (&'static str, String)> {
    let mut opts = Yul2IROptions::default();
    let mut bytes32 = false;
    let mut rc = false;
    let mut main = None;
    for o in optstr.split(',') {
        match o {
            "" | "-" => {}
            "O0" => opts.opt_level = OptimizationLevel::None,
            "O1" => opts.opt_level = OptimizationLevel::Less,
            "O2" => opts.opt_level = OptimizationLevel::Default,
            "O3" => opts.opt_level = OptimizationLevel::Aggressive,
            "debug" => opts.debug_mode = true,
            "noinline" => opts.no_inline = true,
            "llvmtool" => opts.use_llvm_toolchain = true,
            "allopt" => opts.enable_all_optimizers = true,
            "disopt" => opts.disable_all_optimizers = true,
            "minify" => opts.minify_wasm_size = true,
            "le" => opts.enable_storage_load_store_little_endian = true,
            "bytes32" => bytes32 = true,
            "ignlink" => opts.ignore_unknown_linker_library = true,
            "binopt" => opts.no_binaryen_optimize = false,
            "rc" => rc = true,
            _ if o.starts_with("nd=") => {}
            _ if o.starts_with("main=") => main = Some(o[5..].to_string()),
            _ if o.starts_with("dir=") => opts.output_dir = o[4..].to_string(),
            _ if o.starts_with("sym=") => {
                let (p, a) = o[4..].split_once(':').expect("sym");
                opts.symbol2addr.insert(unhex(p), unhex(a));
            }
            _ => return Err(("driver", format!("unknown option {o}"))),
        }
    }
    if !optstr.contains("binopt") {
        opts.no_binaryen_optimize = true;
    }
    let text = if rc { yul2ir::utils::remove_comments(src) } else { src.to_string() };
    let obj = yul2ir::yul::ObjectParser::new().parse(&text).map_err(|e| ("parse", e.to_string()))?;
    opts.main_contract_name = main.unwrap_or(obj.name.clone());
    let ctx = inkwell::context::Context::create();
    let mut c = Yul2IRContext::new_with_object(&ctx, &opts, obj);
    if bytes32 {
        c.default_ret_type = yul2ir::yul_instruction::YulLowLevelValueType::Bytes32Pointer;
    } else {
        c.default_ret_type = yul2ir::yul_instruction::YulLowLevelValueType::U256;
    }
    c.emit("output").map_err(|e| ("emit", e.to_string()))
}

fn main() {
    let mut out = unsafe {
        let fd = libc::dup(1);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        std::fs::File::from_raw_fd(fd)
    };
    if std::env::var("YDRV_VERBOSE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for line in std::io::stdin().lock().lines() {
        let line = line.expect("stdin");
        let mut it = line.splitn(3, ' ');
        let (id, o, h) = (it.next().unwrap(), it.next().unwrap_or(""), it.next().unwrap_or(""));
        let src = unhex(h);
        //@nd ndet::begin(o.split(',').find_map(|x| x.strip_prefix("nd=")).unwrap_or(""));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| compile(o, &src)));
        let reply = match r {
            Ok(Ok(w)) => format!("{id} ok {}\n", hex::encode(w)),
            Ok(Err((stage, m))) => format!("{id} err {stage} {}\n", hex::encode(m)),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("{id} err panic {}\n", hex::encode(m))
            }
        };
        //@nd let reply = format!("{} {}\n", reply.trim_end(), ndet::end());
        out.write_all(reply.as_bytes()).unwrap();
        out.flush().unwrap();
    }
}
