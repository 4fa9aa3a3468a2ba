//! C27: the `parse` executable shows what the library returns.
use crate::check::W;
use crate::util::*;
use lib_ruby_parser::{Parser, ParserOptions, ParserResult};
use std::os::unix::ffi::OsStringExt;
use std::path::Path;
use std::process::{Command, Stdio};

pub struct Out {
    code: Option<i32>,
    out: Vec<u8>,
    err: Vec<u8>,
}
/// Runs a command with its output in files of the scratch directory; None: it could not be run or
/// did not end.
fn run(w: &W, exe: &Path, args: &[Vec<u8>]) -> Option<Out> {
    let (o, e) = (w.scratch.join("out"), w.scratch.join("err"));
    let mut c = Command::new(exe)
        .args(args.iter().map(|a| std::ffi::OsString::from_vec(a.clone())))
        .current_dir(&w.scratch)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&o).ok()?)
        .stderr(std::fs::File::create(&e).ok()?)
        .spawn()
        .ok()?;
    let t = std::time::Instant::now();
    let mut nap = 1;
    let st = loop {
        if let Some(s) = c.try_wait().ok()? {
            break s;
        }
        if t.elapsed().as_secs() > 200 {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_micros(200 * nap));
        nap = (nap * 2).min(50);
    };
    Some(Out { code: st.code(), out: std::fs::read(o).ok()?, err: std::fs::read(e).ok()? })
}
fn lib(src: &[u8], name: &str, tokens: bool) -> ParserResult {
    Parser::new(src.to_vec(), ParserOptions { buffer_name: name.to_string(), decoder: None, record_tokens: tokens }).do_parse()
}
/// `rbmon print-locs NAME FILE...`: what the library's own printer prints.
pub fn print_locs(a: &[String]) {
    for f in &a[1..] {
        let name = if a[0] == "-" { f } else { &a[0] };
        println!("\x01FILE");
        if let Some(t) = lib(&std::fs::read(f).unwrap(), name, true).ast {
            t.print_with_locs();
        }
    }
}

fn depth(t: &crate::tree::T) -> usize {
    1 + t.children().into_iter().map(depth).max().unwrap_or(0)
}
pub fn c27(w: &mut W, i: u64) {
    let mut r = w.rng("in", i);
    let exe = std::env::current_exe().unwrap();
    let parse = exe.parent().unwrap().join("parse");
    // bad usage
    if i % 40 == 0 {
        let (args, code): (Vec<&str>, Option<i32>) = r.pick::<(Vec<&str>, Option<i32>)>(&[
            (vec![], Some(1)),
            (vec!["--print", "D"], Some(1)),
            (vec!["-e"], Some(1)),
            (vec!["--nope", "-e", "1"], Some(1)),
            (vec!["-e", "1", "--glob"], Some(1)),
            (vec!["-x"], Some(1)),
            (vec!["foo.rb"], Some(1)),
            (vec!["-e", "1", "--print", "Q"], None),
            (vec!["-e", "1", "--repeat", "x"], None),
            (vec!["-e", "1", "--repeat", "-1"], None),
            (vec!["--print-build-info"], Some(0)),
        ])
        .clone();
        let args: Vec<Vec<u8>> = args.iter().map(|a| a.as_bytes().to_vec()).collect();
        w.feed(args.join(&b' ').as_slice());
        match run(w, &parse, &args) {
            None => w.fail("the executable could not be run", &args.join(&b' ')),
            Some(o) => {
                let text = String::from_utf8_lossy(&o.err).into_owned();
                let ok = match code {
                    Some(0) => o.code == Some(0),
                    Some(1) => o.code == Some(1) && o.out.is_empty() && text.contains("USAGE"),
                    _ => o.code != Some(0) && o.out.is_empty() && !text.is_empty(),
                };
                if !ok {
                    w.fail(format!("bad usage: exit {:?}, {} bytes of output, message {:?}", o.code, o.out.len(), text), &args.join(&b' '));
                }
            }
        }
        w.note("bad usage");
        w.done(format!("{:?}", args).as_bytes(), true);
        return;
    }
    let n = 1 + r.below(4);
    let mut srcs: Vec<Vec<u8>> = vec![];
    for _ in 0..n {
        let (v, _) = crate::locs::mixed(&mut r);
        if v.len() < 1500 {
            srcs.push(v);
        }
    }
    if srcs.is_empty() {
        return;
    }
    let glob = r.chance(2, 3);
    if !glob {
        srcs.truncate(1);
        if srcs[0].contains(&0) {
            return;
        }
    }
    let mut files: Vec<(String, Vec<u8>)> = vec![];
    let dir = w.scratch.join("in");
    let mut args: Vec<Vec<u8>> = vec![];
    if glob {
        let _ = std::fs::remove_dir_all(&dir);
        for (k, s) in srcs.iter().enumerate() {
            let name = format!("{}{}.rb", ["a", "b/c", "é", "z z", "b/d/e"][(k + i as usize) % 5], k);
            let p = dir.join(name);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(&p, s).unwrap();
            files.push((p.to_str().unwrap().to_string(), s.clone()));
        }
        std::fs::write(dir.join("note.txt"), "x (").unwrap();
        args.push(b"--glob".to_vec());
        if files.len() == 1 && r.chance(1, 2) {
            args.push(files[0].0.clone().into_bytes());
        } else {
            args.push(format!("{}/**/*.rb", dir.display()).into_bytes());
        }
        // the order of paths, component by component
        files.sort_by(|a, b| Path::new(&a.0).cmp(Path::new(&b.0)));
    } else {
        args.push(b"-e".to_vec());
        args.push(srcs[0].clone());
        files.push(("(eval)".into(), srcs[0].clone()));
    }
    let mode = *r.pick(&["N", "F", "L", "D", "", ""]);
    // trees are printed in full in a time that grows with the cube of the depth
    if matches!(mode, "L" | "F") && files.iter().any(|f| crate::util::parse(&f.1).map_or(true, |p| p.ast.as_ref().map_or(0, depth) > 60)) {
        w.note("too deep to print ranges");
        return;
    }
    if !mode.is_empty() {
        args.push(b"--print".to_vec());
        args.push(mode.as_bytes().to_vec());
    }
    let drop = r.chance(1, 4);
    if drop {
        args.push(b"--drop-tokens".to_vec());
    }
    let times = if r.chance(1, 4) { r.below(4) } else { 1 };
    if times != 1 {
        args.push(b"--repeat".to_vec());
        args.push(times.to_string().into_bytes());
    }
    let timer = r.chance(1, 8);
    if timer {
        args.push(b"--run-timer".to_vec());
    }
    let mut all = vec![];
    for f in &files {
        all.extend_from_slice(&f.1);
        all.push(b'\n');
    }
    w.feed(&all);
    // what must be shown for each file
    let mut locs: Vec<Vec<u8>> = vec![];
    if mode == "L" {
        let mut a = vec![b"print-locs".to_vec(), if glob { b"-".to_vec() } else { b"(eval)".to_vec() }];
        for (k, f) in files.iter().enumerate() {
            if glob {
                a.push(f.0.clone().into_bytes());
            } else {
                let p = w.scratch.join(format!("e{}", k));
                std::fs::write(&p, &f.1).unwrap();
                a.push(p.to_str().unwrap().as_bytes().to_vec());
            }
        }
        match run(w, &exe, &a) {
            Some(o) if o.code == Some(0) => {
                let s = o.out;
                let m = b"\x01FILE\n";
                let mut at: Vec<usize> = (0..s.len()).filter(|k| s[*k..].starts_with(m) && (*k == 0 || s[k - 1] == b'\n')).collect();
                if at.len() != files.len() {
                    return;
                }
                at.push(s.len());
                for k in 0..files.len() {
                    locs.push(s[at[k] + m.len()..at[k + 1]].to_vec());
                }
            }
            _ => {
                w.note("panicked (see C01)");
                return;
            }
        }
    }
    let mut shown: Vec<Vec<u8>> = vec![];
    for (k, f) in files.iter().enumerate() {
        let x = guarded(|| {
            let res = lib(&f.1, &f.0, !drop);
            let mut o: Vec<u8> = vec![];
            if mode == "F" {
                o.extend_from_slice(format!("{:#?}\n", res).as_bytes());
            }
            if mode == "L" {
                o.extend_from_slice(std::str::from_utf8(&res.input.bytes).unwrap_or("invalid-source").as_bytes());
                o.push(b'\n');
            }
            if matches!(mode, "L" | "D" | "") {
                for d in &res.diagnostics {
                    o.extend_from_slice(d.render(&res.input).unwrap().as_bytes());
                    o.push(b'\n');
                }
            }
            if mode == "" {
                if let Some(t) = &res.ast {
                    o.extend_from_slice(t.inspect(0).as_bytes());
                    o.push(b'\n');
                }
            }
            o
        });
        match x {
            Ok(mut o) => {
                if mode == "L" {
                    o.extend_from_slice(&locs[k]);
                }
                shown.push(o)
            }
            Err(_) => {
                w.note("panicked (see C01)");
                return;
            }
        }
    }
    let mut want: Vec<u8> = vec![];
    for _ in 0..times {
        for s in &shown {
            want.extend_from_slice(s);
        }
    }
    let bad = match run(w, &parse, &args) {
        None => Some("the executable could not be run or did not end".to_string()),
        Some(mut o) => {
            let mut bad = None;
            if timer {
                let tail = format!(" (total files: {})\n", files.len() * times);
                let at = o.out.windows(12).rposition(|x| x == b"Time taken: ");
                match at {
                    Some(k) if o.out.ends_with(tail.as_bytes()) && String::from_utf8_lossy(&o.out[k + 12..o.out.len() - tail.len()]).parse::<f64>().is_ok() => o.out.truncate(k),
                    _ => bad = Some("the timer is missing or wrong".to_string()),
                }
            }
            if o.code != Some(0) {
                bad = Some(format!("exit {:?}: {}", o.code, String::from_utf8_lossy(&o.err)));
            } else if bad.is_none() && o.out != want {
                let k = (0..o.out.len().max(want.len())).find(|k| o.out.get(*k) != want.get(*k)).unwrap();
                let cut = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(30).min(v.len())..(k + 50).min(v.len())]).into_owned();
                bad = Some(format!("output differs at byte {}: expected {:?}, got {:?}", k, cut(&want), cut(&o.out)));
            } else if !o.err.is_empty() {
                bad = Some(format!("message on stderr: {}", String::from_utf8_lossy(&o.err)));
            }
            bad
        }
    };
    if let Some(m) = bad {
        let a: Vec<String> = args.iter().map(|a| String::from_utf8_lossy(a).into_owned()).collect();
        w.fail(format!("parse {:?}: {}", a, m), &all);
    }
    w.note(&format!("--print {}", if mode.is_empty() { "(none)" } else { mode }));
    w.note(if glob { "--glob" } else { "-e" });
    if drop {
        w.note("--drop-tokens");
    }
    if times != 1 {
        w.note("--repeat");
    }
    if timer {
        w.note("--run-timer");
    }
    w.add("bytes of output compared", want.len() as u64);
    w.done(format!("{:?}{}", args, i).as_bytes(), true);
}
