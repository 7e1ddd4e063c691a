//! C26: image sizes, against a loopback server that answers as it is told.
use crate::engine::*;
use crate::{Property, Tier};
use std::collections::HashMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Mutex, OnceLock};
use std::time::Duration;

/// What the server does with a request.
#[derive(Clone, Debug)]
enum Answer {
    /// The body in these chunks.
    Chunks(Vec<Vec<u8>>),
    /// The body with its length announced.
    Plain(Vec<u8>),
    /// The body, ended by closing the connection.
    Closed(Vec<u8>),
    /// This many bytes announced, fewer sent.
    Short(usize, Vec<u8>),
    /// Chunks, the last of them unfinished.
    BrokenChunk(Vec<u8>, &'static str),
    /// These bytes instead of an HTTP answer.
    Bytes(Vec<u8>),
    /// These bytes, then nothing for a long time.
    Stall(Vec<u8>),
    Close,
}
struct Server { port: u16, answers: Mutex<HashMap<String, Answer>>, requests: Mutex<HashMap<String, u32>>, next: AtomicU64 }

fn serve(mut s: TcpStream) {
    let _ = s.set_nodelay(true);
    let _ = s.set_read_timeout(Some(Duration::from_secs(60)));
    let mut buf = vec![];
    let mut b = [0u8; 2048];
    while !buf.windows(4).any(|w| w == b"\r\n\r\n") {
        match s.read(&mut b) { Ok(n) if n > 0 => buf.extend_from_slice(&b[..n]), _ => return }
    }
    let head = String::from_utf8_lossy(&buf).into_owned();
    let path = head.split(' ').nth(1).unwrap_or("").to_string();
    let srv = server();
    let key = path.split(['?', '#']).next().unwrap_or("").trim_start_matches('/').split('/').next().unwrap_or("").to_string();
    *srv.requests.lock().unwrap().entry(path.clone()).or_insert(0) += 1;
    let a = srv.answers.lock().unwrap().get(&key).cloned();
    const OK: &str = "HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Type: image/x\r\n";
    let mut out = vec![];
    match a {
        Some(Answer::Chunks(cs)) => {
            out.extend(format!("{OK}Transfer-Encoding: chunked\r\n\r\n").bytes());
            for c in cs { out.extend(format!("{:x}\r\n", c.len()).bytes()); out.extend(c); out.extend(b"\r\n"); }
            out.extend(b"0\r\n\r\n");
        }
        Some(Answer::Plain(d)) => { out.extend(format!("{OK}Content-Length: {}\r\n\r\n", d.len()).bytes()); out.extend(d); }
        Some(Answer::Closed(d)) => { out.extend(format!("{OK}\r\n").bytes()); out.extend(d); }
        Some(Answer::Short(n, d)) => { out.extend(format!("{OK}Content-Length: {n}\r\n\r\n").bytes()); out.extend(d); }
        Some(Answer::BrokenChunk(d, tail)) => { out.extend(format!("{OK}Transfer-Encoding: chunked\r\n\r\n{:x}\r\n", d.len()).bytes()); out.extend(d); out.extend(tail.bytes()); }
        Some(Answer::Bytes(d)) => out.extend(d),
        Some(Answer::Stall(d)) => { let _ = s.write_all(&d); let _ = s.flush(); std::thread::sleep(Duration::from_secs(100)); return; }
        Some(Answer::Close) => return,
        None => out.extend(b"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"),
    }
    let _ = s.write_all(&out);
    let _ = s.flush();
    let _ = s.shutdown(std::net::Shutdown::Write);
    while matches!(s.read(&mut b), Ok(n) if n > 0) {}
}
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = l.local_addr().unwrap().port();
        for v in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] { std::env::remove_var(v); }
        // no certificates: nothing here is fetched over TLS, and loading them takes most of the time
        std::env::set_var("SSL_CERT_FILE", "/dev/null");
        std::env::set_var("SSL_CERT_DIR", "/nonexistent");
        std::thread::spawn(move || for s in l.incoming().flatten() { std::thread::spawn(move || serve(s)); });
        Server { port, answers: Default::default(), requests: Default::default(), next: AtomicU64::new(0) }
    })
}

// --- images ---------------------------------------------------------------
fn png(w: u32, h: u32) -> Vec<u8> {
    let mut v = b"\x89PNG\r\n\x1a\n\0\0\0\rIHDR".to_vec();
    v.extend(w.to_be_bytes()); v.extend(h.to_be_bytes());
    v.extend(b"\x08\x02\0\0\0\x90wS\xdeIDATxxxx"); v
}
fn gif(w: u16, h: u16) -> Vec<u8> { let mut v = b"GIF89a".to_vec(); v.extend(w.to_le_bytes()); v.extend(h.to_le_bytes()); v.extend(b"\xf7\0\0;;;;"); v }
fn bmp(w: i32, h: i32) -> Vec<u8> { let mut v = b"BM\x46\0\0\0\0\0\0\0\x36\0\0\0\x28\0\0\0".to_vec(); v.extend(w.to_le_bytes()); v.extend(h.to_le_bytes()); v.extend(b"\x01\0\x18\0\0\0"); v }
fn webp(w: u16, h: u16) -> Vec<u8> { let mut v = b"RIFF\x24\0\0\0WEBPVP8 \x18\0\0\0\x30\x01\0\x9d\x01\x2a".to_vec(); v.extend(w.to_le_bytes()); v.extend(h.to_le_bytes()); v.extend(b"zzzz"); v }
/// A JPEG whose size ends at byte `end` of the file (not below 37).
fn jpeg(w: u16, h: u16, end: usize) -> Vec<u8> {
    let mut v = b"\xff\xd8\xff\xe0\0\x10JFIF\0\x01\x01\0\0\x01\0\x01\0\0".to_vec();
    let pad = end - v.len() - 9 - 4;
    v.extend(b"\xff\xfe"); v.extend(((pad + 2) as u16).to_be_bytes()); v.extend(std::iter::repeat(b'c').take(pad));
    v.extend(b"\xff\xc0\0\x11\x08"); v.extend(h.to_be_bytes()); v.extend(w.to_be_bytes());
    assert_eq!(v.len(), end);
    v.extend(b"\x03\x01\"\0\x02\x11\x01"); v
}
fn jp2(w: u32, h: u32) -> Vec<u8> {
    let mut v = b"\0\0\0\x0cjP  \r\n\x87\n\0\0\0\x14ftypjp2 \0\0\0\0jp2 \0\0\0\x2djp2h\0\0\0\x16ihdr".to_vec();
    v.extend(h.to_be_bytes()); v.extend(w.to_be_bytes()); v.extend(b"\0\x03\x07\x07\0\0\0\0\0\0jp2c"); v
}
fn icns() -> Vec<u8> { b"icns\0\0\0\x18ic08\0\0\0\x08ic07\0\0\0\x08".to_vec() }
fn ico() -> Vec<u8> { b"\0\0\x01\0\x01\0\x30\x20\0\0\x01\0\x20\0\x10\0\0\0\x16\0\0\0zzzzzzzz".to_vec() }
fn exif(order: &[u8], n: usize) -> Vec<u8> {
    let mut v = b"\xff\xd8\xff\xe1".to_vec();
    let mut x = b"Exif\0\0".to_vec(); x.extend(order); x.extend(std::iter::repeat(0).take(n));
    v.extend(((x.len() + 2) as u16).to_be_bytes()); v.extend(x);
    v.extend(b"\xff\xc0\0\x11\x08\0\x09\0\x07\x03\x01\"\0\x02"); v
}
fn heic() -> Vec<u8> {
    let mut v = b"\0\0\0\x18ftypheic\0\0\0\0mif1heic".to_vec();
    let mut m = b"\0\0\0\x0epitm\0\0\0\0\0\x01".to_vec();
    let mut ip = b"\0\0\0\x24iprp\0\0\0\x1cipco\0\0\0\x14ispe\0\0\0\0".to_vec();
    ip.extend(7u32.to_be_bytes()); ip.extend(9u32.to_be_bytes());
    m.extend(ip);
    m.extend(b"\0\0\0\x14ipma\0\0\0\0\0\0\0\x01\0\x01\x01\x81");
    v.extend(((m.len()) as u32).to_be_bytes()); v.extend(b"meta\0\0\0\0"); v.extend(m); v.extend(b"zzzzzzzzzzzzzzz"); v
}
/// (name, data, width, height)
fn images() -> Vec<(&'static str, Vec<u8>, i64, i64)> {
    vec![
        ("png", png(7, 9), 7, 9), ("large png", png(70000, 3), 70000, 3), ("gif", gif(300, 2), 300, 2), ("bmp", bmp(7, -9), 7, 9),
        ("webp", webp(640, 480), 640, 480), ("jpeg", jpeg(800, 600, 40), 800, 600), ("jpeg with a comment", jpeg(513, 258, 190), 513, 258),
        ("jpeg 2000", jp2(12, 34), 12, 34), ("icns", icns(), 256, 256), ("ico", ico(), 48, 32),
    ]
}

/// What must be in the output.
#[derive(Clone, Debug)]
enum Want { Size(i64, i64), None, Either }

/// Converts `doc` (§ stands for the address of the server) with the answer
/// waiting under `key`, and compares with `html` where the size goes to ◊.
fn convert(ctx: &mut Ctx, cfg: &Cfg, sizes: bool, path: &str, a: &Answer, want: &Want, what: &str) {
    let srv = server();
    let key = format!("k{}", srv.next.fetch_add(1, SeqCst));
    srv.answers.lock().unwrap().insert(key.clone(), a.clone());
    let url = format!("http://127.0.0.1:{}/{key}{path}", srv.port);
    let doc = format!("a !{url}(t)! b");
    let name = format!("a !http://127.0.0.1:PORT/{what}{path}(t)! b");
    let t = cfg.build().set_getting_image_size(sizes);
    let label = cfg.label();
    let got = ctx.guarded(&name, &label, || t.parse(&doc));
    srv.answers.lock().unwrap().remove(&key);
    let hits: u32 = { let r = srv.requests.lock().unwrap(); r.iter().filter(|(k, _)| **k == format!("/{key}{path}")).map(|(_, n)| *n).sum() };
    let other: u32 = { let r = srv.requests.lock().unwrap(); r.iter().filter(|(k, _)| k.starts_with(&format!("/{key}")) && **k != format!("/{key}{path}")).map(|(_, n)| *n).sum() };
    ctx.validated += 1;
    ctx.mark_nontrivial(&name);
    let got = match got { Ok(g) => g, Err(e) => { ctx.fail(cfg, &name, format!("no output: the parser panicked: {e}")); return; } };
    let src = url.replace('&', "&amp;");
    let h = |w: &str| format!("<p>a <img alt=\"t\"{} b</p>", w.replacen("SRC", &src, 1));
    let with = |w: i64, hh: i64| h(&format!(" height=\"{hh}\" src=\"SRC\" title=\"t\" width=\"{w}\" />"));
    let without = h(" src=\"SRC\" title=\"t\" />");
    let shown = got.replace(&format!(":{}/{key}", srv.port), ":PORT/");
    match want {
        Want::Size(w, hh) => if got != with(*w, *hh) { ctx.fail(cfg, &name, format!("output {shown:?}, the image is {w} by {hh}")); },
        Want::None => if got != without { ctx.fail(cfg, &name, format!("output {shown:?}, the image has no known size")); },
        Want::Either => {
            let num = |n: &str| got.split_once(&format!("{n}=\"")).and_then(|(_, r)| r.split_once('"')).and_then(|(v, _)| v.parse::<i64>().ok());
            let ok = got == without || matches!((num(" width"), num(" height")), (Some(w), Some(hh)) if got == with(w, hh));
            if !ok { ctx.fail(cfg, &name, format!("output {shown:?} is no image with or without a size")); }
        }
    }
    if other > 0 { ctx.fail(cfg, &name, "another address was fetched"); }
    if !sizes && hits > 0 { ctx.fail(cfg, &name, "the image was fetched although sizes are off"); }
    if sizes && hits == 0 && matches!(want, Want::Size(..)) { ctx.fail(cfg, &name, "the image was not fetched"); }
}
fn split(d: &[u8], at: &[usize]) -> Vec<Vec<u8>> {
    let mut v = vec![]; let mut p = 0;
    for a in at { v.push(d[p..*a].to_vec()); p = *a; }
    v.push(d[p..].to_vec());
    v.retain(|c| !c.is_empty());
    v
}
type Case = Box<dyn Fn(&mut Ctx) + Sync + Send>;
fn list(name: &str, bound: &str, cases: Vec<Case>) -> Family {
    Family::new(name, format!("{bound}: {} answers", cases.len()), cases.len() as u64, move |i, c| cases[i as usize](c))
}
fn case(a: Answer, want: Want, what: String) -> Case { Box::new(move |c| convert(c, &D, true, "", &a, &want, &what)) }

pub fn property(tier: Tier) -> Property {
    let q = tier == Tier::Quick;
    server();
    let mut f = vec![];
    // how the answer is framed, in every configuration
    let mut v: Vec<Case> = vec![];
    for (n, d, w, h) in images() {
        for (k, a) in [Answer::Plain(d.clone()), Answer::Closed(d.clone()), Answer::Chunks(vec![d.clone()]), Answer::Short(d.len() + 5000, d.clone()), Answer::Chunks(d.iter().map(|b| vec![*b]).collect())].into_iter().enumerate() {
            for c in ["", "r", "l", "x", "w", "e", "s"] {
                let (a, c) = (a.clone(), Cfg::of(c));
                if c.sanitize { continue; }
                v.push(Box::new(move |x| convert(x, &c, true, if k % 2 == 0 { "/i.png" } else { "/a/b.gif?x=1&y=2" }, &a, &Want::Size(w, h), &format!("{n}, framing {k}"))));
            }
            let a = a.clone();
            v.push(Box::new(move |x| { convert(x, &D, false, "/i.png", &a, &Want::None, n); convert(x, &R, false, "/i.png", &a, &Want::None, n); }));
        }
    }
    f.push(list("framing", "images x ways to send them x options, and with sizes off", v));
    // every way to split the answer in two, and the short ones in three
    let mut v = vec![];
    for (n, d, w, h) in images() {
        for a in 1..d.len() {
            v.push(case(Answer::Chunks(split(&d, &[a])), Want::Size(w, h), format!("{n}, split at {a}")));
            if d.len() < if q { 32 } else { 60 } { for b in a + 1..d.len() { v.push(case(Answer::Chunks(split(&d, &[a, b])), Want::Size(w, h), format!("{n}, split at {a} and {b}"))); } }
        }
    }
    f.push(list("splits", "every split in two, short files in three", v));
    // every length of the file, every place where the connection ends
    let mut v = vec![];
    for (n, d, w, h) in images() {
        let need = match n { "png" | "large png" => 24, "gif" => 10, "bmp" => 26, "webp" => 30, "jpeg" => 40, "jpeg with a comment" => 190, "jpeg 2000" => 56, "icns" => 24, _ => 22 };
        for k in 0..=d.len() {
            let want = if k >= need { Want::Size(w, h) } else { Want::None };
            let e = || if k >= need { Want::Size(w, h) } else { Want::None };
            v.push(case(Answer::Plain(d[..k].to_vec()), want, format!("{n}, {k} bytes")));
            v.push(case(Answer::Short(d.len(), d[..k].to_vec()), e(), format!("{n}, connection lost after {k} bytes")));
            if k > 0 { v.push(case(Answer::BrokenChunk(d[..k].to_vec(), "\r\nzz\r\n"), e(), format!("{n}, bad chunk after {k} bytes"))); v.push(case(Answer::BrokenChunk(d[..k].to_vec(), ""), e(), format!("{n}, chunk unfinished after {k} bytes"))); }
        }
    }
    f.push(list("truncation", "every length of every file, ended well and badly", v));
    // the size anywhere in the first kilobyte, or after it
    let mut v = vec![];
    let step = if q { 7 } else { 1 };
    for end in (40..1000).step_by(step).chain(1000..=1060) {
        let d = jpeg(321, 123, end);
        let want = if end <= 1024 { Want::Size(321, 123) } else { Want::None };
        let w2 = want.clone();
        v.push(case(Answer::Plain(d.clone()), want, format!("size ends at {end}")));
        v.push(case(Answer::Chunks(split(&d, &[end.min(1024) / 2, end - 1])), w2, format!("size ends at {end}, in three chunks")));
    }
    for (n, d, w, h) in images() { let mut d = d; if n == "icns" { continue; } d.extend(vec![b'z'; 200_000]); v.push(case(Answer::Plain(d), Want::Size(w, h), format!("{n}, 200 kB"))); }
    f.push(list("position", "where the size is found", v));
    // damaged files: no answer may hurt
    let mut v = vec![];
    let mut all: Vec<(&'static str, Vec<u8>)> = images().into_iter().map(|x| (x.0, x.1)).collect();
    all.push(("exif", exif(b"MM\0*\0\0\0\x08\0\x01\x01\x12\0\x03\0\0\0\x01\0\x06", 8)));
    all.push(("exif little endian", exif(b"II*\0\x08\0\0\0\x01\0\x12\x01\x03\0\x01\0\0\0\x06\0", 8)));
    all.push(("heic", heic()));
    all.push(("tiff", b"II*\0\x08\0\0\0\x02\0\0\x01\x03\0\x01\0\0\0\x07\0\0\0\x01\x01\x03\0\x01\0\0\0\x09\0\0\0zz".to_vec()));
    all.push(("big tiff", b"II+\0\x08\0\0\0\x10\0\0\0\0\0\0\0\x02\0\0\0\0\0\0\0\0\x01\x03\0\x01\0\0\0\0\0\0\0\x07\0\0\0\0\0\0\0\x01\x01\x03\0\x01\0\0\0\0\0\0\0\x09\0\0\0\0\0\0\0".to_vec()));
    all.push(("hdr", b"#?RADIANCE\nFORMAT=x\n\n-Y 9 +X 7\nzzzz".to_vec()));
    all.push(("psd", b"8BPS\0\x01\0\0\0\0\0\0\0\x03\0\0\0\x09\0\0\0\x07\0\x08".to_vec()));
    all.push(("qoi", b"qoif\0\0\0\x07\0\0\0\x09\x03\0".to_vec()));
    all.push(("j2k", b"\xff\x4f\xff\x51\0\x0a\0\0\0\0\0\x07\0\0\0\x09".to_vec()));
    all.push(("text", b"<html><body>not an image, but long enough for one</body></html>".to_vec()));
    for (n, d) in &all {
        for k in 0..d.len().min(if q { 64 } else { 200 }) {
            let vals: Vec<u8> = if q { vec![0, 0xff, d[k].wrapping_add(1)] } else { vec![0, 1, 2, 7, 8, 0x7f, 0x80, 0xff, d[k].wrapping_add(1), d[k].wrapping_sub(1), d[k] ^ 0x80, b'z'] };
            for x in vals { let mut e = d.clone(); e[k] = x; v.push(case(Answer::Plain(e), Want::Either, format!("{n}, byte {k} is {x:#x}"))); }
            // four bytes: lengths and offsets
            for x in [0u32, u32::MAX] { if k + 4 <= d.len() { let mut e = d.clone(); e[k..k + 4].copy_from_slice(&x.to_be_bytes()); v.push(case(Answer::Plain(e), Want::Either, format!("{n}, bytes {k} to {} are {x:#x}", k + 4))); } }
        }
    }
    f.push(list("damage", "every byte and every four bytes of the headers overwritten", v));
    // everything else a server can do
    let mut v = vec![];
    let odd: Vec<(&str, Answer)> = vec![
        ("closed", Answer::Close), ("nothing", Answer::Bytes(vec![])), ("garbage", Answer::Bytes(b"garbage\r\n\r\n".to_vec())), ("half a status line", Answer::Bytes(b"HTTP/1.1 2".to_vec())),
        ("half a header", Answer::Bytes(b"HTTP/1.1 200 OK\r\nContent-Le".to_vec())), ("no header end", Answer::Bytes(b"HTTP/1.1 200 OK\r\nContent-Length: 5\r\n".to_vec())),
        ("bad length", Answer::Bytes(b"HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\nabc".to_vec())), ("huge length", Answer::Bytes(b"HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999\r\n\r\nabc".to_vec())),
        ("bad status", Answer::Bytes(b"HTTP/1.1 abc OK\r\n\r\n".to_vec())), ("status 999", Answer::Bytes(b"HTTP/1.1 999 X\r\n\r\n".to_vec())), ("http 0.9", Answer::Bytes(b"\x89PNG".to_vec())),
        ("not found", Answer::Bytes(b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\n\r\nnope".to_vec())), ("error", Answer::Bytes(b"HTTP/1.1 500 Error\r\n\r\nnope".to_vec())),
        ("no content", Answer::Bytes(b"HTTP/1.1 204 No Content\r\n\r\n".to_vec())), ("not modified", Answer::Bytes(b"HTTP/1.1 304 Not Modified\r\n\r\n".to_vec())),
        ("redirect nowhere", Answer::Bytes(b"HTTP/1.1 302 Found\r\nLocation: http://127.0.0.1:1/\r\nContent-Length: 0\r\n\r\n".to_vec())),
        ("redirect without target", Answer::Bytes(b"HTTP/1.1 302 Found\r\nContent-Length: 0\r\n\r\n".to_vec())), ("redirect to nonsense", Answer::Bytes(b"HTTP/1.1 302 Found\r\nLocation: ::::\r\nContent-Length: 0\r\n\r\n".to_vec())),
        ("redirect to a file", Answer::Bytes(b"HTTP/1.1 301 Moved\r\nLocation: file:///etc/passwd\r\nContent-Length: 0\r\n\r\n".to_vec())),
        ("redirect to itself", Answer::Bytes(b"HTTP/1.1 302 Found\r\nLocation: ?\r\nContent-Length: 0\r\nConnection: close\r\n\r\n".to_vec())),
        ("switching protocols", Answer::Bytes(b"HTTP/1.1 101 Switching\r\nUpgrade: x\r\nConnection: upgrade\r\n\r\n".to_vec())), ("continue only", Answer::Bytes(b"HTTP/1.1 100 Continue\r\n\r\n".to_vec())),
        ("zip bomb", Answer::Bytes(b"HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 3\r\n\r\n\x1f\x8b\x08".to_vec())), ("nul bytes", Answer::Plain(vec![0; 5000])), ("ff bytes", Answer::Plain(vec![0xff; 5000])),
        ("bad chunk size", Answer::Bytes(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nxyz\r\n".to_vec())), ("huge chunk", Answer::Bytes(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\n".to_vec())),
        ("long headers", Answer::Bytes({ let mut d = b"HTTP/1.1 200 OK\r\n".to_vec(); for i in 0..3000 { d.extend(format!("X-{i}: {i}\r\n").bytes()); } d.extend(b"\r\n"); d })),
        ("empty", Answer::Plain(vec![])), ("text", Answer::Plain(b"hello".to_vec())),
    ];
    for (n, a) in odd {
        for c in ["", "r", "x"] { let (a, c) = (a.clone(), Cfg::of(c)); let loops = n == "redirect to itself"; v.push(Box::new(move |x: &mut Ctx| convert(x, &c, true, if loops { "?" } else { "" }, &a, &if n == "nul bytes" { Want::Either } else { Want::None }, n)) as Case); }
    }
    f.push(list("faults", "everything else a server can do", v));
    // a server that goes silent: conversion goes on when the client gives up
    let mut v = vec![];
    for (n, d) in [("silent", &b""[..]), ("silent after the headers", b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n"), ("silent in the file", b"HTTP/1.1 200 OK\r\nContent-Length: 100\r\n\r\n\x89PNG\r\n")] {
        let d = d.to_vec();
        v.push(case(Answer::Stall(d), Want::None, n.to_string()));
    }
    f.push(list("silence", "a server that stops answering", v));
    // other addresses, other places
    let odd: &[&str] = &["a.png", "/a.png", "../a.png", "//127.0.0.1:1/a.png", "http://127.0.0.1:1/a.png", "https://127.0.0.1:1/a.png", "ftp://127.0.0.1/a.png", "http://", "http:a.png", "http://[::1", "http://127.0.0.1:99999/a.png",
        "http://127.0.0.1:0/a.png", "?a.png", "#a", "data:image/png;base64,AAAA", "file:///etc/passwd", "mailto:a@b.c", "http://300.300.300.300/a.png", "HTTP://127.0.0.1:1/A.PNG", "tel:123"];
    let n = odd.len() as u64;
    f.push(Family::new("unreachable addresses", format!("{n} addresses x 4 options"), n, move |i, c| {
        let u = odd[i as usize];
        for l in ["", "r", "x", "l"] {
            let cfg = Cfg::of(l);
            let doc = format!("a !{u}! b");
            let Some(want) = c.must(&cfg, &doc) else { continue };
            let t = cfg.build().set_getting_image_size(true);
            c.validated += 1;
            c.mark_nontrivial(&doc);
            match c.guarded(&doc, &cfg.label(), || t.parse(&doc)) {
                Err(e) => c.fail(&cfg, &doc, format!("no output: the parser panicked: {e}")),
                Ok(g) => if g != want { c.fail(&cfg, &doc, format!("output {g:?} with sizes, {want:?} without")); },
            }
        }
    }));
    // several images: each gets its own size, nothing else changes
    const HOST: &[(&str, usize)] = &[("!§1!", 1), ("a !§1! b !§2! c", 2), ("!§1!:/u !§2!", 2), ("\"x !§1! y\":/u", 1), ("|!§1!|!§2!|", 2), ("* !§1!\n* !§2!\n* !§3!", 3), ("h1. !>§1(t)!", 1), ("*!§1!* _!§2!_", 2), ("a[1] !§1!\n\nfn1. !§2!", 2),
        ("!§1! !§1!", 1), ("bq. !{width:3px}§1!", 1), ("- !§1! := !§2!", 2), ("!§1!:§2", 1), ("!§1!\n\n!§2!\n\n!/rel.png!", 2), ("@!§1!@ ==!§2!== !§3!", 3), ("!a.png! !§1!", 1)];
    let orders: Vec<Vec<usize>> = if q { vec![vec![0, 2, 5], vec![5, 0, 2], vec![2, 7, 0], vec![10, 0, 2], vec![0, 10, 2]] } else { (0..11).flat_map(|a| (0..11).map(move |b| vec![a, b, (a + b) % 11])).collect() };
    let total = (HOST.len() * orders.len()) as u64;
    f.push(Family::new("several images", format!("{} documents x {} choices of images", HOST.len(), orders.len()), total, move |i, c| {
        let (host, _) = HOST[i as usize % HOST.len()];
        let ord = &orders[i as usize / HOST.len()];
        let srv = server();
        let im = images();
        for l in ["", "r", "x"] {
            let cfg = Cfg::of(l);
            let id = srv.next.fetch_add(1, SeqCst);
            let mut doc = host.to_string();
            for (k, o) in ord.iter().enumerate() {
                let key = format!("m{id}-{k}");
                if let Some(x) = im.get(*o) { srv.answers.lock().unwrap().insert(key.clone(), Answer::Chunks(split(&x.1, &[5]))); }
                doc = doc.replace(&format!("§{}", k + 1), &format!("http://127.0.0.1:{}/{key}", srv.port));
            }
            let name = doc.replace(&format!("{}/m{id}", srv.port), "PORT/m").to_string() + &format!(" with images {ord:?}");
            let plain = cfg.build();
            let sized = cfg.build().set_getting_image_size(true);
            let (d1, d2) = (doc.clone(), doc.clone());
            let (Ok(a), Ok(b)) = (c.guarded(&name, &cfg.label(), || plain.parse(&d1)), c.guarded(&name, &cfg.label(), || sized.parse(&d2))) else { c.fail(&cfg, &name, "no output: the parser panicked"); continue };
            c.validated += 1;
            c.mark_nontrivial(&name);
            // the model: add the sizes to the images of the plain output
            let mut want = String::new();
            let mut rest = a.as_str();
            while let Some(k) = rest.find("<img ") {
                let e = k + rest[k..].find("/>").unwrap_or(0) + 2;
                let tag = &rest[k..e];
                let size = ord.iter().enumerate().find(|(n, _)| tag.contains(&format!("src=\"http://127.0.0.1:{}/m{id}-{n}\"", srv.port))).and_then(|(_, o)| im.get(*o)).map(|x| (x.2, x.3));
                want.push_str(&rest[..k]);
                match size {
                    Some((w, h)) => {
                        let s = tag.find(" src=").unwrap();
                        let t = &tag[..tag.len() - 3];
                        want.push_str(&format!("{}{}{} width=\"{w}\" />", &t[..s], if t[..s].contains(" class=") && false { "" } else { "" }, &t[s..]).replacen(" src=", &format!(" height=\"{h}\" src="), 1));
                    }
                    None => want.push_str(tag),
                }
                rest = &rest[e..];
            }
            want.push_str(rest);
            let canon = |s: &str| crate::htmltok::tokenize(s).into_iter().map(|t| match t { crate::htmltok::Tok::Open { name, mut attrs, self_closing } => { attrs.sort(); crate::htmltok::Tok::Open { name, attrs, self_closing } } t => t }).collect::<Vec<_>>();
            if canon(&b) != canon(&want) { c.fail(&cfg, &name, format!("output {b:?}, the model requires {want:?}")); }
            for (k, _) in ord.iter().enumerate() { srv.answers.lock().unwrap().remove(&format!("m{id}-{k}")); }
        }
    }));
    Property { id: "C26", level: "fault_enumeration", rule: "the server was asked, or would have been", assumptions: vec!["the loopback network works", "the client gives up on a silent server by itself (30 s)"], families: f }
}
