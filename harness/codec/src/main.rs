//! P01 and P02 (by VK_PROP): the LSP codec, fed in chunks, watched byte by byte.
#[allow(dead_code, unused_imports, unexpected_cfgs)]
pub(crate) mod tower_lsp {
    #[path = "/repo/crates/lsp_test/src/tower_lsp/codec.rs"]
    pub(crate) mod codec;
}
use bytes::BytesMut;
use futures::{SinkExt, StreamExt};
use serde_json::{Value, json};
use tokio_util::codec::{Decoder, Encoder, FramedRead, FramedWrite};
use tower_lsp::codec::LanguageServerCodec;
use vkit::*;

#[derive(Clone, Debug)]
enum Part {
    /// well-formed: bytes and the message
    Good(Vec<u8>, Option<Value>),
    /// malformed: bytes, kind
    Bad(Vec<u8>, &'static str),
}
impl Part {
    fn bytes(&self) -> &[u8] { match self { Part::Good(b, _) | Part::Bad(b, _) => b } }
}

#[derive(Debug)]
enum Ev { Msg(Value, usize), Err(String, usize) }

struct Outcome { events: Vec<Ev>, /// messages complete at each feed
    left: usize, feeds: u64, stalls: u64, panic: Option<String> }

/// Feeds the stream cut at `cuts`, draining the decoder after each chunk as FramedRead does.
/// After an error the decoder is called again as long as that changes something. With `nudge`
/// so it is after `None`: known finding `zero-length-holds-back` is that `None` for a
/// zero-length message is given while there is a message behind it, so streams with zero-length
/// messages are judged with nudging, and the finding has a probe of its own.
fn feed(stream: &[u8], cuts: &[usize], nudge: bool) -> Outcome {
    let mut o = Outcome { events: vec![], left: 0, feeds: 0, stalls: 0, panic: None };
    let r = guard(|| {
        let mut codec: LanguageServerCodec<Value> = LanguageServerCodec::default();
        let mut buf = BytesMut::new();
        let mut at = 0;
        let mut ends: Vec<usize> = cuts.to_vec();
        ends.push(stream.len());
        for end in ends {
            if end < at { continue }
            buf.extend_from_slice(&stream[at..end]);
            at = end;
            o.feeds += 1;
            let mut idle = 0;
            for _ in 0..stream.len() * 2 + 64 {
                let before = buf.len();
                match codec.decode(&mut buf) {
                    Ok(Some(v)) => { idle = 0; o.events.push(Ev::Msg(v, at)) }
                    Ok(None) if nudge && buf.len() != before => {}
                    Ok(None) => break,
                    Err(e) => {
                        o.events.push(Ev::Err(e.to_string(), at));
                        if buf.len() == before { idle += 1; if idle > 1 { o.stalls += 1; break } } else { idle = 0 }
                    }
                }
            }
        }
        o.left = buf.len();
    });
    if let Err(p) = r { o.panic = Some(p) }
    o
}

fn cutset(r: &mut Rng, len: usize, how: usize) -> Vec<usize> {
    let mut c: Vec<usize> = match how {
        0 => vec![],
        1 => (1..len).collect(),
        2 => vec![r.below(len + 1)],
        3 => { let k = r.range(1, 7); (1..len).step_by(k).collect() }
        _ => (0..r.range(1, 12)).map(|_| r.below(len + 1)).collect(),
    };
    c.sort();
    c
}

// ------------------------------------------------ messages

fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth > 2 { 5 } else { 7 }) {
        0 => Value::Null,
        1 => json!(r.bool()),
        2 => json!(r.next() as i64 >> r.below(64)),
        3 => json!((r.below(1000) as f64) / 8.0),
        4 => {
            let n = r.len(10, 400);
            let s: String = (0..n).map(|_| *r.pick(&['a', 'Z', ' ', '"', '\\', '\n', '\r', '\t', 'é', '日', '\u{1F600}', '\0', ':', '{', '}', '\u{7f}', '\u{2028}'])).collect();
            json!(if r.chance(1, 10) { format!("Content-Length: 5\r\n\r\n{s}") } else { s })
        }
        5 => { let n = r.below(5); Value::Array((0..n).map(|_| value(r, depth + 1)).collect()) }
        _ => { let n = r.below(5); Value::Object((0..n).map(|i| (format!("k{i}é"), value(r, depth + 1))).collect()) }
    }
}

fn message(r: &mut Rng) -> Value {
    match r.below(4) {
        0 => json!({"jsonrpc": "2.0", "method": "exit"}),
        1 => json!({"jsonrpc": "2.0", "id": r.below(100), "method": r.word(&["initialize", "textDocument/formatting", "日本"]), "params": value(r, 0)}),
        2 => json!({"jsonrpc": "2.0", "id": r.below(100), "result": value(r, 0)}),
        _ => value(r, 0),
    }
}

fn frame(r: &mut Rng, body: &[u8]) -> Vec<u8> {
    let len = body.len();
    let types = ["application/vscode-jsonrpc; charset=utf-8", "application/vscode-jsonrpc; charset=utf8", "x; charset=utf8", "application/vscode-jsonrpc;charset=utf-8", "a; b=c; charset=utf-8"];
    let ty = r.word(&types);
    let head = match r.below(9) {
        0 | 1 => format!("Content-Length: {len}\r\nContent-Type: {ty}\r\n\r\n"),
        2 => format!("Content-Type: {ty}\r\nContent-Length: {len}\r\n\r\n"),
        3 => format!("X-Other: 1\r\nContent-Length: {len}\r\n\r\n"),
        4 => format!("Content-Length: {len}\r\nX-Other: a b\r\n\r\n"),
        5 => format!("Content-Length:{len}\r\n\r\n"),
        _ => format!("Content-Length: {len}\r\n\r\n"),
    };
    let mut v = head.into_bytes();
    v.extend_from_slice(body);
    v
}

fn good(r: &mut Rng, m: &mut Monitor) -> Part {
    if r.chance(1, 8) { return Part::Good(frame(r, b""), None) }
    let v = message(r);
    if r.bool() {
        // through the real encoder, whose framing is checked by hand
        let mut buf = BytesMut::new();
        let mut c: LanguageServerCodec<Value> = LanguageServerCodec::default();
        // the encoder appends, so it must leave what is there alone
        let pre = r.below(3);
        buf.extend_from_slice(&b"zz"[..pre]);
        match guard(|| c.encode(v.clone(), &mut buf).map_err(|e| e.to_string())) {
            Ok(Ok(())) => {}
            other => m.violation("encode", format!("encode({v}) = {other:?}"), json!({"value": v})),
        }
        let body = serde_json::to_vec(&v).unwrap();
        let mut want = b"zz"[..pre].to_vec();
        want.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
        want.extend_from_slice(&body);
        m.count("messages through the encoder");
        if buf[..] != want[..] {
            m.violation("encode-frame", format!("encode({v}) wrote {:?} instead of {:?}", String::from_utf8_lossy(&buf), String::from_utf8_lossy(&want)), json!({"value": v}));
        }
        Part::Good(want[pre..].to_vec(), Some(v))
    } else {
        let body = if r.bool() { serde_json::to_vec_pretty(&v).unwrap() } else { serde_json::to_vec(&v).unwrap() };
        Part::Good(frame(r, &body), Some(v))
    }
}

/// Malformed, and certainly so: nothing in it can be taken for part of a good message.
/// Bodies that are not UTF-8 and headers that cannot be split are left to `known_findings`.
fn bad(r: &mut Rng) -> Part {
    let junk: &[u8] = *r.pick(&[b"{\"x\":1}".as_slice(), b"{}", b"null", b"abc", b"[1, 2]", b"\xff\xfe", b"", b" ", b"\"", b"a b", b"{\r\n}", b"\0", b"\xe9", b"x: y"]);
    let cat = |a: String, b: &[u8]| { let mut v = a.into_bytes(); v.extend_from_slice(b); v };
    match r.below(5) {
        0 => { let b: &[u8] = *r.pick(&[b"{".as_slice(), b"{\"a\":}", b"nul", b"[1,", b"\"abc", b"{} {}", b"\x01", b"tru", b"}"]); Part::Bad(cat(format!("Content-Length: {}\r\n\r\n", b.len()), b), "invalid JSON body") }
        1 => Part::Bad(cat(format!("Content-Length: {}\r\n\r\n", r.word(&["foobar", "-1", "1e3", "99999999999999999999999999", "0x10", "", "1 2", "\"5\"", "5.0"])), junk), "invalid Content-Length"),
        2 => Part::Bad(cat(format!("Content-Length: {}\r\nContent-Type: {}\r\n\r\n", junk.len(), r.word(&["application/vscode-jsonrpc", "x; charset=latin1", "x; charset=UTF-16", ""])), junk), "invalid Content-Type"),
        3 => Part::Bad(cat("Content-Type: x; charset=utf-8\r\n\r\n".into(), junk), "missing Content-Length"),
        _ => Part::Bad(cat("X-Other: 5\r\n\r\n".into(), junk), "missing Content-Length"),
    }
}

/// Streams that break the bytes up anyhow, for the hostile workload alone.
fn hostile(r: &mut Rng) -> Vec<u8> {
    match r.below(3) {
        0 => { let b: &[u8] = *r.pick(&[b"\xff".as_slice(), b"\"\xe9\"", b"{\"a\": \"\xf0\x9f\"}", b"\xed\xa0\x80", b"\"\xc0\x80\""]); let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes(); v.extend_from_slice(b); v }
        1 => r.pick(&[b"foobar".as_slice(), b"(", b"GET / HTTP/1.1\r\n\r\n", b"{\"jsonrpc\":\"2.0\"}", b"\xff\xff", b"\0\0\0", b"Content-Typo: 1\r\n\r\n", b"Content-Leng", b"CONTENT", b"C", b"\r\n\r\nxx", b"Content-Length: 5\x01\r\n\r\n", b"X-A: 1\r\nX-B: 2\r\nX-C: 3\r\n\r\n"]).to_vec(),
        _ => bad(r).bytes().to_vec(),
    }
}

/// The genuine defects of the codec, which lies in a test crate and so may not be repaired
/// here: one fixed input each, under the key listed in KNOWN_FINDINGS.txt.
fn known_findings(m: &mut Monitor, p01: bool) {
    let one = b"Content-Length: 1\r\n\r\n7";
    let cases: Vec<(&str, Vec<Vec<u8>>, usize)> = if p01 {
        vec![("zero-length-holds-back", vec![b"Content-Length: 0\r\n\r\n".to_vec(), one.to_vec()], 1)]
    } else {
        vec![
            ("stuck-on-non-utf8-body", vec![b"Content-Length: 1\r\n\r\n\xff".to_vec(), one.to_vec()], 1),
            ("stuck-on-garbage-headers", vec![b"(\r\n\r\n".to_vec(), one.to_vec()], 1),
            ("stuck-on-split-invalid-message", vec![b"Content-Length: x\r\n\r\n({)".to_vec(), one.to_vec()], 1),
        ]
    };
    for (key, parts, want) in cases {
        let stream = parts.concat();
        let cuts = if key.contains("split") { vec![parts[0].len()] } else { vec![] };
        let o = feed(&stream, &cuts, false);
        m.eval(hash_str(key), true);
        let got = o.events.iter().filter(|e| matches!(e, Ev::Msg(v, _) if *v == json!(7))).count();
        m.count("known findings probed");
        if got != want || o.panic.is_some() {
            m.violation(key, format!("{:?} cut at {cuts:?}: the message 7 was decoded {got} times; events {:?}", String::from_utf8_lossy(&stream), o.events), json!({"probe": key}));
        }
    }
}

// ------------------------------------------------ judging

fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect() }

fn case(parts: &[Part], cuts: &[usize]) -> Value {
    json!({"parts": parts.iter().map(|p| match p {
        Part::Good(b, v) => json!({"good": hexs(b), "value": v, "empty": v.is_none(), "text": String::from_utf8_lossy(b)}),
        Part::Bad(b, k) => json!({"bad": hexs(b), "kind": k, "text": String::from_utf8_lossy(b)}),
    }).collect::<Vec<_>>(), "cuts": cuts})
}

/// None, or what is wrong.
fn judge(parts: &[Part], cuts: &[usize], m: &mut Monitor) -> Option<(String, String)> {
    let stream: Vec<u8> = parts.iter().flat_map(|p| p.bytes().to_vec()).collect();
    let o = feed(&stream, cuts, parts.iter().any(|p| matches!(p, Part::Good(_, None))));
    m.add("chunks fed", o.feeds);
    m.add("decoder stalls after an error", o.stalls);
    if let Some(p) = o.panic { return Some(("panic".into(), p)) }
    let clean = parts.iter().all(|p| matches!(p, Part::Good(..)));
    let mut want: Vec<(&Value, usize)> = vec![];
    let mut end = 0;
    for p in parts {
        end += p.bytes().len();
        if let Part::Good(_, Some(v)) = p { want.push((v, end)) }
    }
    let got: Vec<(&Value, usize)> = o.events.iter().filter_map(|e| if let Ev::Msg(v, at) = e { Some((v, *at)) } else { None }).collect();
    let errors: Vec<&String> = o.events.iter().filter_map(|e| if let Ev::Err(t, _) = e { Some(t) } else { None }).collect();
    m.add("messages decoded", got.len() as u64);
    m.add("errors reported", errors.len() as u64);
    // a defect is named by the first malformed part before the first difference
    let i = (0..want.len().max(got.len())).find(|i| want.get(*i).map(|x| x.0) != got.get(*i).map(|x| x.0));
    if let Some(i) = i {
        let mut seen = 0;
        let mut kind = "clean";
        for p in parts {
            match p {
                Part::Good(_, Some(_)) => { if seen == i { break } seen += 1; kind = "clean" }
                Part::Good(_, None) => if kind == "clean" { kind = "zero-length message" },
                Part::Bad(_, k) => kind = k,
            }
        }
        let what = if got.len() < want.len() { "lost" } else if got.len() > want.len() { "invented" } else { "changed" };
        return Some((format!("{what}:after {kind}"), format!("message {i} is {:?} instead of {:?}; {} of {} decoded; errors {errors:?}", got.get(i), want.get(i), got.len(), want.len())));
    }
    if clean {
        if let Some(e) = errors.first() { return Some(("error on clean input".into(), format!("well-formed messages gave the error {e}"))) }
        if o.left != 0 { return Some(("leftover".into(), format!("{} bytes left over", o.left))) }
        // as soon as its last byte is there
        for (i, ((_, end), (_, at))) in want.iter().zip(&got).enumerate() {
            let due = cuts.iter().copied().filter(|c| c >= end).min().unwrap_or(stream.len());
            if *at != due { return Some(("late".into(), format!("message {i}, complete at byte {end}, was decoded when {at} bytes were there, not {due}"))) }
        }
    } else {
        for p in parts {
            if let Part::Bad(_, k @ ("invalid JSON body" | "invalid Content-Length" | "invalid Content-Type")) = p {
                if errors.is_empty() { return Some((format!("no error:{k}"), "malformed message reported no error".into())) }
            }
        }
    }
    None
}

/// A returned message must be framed in the stream: `Content-Length: L`, blank line, L bytes.
fn framed(stream: &[u8], v: &Value) -> bool {
    (0..stream.len()).any(|s| {
        (stream[..s].ends_with(b"\n\r\n") || stream[..s].ends_with(b"\n\n")) && (s..=stream.len()).any(|e| {
            e > s && serde_json::from_slice::<Value>(&stream[s..e]).ok().as_ref() == Some(v) && {
                let head = String::from_utf8_lossy(&stream[..s]);
                head.rfind("Content-Length").is_some() && head.contains(&(e - s).to_string())
            }
        })
    })
}

fn fuzz(m: &mut Monitor, stream: &[u8], cuts: &[usize]) {
    m.inflight(&hexs(stream));
    let o = feed(stream, cuts, false);
    m.eval(hash_bytes(stream), !stream.is_empty());
    m.count("hostile streams");
    let c = || json!({"fuzz": hexs(stream), "cuts": cuts});
    if let Some(p) = o.panic { return m.violation("panic", format!("{:?} cut at {cuts:?}: {p}", String::from_utf8_lossy(stream)), c()) }
    for e in &o.events {
        match e {
            Ev::Msg(v, _) => { m.count("messages in hostile streams"); if stream.len() < 2000 && !framed(stream, v) { m.violation("invented", format!("{:?} gave {v}", String::from_utf8_lossy(stream)), c()) } }
            Ev::Err(..) => m.count("errors in hostile streams"),
        }
    }
    if o.events.len() > stream.len() * 2 + 60 { m.violation("endless", format!("{:?} gave {} events", String::from_utf8_lossy(stream), o.events.len()), c()) }
}

/// Through FramedRead/FramedWrite over an in-memory pipe, as the test client uses the codec.
fn piped(m: &mut Monitor, r: &mut Rng, n: usize) {
    let values: Vec<Value> = (0..n).map(|_| message(r)).collect();
    let cap = *r.pick(&[1usize, 2, 7, 64, 1024, 65536]);
    let sent = values.clone();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let got = guard(|| rt.block_on(async move {
        let (a, b) = tokio::io::duplex(cap);
        let task = tokio::spawn(async move {
            let mut w = FramedWrite::new(a, LanguageServerCodec::<Value>::default());
            for v in sent { w.send(v).await.unwrap() }
        });
        let mut rd = FramedRead::new(b, LanguageServerCodec::<Value>::default());
        let mut got = vec![];
        let mut err = None;
        while let Some(x) = rd.next().await {
            match x { Ok(v) => got.push(v), Err(e) => { err = Some(e.to_string()); break } }
        }
        task.await.ok();
        (got, err)
    }));
    m.count("pipes");
    m.add("messages through pipes", n as u64);
    match got {
        Ok((g, None)) if g == values => {}
        other => m.violation("pipe", format!("{n} messages through a pipe of {cap} bytes: {other:?}").chars().take(600).collect::<String>(), json!({"values": values, "cap": cap})),
    }
}

fn main() {
    let prop = std::env::var("VK_PROP").unwrap_or("P01".into());
    let p01 = prop == "P01";
    let mut m = Monitor::new(&prop);
    let mut r = m.rng("streams");
    if let Some(c) = m.replay.clone() {
        let cuts: Vec<usize> = c["cuts"].as_array().into_iter().flatten().filter_map(|x| x.as_u64().map(|x| x as usize)).collect();
        if c["probe"].is_string() {
            known_findings(&mut m, p01);
        } else if let Some(h) = c["fuzz"].as_str() {
            fuzz(&mut m, &unhex(h), &cuts);
        } else {
            let parts: Vec<Part> = c["parts"].as_array().into_iter().flatten().map(|p| match p["good"].as_str() {
                Some(h) => Part::Good(unhex(h), (p["empty"] != json!(true)).then(|| p["value"].clone())),
                None => Part::Bad(unhex(p["bad"].as_str().unwrap_or("")), "replayed"),
            }).collect();
            m.eval(0, true);
            if let Some((k, d)) = judge(&parts, &cuts, &mut m) { m.violation(k, d, c) }
        }
        m.finish();
        return;
    }
    known_findings(&mut m, p01);
    let total = m.n(12500, 60_000);
    for i in 0..total {
        if !m.running() { break }
        let n = r.range(1, 6);
        let mut parts: Vec<Part> = vec![];
        for _ in 0..n {
            if !p01 && r.chance(2, 5) {
                // two malformed parts in a row could combine into something well-formed
                if !matches!(parts.last(), Some(Part::Bad(..))) { parts.push(bad(&mut r)) }
            }
            let mut g = good(&mut r, &mut m);
            if matches!(parts.last(), Some(Part::Bad(..))) {
                // the codec looks for the next message by its first header
                while !g.bytes().starts_with(b"Content-Length") { g = good(&mut r, &mut m) }
            }
            parts.push(g);
        }
        if !p01 { for p in &parts { if let Part::Bad(_, k) = p { m.count(&format!("malformed: {k}")) } } }
        if parts.iter().any(|p| matches!(p, Part::Good(_, None))) { m.count("streams with a zero-length message") }
        let len: usize = parts.iter().map(|p| p.bytes().len()).sum();
        let mut all: Vec<Vec<usize>> = (0..8).map(|h| cutset(&mut r, len, h)).collect();
        // short streams: every way to cut once
        if len < 300 || i % 50 == 0 { all.extend((0..=len.min(1500)).map(|c| vec![c])) }
        // malformed messages arrive together with the header that follows them (the codec gets
        // stuck otherwise: known finding `stuck-on-split-invalid-message`)
        let (mut at, mut whole) = (0, vec![]);
        for p in &parts {
            if matches!(p, Part::Bad(_, k) if *k != "invalid JSON body") { whole.push((at, at + p.bytes().len() + 14)) }
            at += p.bytes().len();
        }
        for cuts in &mut all { cuts.retain(|c| !whole.iter().any(|(a, b)| a < c && c < b)) }
        for cuts in all {
            m.eval(hash_str(&format!("{:?}{cuts:?}", parts.iter().map(|p| hash_bytes(p.bytes())).collect::<Vec<_>>())), !cuts.is_empty() || parts.len() > 1);
            m.count("chunkings");
            if let Some((k, d)) = judge(&parts, &cuts, &mut m) {
                let mut ps = parts.clone();
                // drop parts that do not matter
                let mut j = 0;
                while j < ps.len() && cuts.len() <= 1 {
                    let mut q = ps.clone();
                    q.remove(j);
                    if judge(&q, &cuts, &mut m).is_some_and(|x| x.0 == k) { ps = q } else { j += 1 }
                }
                m.violation(k, d, case(&ps, &cuts));
            }
        }
        m.sample(|| case(&parts, &[])["parts"].clone());
    }
    if p01 {
        for _ in 0..m.n(40, 400) { if !m.running() { break } let n = r.range(1, 40); piped(&mut m, &mut r, n) }
        // sizes around the digits of Content-Length and typical buffer sizes
        for n in [0usize, 7, 8, 9, 97, 98, 99, 100, 997, 998, 1000, 4094, 4096, 8190, 8192, 65534, 65536, 99_998, 1_000_000] {
            let v = json!("x".repeat(n));
            let body = serde_json::to_vec(&v).unwrap();
            let parts = vec![Part::Good(frame(&mut r, &body), Some(v.clone())), Part::Good(frame(&mut r, b"1"), Some(json!(1)))];
            let len = parts[0].bytes().len();
            for cuts in [vec![], vec![len - 1], vec![len], vec![len + 1], vec![len / 2], vec![10, 20]] {
                m.eval_str(&format!("size{n}{cuts:?}"), true);
                m.count("chunkings");
                if let Some((k, d)) = judge(&parts, &cuts, &mut m) { m.violation(format!("{k}:large"), d, json!({"size": n, "cuts": cuts, "parts": []})) }
            }
        }
        // many messages, many of them empty, in one buffer
        let parts: Vec<Part> = (0..m.n(100000, 200_000)).map(|i| if i % 1000 == 999 { Part::Good(frame(&mut r, b"7"), Some(json!(7))) } else { Part::Good(b"Content-Length: 0\r\n\r\n".to_vec(), None) }).collect();
        m.inflight("20000 zero-length messages in one buffer");
        m.eval_str("many", true);
        if let Some((k, d)) = judge(&parts, &[], &mut m) { m.violation(format!("{k}:many"), d, json!({"many": parts.len(), "parts": [], "cuts": []})) }
        m.require("messages decoded", 10_000);
        m.require("chunkings", 5000);
        m.require("streams with a zero-length message", 100);
        m.require("messages through pipes", 100);
    } else {
        // mutated and random streams
        for _ in 0..m.n(150000, 800_000) {
            if !m.running() { break }
            let mut s: Vec<u8> = vec![];
            if r.chance(1, 4) {
                let n = r.len(60, 600);
                for _ in 0..n { s.push(*r.pick(&[b'C', b'o', b':', b' ', b'\r', b'\n', b'1', b'{', b'}', 0xff, 0, b'"'])) }
            } else {
                let n = r.range(1, 3);
                for _ in 0..n {
                    let p = if r.bool() { let v = value(&mut r, 1); let b = serde_json::to_vec(&v).unwrap(); frame(&mut r, &b) } else { hostile(&mut r) };
                    s.extend(p);
                }
                for _ in 0..r.below(6) {
                    if s.is_empty() { break }
                    let i = r.below(s.len());
                    match r.below(5) {
                        0 => { s.remove(i); }
                        1 => s.insert(i, *r.pick(&[b'\r', b'\n', b'9', b' ', 0xff, b':', b'C'])),
                        2 => s[i] ^= 1 << r.below(8),
                        3 => { let j = r.below(s.len()); let (a, b) = (i.min(j), i.max(j)); let c = s[a..b].to_vec(); for (k, x) in c.into_iter().enumerate() { s.insert(i + k, x) } }
                        _ => s.truncate(i),
                    }
                    if s.len() > 1500 { s.truncate(1500) }
                }
            }
            let how = r.below(5);
            let cuts = cutset(&mut r, s.len(), how);
            fuzz(&mut m, &s, &cuts);
        }
        m.require("hostile streams", 5000);
        m.require("errors in hostile streams", 1000);
        for k in ["invalid JSON body", "invalid Content-Length", "invalid Content-Type", "missing Content-Length"] { m.require(&format!("malformed: {k}"), 50) }
    }
    m.finish();
}
