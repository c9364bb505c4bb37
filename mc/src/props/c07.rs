//! C07: the HTTP reader, against a server on the loopback interface.
use std::cell::RefCell;
use std::ops::Range;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use async_tiff::reader::{AsyncFileReader, ReqwestReader};
use bytes::Bytes;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpListener;

use super::c02::{content, many, ranges};
use super::{about, About};
use crate::engine::{body, engine_unwind, Body, Ch};
use crate::ensure;
use crate::sources::wide;
use crate::Tier;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Reply {
    /// 206 with the bytes of the range
    Partial,
    /// 206 in chunked transfer encoding
    Chunked,
    /// 200 with the whole file
    Whole,
    Status(u16),
    /// The connection is closed after some of the body
    Broken(usize),
    /// 200 with the whole file, in chunked transfer encoding
    WholeChunked,
    /// 200 with the whole file, ended by closing the connection
    WholeClose,
    /// 200, and the connection is closed before the last byte of the file
    WholeBroken,
    /// 206 in chunked transfer encoding, and the connection is closed before the last chunk
    ChunkedBroken,
    /// The connection is closed without an answer
    Silent,
}

#[derive(Default)]
struct Log {
    /// request line, range header, other range-like headers
    seen: Vec<(String, Vec<String>)>,
}

struct Server {
    port: u16,
    state: Arc<Mutex<(u64, Bytes, Vec<(Option<String>, Reply)>, Log)>>,
}

thread_local! {
    static HTTP: (tokio::runtime::Runtime, RefCell<Option<Server>>) = (
        tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime"),
        RefCell::new(None),
    );
}

async fn serve(mut s: tokio::net::TcpStream, state: Arc<Mutex<(u64, Bytes, Vec<(Option<String>, Reply)>, Log)>>) -> std::io::Result<()> {
    let mut buf = vec![];
    loop {
        // one request
        let head = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                let h: Vec<u8> = buf.drain(..i + 4).collect();
                break String::from_utf8_lossy(&h).into_owned();
            }
            let mut tmp = [0; 2048];
            let n = s.read(&mut tmp).await?;
            if n == 0 {
                return Ok(());
            }
            buf.extend(&tmp[..n]);
        };
        let mut lines = head.lines();
        let first = lines.next().unwrap_or_default().to_string();
        let rh: Vec<String> = lines
            .filter_map(|l| l.split_once(':'))
            .filter(|(k, _)| k.eq_ignore_ascii_case("range"))
            .map(|(_, v)| v.trim().to_string())
            .collect();
        // every request comes from the configured client
        let first = if head.lines().any(|l| l.eq_ignore_ascii_case("x-client: ours")) { first } else { format!("{first} (another client)") };
        let ((base, data), reply) = {
            let mut g = state.lock().unwrap();
            g.3.seen.push((first, rh.clone()));
            // the next reply, or the next of those meant for this range
            let k = g.2.iter().position(|(h, _)| h.is_none() || *h == rh.first().cloned());
            let r = k.map_or(Reply::Status(599), |k| g.2.remove(k).1);
            ((g.0, g.1.clone()), r)
        };
        let range = rh.first().and_then(|v| v.strip_prefix("bytes=")).and_then(|v| {
            let (a, b) = v.split_once('-')?;
            let a: u64 = a.parse().ok()?;
            let b: u64 = b.parse().ok()?;
            (a <= b && a >= base && a - base < data.len() as u64).then(|| a..b.saturating_add(1).min(base + data.len() as u64))
        });
        let part = range.clone().map(|r| data.slice((r.start - base) as usize..(r.end - base) as usize));
        let cr = range
            .as_ref()
            .map(|r| format!("Content-Range: bytes {}-{}/{}\r\n", r.start, r.end - 1, base + data.len() as u64))
            .unwrap_or_default();
        let (mut out, close): (Vec<u8>, bool) = match (reply, part) {
            (Reply::Whole, _) => {
                let mut o = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", data.len()).into_bytes();
                o.extend(&data);
                (o, false)
            }
            (Reply::WholeChunked, _) => {
                let mut o = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n".to_vec();
                for c in data.chunks(3) {
                    o.extend(format!("{:x}\r\n", c.len()).bytes());
                    o.extend(c);
                    o.extend(b"\r\n");
                }
                o.extend(b"0\r\n\r\n");
                (o, false)
            }
            (Reply::WholeClose, _) => {
                let mut o = b"HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n".to_vec();
                o.extend(&data);
                (o, true)
            }
            (Reply::WholeBroken, _) => {
                let mut o = format!("HTTP/1.1 200 OK\r\nContent-Length: {}\r\n\r\n", data.len()).into_bytes();
                o.extend(&data[..data.len() - 1]);
                (o, true)
            }
            (Reply::ChunkedBroken, Some(p)) => {
                let mut o = format!("HTTP/1.1 206 Partial Content\r\n{cr}Transfer-Encoding: chunked\r\n\r\n").into_bytes();
                o.extend(format!("{:x}\r\n", p.len()).bytes());
                o.extend(&p);
                (o, true)
            }
            (Reply::Partial, Some(p)) => {
                let mut o = format!("HTTP/1.1 206 Partial Content\r\n{cr}Content-Length: {}\r\n\r\n", p.len()).into_bytes();
                o.extend(&p);
                (o, false)
            }
            (Reply::Chunked, Some(p)) => {
                let mut o = format!("HTTP/1.1 206 Partial Content\r\n{cr}Transfer-Encoding: chunked\r\n\r\n").into_bytes();
                for c in p.chunks(2) {
                    o.extend(format!("{:x}\r\n", c.len()).bytes());
                    o.extend(c);
                    o.extend(b"\r\n");
                }
                o.extend(b"0\r\n\r\n");
                (o, false)
            }
            (Reply::Broken(k), Some(p)) => {
                let mut o = format!("HTTP/1.1 206 Partial Content\r\n{cr}Content-Length: {}\r\n\r\n", p.len()).into_bytes();
                o.extend(&p[..k.min(p.len() - 1)]);
                (o, true)
            }
            (Reply::Status(c), _) => (format!("HTTP/1.1 {c} Status\r\nContent-Length: 9\r\n\r\nsome page").into_bytes(), false),
            (Reply::Silent, _) => (vec![], true),
            (_, None) => (b"HTTP/1.1 416 Range Not Satisfiable\r\nContent-Length: 0\r\n\r\n".to_vec(), false),
        };
        // in two writes
        let rest = out.split_off(out.len() / 2);
        s.write_all(&out).await?;
        s.flush().await?;
        tokio::task::yield_now().await;
        s.write_all(&rest).await?;
        s.flush().await?;
        if close {
            return Ok(());
        }
    }
}

/// Run requests against a server that gives these replies in order.
fn with_server<T>(base: u64, data: Bytes, replies: Vec<Reply>, f: impl AsyncFnOnce(u16) -> T) -> (T, Vec<(String, Vec<String>)>) {
    with_replies(base, data, replies.into_iter().map(|r| (None, r)).collect(), f)
}

/// Run requests against a server that gives each range its own replies, in whatever order they are asked for.
fn with_replies<T>(
    base: u64,
    data: Bytes,
    replies: Vec<(Option<String>, Reply)>,
    f: impl AsyncFnOnce(u16) -> T,
) -> (T, Vec<(String, Vec<String>)>) {
    HTTP.with(|(rt, srv)| {
        let mut srv = srv.borrow_mut();
        if srv.is_none() {
            let state = Arc::new(Mutex::new((0, Bytes::new(), vec![], Log::default())));
            let st = state.clone();
            let l = rt
                .block_on(TcpListener::bind("127.0.0.1:0"))
                .unwrap_or_else(|e| engine_unwind(format!("no loopback network: {e}")));
            let port = l.local_addr().unwrap().port();
            rt.spawn(async move {
                loop {
                    if let Ok((s, _)) = l.accept().await {
                        let _ = s.set_nodelay(true);
                        tokio::spawn(serve(s, st.clone()));
                    }
                }
            });
            *srv = Some(Server { port, state });
        }
        let s = srv.as_ref().unwrap();
        *s.state.lock().unwrap() = (base, data, replies, Log::default());
        let port = s.port;
        let out = rt.block_on(async move {
            match tokio::time::timeout(Duration::from_secs(30), f(port)).await {
                Ok(v) => v,
                Err(_) => crate::engine::violation_unwind("the HTTP request does not finish"),
            }
        });
        let seen = std::mem::take(&mut s.state.lock().unwrap().3.seen);
        (out, seen)
    })
}

fn client() -> reqwest::Client {
    let h = [(reqwest::header::HeaderName::from_static("x-client"), reqwest::header::HeaderValue::from_static("ours"))];
    reqwest::Client::builder().no_proxy().default_headers(h.into_iter().collect()).build().expect("client")
}

fn check(ch: &mut Ch, data: &Bytes, rs: &[Range<u64>], replies: &[Reply], multi: bool, path: &str) -> Result<(), String> {
    let asked: Vec<Range<u64>> = rs.iter().filter(|x| !x.is_empty()).cloned().collect();
    let header = |x: &Range<u64>| format!("bytes={}-{}", x.start, x.end - 1);
    let plan = replies
        .iter()
        .enumerate()
        .filter(|(k, _)| !multi || *k < asked.len())
        .map(|(k, r)| (multi.then(|| header(&asked[k])), *r))
        .collect();
    let (got, seen) = with_replies(0, data.clone(), plan, async |port| {
        let url = format!("http://127.0.0.1:{port}{path}").parse().unwrap();
        let r = ReqwestReader::new(client(), url);
        let mut v: Vec<Result<Vec<Bytes>, String>> = vec![];
        if multi {
            v.push(r.get_byte_ranges(rs.to_vec()).await.map_err(|e| e.to_string()));
        } else {
            for x in rs {
                v.push(r.get_bytes(x.clone()).await.map(|b| vec![b]).map_err(|e| e.to_string()));
            }
        }
        v
    });
    ch.note(|| format!("{rs:?} with replies {replies:?} -> {got:?}; server saw {seen:?}"));
    ch.step((rs, replies, multi));
    ch.observe(&seen);
    let good = |r: &Reply| matches!(r, Reply::Partial | Reply::Chunked | Reply::Whole | Reply::WholeChunked | Reply::WholeClose);
    let len = data.len() as u64;
    // the requests the server must have seen, and the results, in order
    let mut k = 0;
    let mut want: Vec<Result<Bytes, ()>> = vec![];
    for x in rs {
        if x.is_empty() {
            want.push(Ok(Bytes::new()));
            continue;
        }
        let rep = replies.get(k).copied().unwrap_or(Reply::Status(599));
        k += 1;
        let fine = good(&rep) && x.end <= len;
        want.push(if fine { Ok(data.slice(x.start as usize..x.end as usize)) } else { Err(()) });
    }
    for (line, hs) in &seen {
        ensure!(*line == format!("GET {path} HTTP/1.1"), "request line {line:?}");
        ensure!(hs.len() == 1, "{rs:?}: a request has the range headers {hs:?}");
    }
    let mut asked: Vec<String> = asked.iter().map(header).collect();
    let mut heads: Vec<String> = seen.iter().map(|(_, h)| h[0].clone()).collect();
    if multi {
        // in any order, and none is needed after a failure
        asked.sort();
        heads.sort();
        if want.contains(&Err(())) {
            let mut left = asked.clone();
            for h in &heads {
                let Some(i) = left.iter().position(|x| x == h) else {
                    return Err(format!("{rs:?} was requested as {heads:?}"));
                };
                left.remove(i);
            }
            asked = heads.clone();
        }
    }
    // a failing connection may be tried again by the client itself
    let retried = replies.contains(&Reply::Silent);
    if retried {
        heads.dedup();
        asked.dedup();
    }
    ensure!(heads == asked, "{rs:?} was requested as {heads:?} instead of {asked:?}");
    if multi {
        let w: Result<Vec<Bytes>, ()> = want.into_iter().collect();
        let g = got[0].clone();
        ensure!(g.clone().map_err(|_| ()) == w, "{rs:?} gave {g:?} instead of {w:?}");
    } else {
        for ((g, w), x) in got.iter().zip(&want).zip(rs) {
            match (g, w) {
                (Ok(b), Ok(w)) => ensure!(b[0] == *w, "{x:?} gave {:?} instead of {w:?}", b[0]),
                (Err(_), Err(())) => {}
                (Ok(b), Err(())) => {
                    // past the end of the file: no bytes that are not there
                    let p = x.start.min(len) as usize..x.end.min(len) as usize;
                    ensure!(x.end > len && b[0] == data.slice(p), "{x:?} gave {:?} instead of an error", b[0]);
                }
                (Err(e), Ok(_)) => return Err(format!("{x:?} failed: {e}")),
            }
        }
    }
    Ok(())
}

/// A range far into a file of which the server has only that part.
fn far(ch: &mut Ch) -> Result<(), String> {
    let base = ch.pick(&[65530u64, (1 << 31) - 4, 1 << 31, (1 << 32) - 4, 1 << 32, (1 << 53) - 3, 1 << 62, (1 << 63) - 4, u64::MAX - 8]);
    let data = content(8);
    let rep = ch.pick(&[Reply::Partial, Reply::Chunked]);
    let x = ch.pick(&ranges(8));
    let (s, e) = (base + x.start, base + x.end);
    let (got, seen) = with_server(base, data.clone(), vec![rep], async |port| {
        let url = format!("http://127.0.0.1:{port}/x").parse().unwrap();
        ReqwestReader::new(client(), url).get_bytes(s..e).await.map_err(|e| e.to_string())
    });
    ch.note(|| format!("{s}..{e} -> {got:?}; server saw {seen:?}"));
    ch.step((s, e, rep));
    let want = data.slice(x.start as usize..x.end as usize);
    ensure!(got.as_ref() == Ok(&want), "{s}..{e} gave {got:?} instead of {want:?}");
    if s < e {
        let h = format!("bytes={s}-{}", e - 1);
        ensure!(seen.len() == 1 && seen[0].1[..] == [h.clone()], "{s}..{e} was requested as {seen:?} instead of {h}");
    }
    Ok(())
}

pub fn get(t: Tier) -> (Vec<Body>, About) {
    let all = [
        Reply::Partial,
        Reply::Whole,
        Reply::Chunked,
        Reply::Status(404),
        Reply::Status(403),
        Reply::Status(500),
        Reply::Status(503),
        Reply::Status(416),
        Reply::Broken(0),
        Reply::Broken(1),
        Reply::Silent,
        Reply::WholeChunked,
        Reply::WholeClose,
        Reply::WholeBroken,
        Reply::ChunkedBroken,
    ];
    let n = t.sel(5u64, 12);
    let bodies = vec![
        body("every range, every kind of reply", move |ch| {
            let rep = ch.pick(&all);
            let data = content(n as usize);
            let rs = ranges(n);
            let x = ch.pick(&rs);
            let path = ch.pick(&["/a.tif", "/dir/b.tif?x=1&y=2"]);
            check(ch, &data, &[x], &[rep], false, path)
        }),
        body("every error status", move |ch| {
            let code = 400 + ch.choose(200) as u16;
            let data = content(6);
            // the page is 9 bytes long
            let x = ch.pick(&[0..1u64, 0..6, 2..5, 5..6]);
            let multi = ch.flag();
            check(ch, &data, &[x], &[Reply::Status(code)], multi, "/x")
        }),
        body("every sort of URL", move |ch| {
            let path = ch.pick(&["/", "/?", "/?a", "/a%20b.tif", "/a;v=1/b?sig=%2B%2F==&e=x%26y", "/d//e/", "/%C3%A9.tif?q=%C3%A9", "/a+b@c:d.tif?u=http://h/p"]);
            let x = ch.pick(&ranges(3));
            let rep = ch.pick(&[Reply::Partial, Reply::Whole]);
            check(ch, &content(3), &[x], &[rep], false, path)
        }),
        body("requests under way at once", move |ch| {
            let data = content(4);
            let n = ch.choose(t.sel(2, 3)) + 2;
            let xs: Vec<Range<u64>> = (0..n).map(|_| ch.pick(&[0..4u64, 1..3, 2..2, 3..4])).collect();
            let rep = ch.pick(&[Reply::Partial, Reply::Whole, Reply::Chunked]);
            let clones = ch.flag();
            let (got, seen) = with_server(0, data.clone(), vec![rep; n], async |port| {
                let r = ReqwestReader::new(client(), format!("http://127.0.0.1:{port}/x").parse().unwrap());
                futures::future::join_all(xs.iter().map(|x| {
                    let own = clones.then(|| r.clone());
                    let r = &r;
                    async move { own.as_ref().unwrap_or(r).get_bytes(x.clone()).await.map_err(|e| e.to_string()) }
                }))
                .await
            });
            ch.note(|| format!("{xs:?} at once -> {got:?}; server saw {seen:?}"));
            ch.step((&xs, rep, clones));
            for (x, g) in xs.iter().zip(&got) {
                let w = data.slice(x.start as usize..x.end as usize);
                ensure!(g.as_ref() == Ok(&w), "{x:?} gave {g:?} instead of {w:?}");
            }
            let mut hs: Vec<String> = seen.iter().flat_map(|(_, h)| h.clone()).collect();
            hs.sort();
            let mut want: Vec<String> = xs.iter().filter(|x| !x.is_empty()).map(|x| format!("bytes={}-{}", x.start, x.end - 1)).collect();
            want.sort();
            ensure!(hs == want, "the server saw {hs:?} instead of {want:?}");
            Ok(())
        }),
        body("ranges past the end", move |ch| {
            let rep = ch.pick(&[Reply::Partial, Reply::Whole]);
            let data = content(ch.pick(&[0, 1, 4]));
            let mut xs = ranges(9);
            xs.extend([9..12, 0..u64::MAX, 2..u64::MAX, u64::MAX - 1..u64::MAX, u64::MAX - 4..u64::MAX, u64::MAX..u64::MAX]);
            let x = ch.pick(&xs);
            check(ch, &data, &[x], &[rep], false, "/x")
        }),
        body("ranges far into a file", far),
        body("sequences of requests on one reader", move |ch| {
            let data = content(4);
            let reps: Vec<Reply> = (0..t.sel(2, 4))
                .map(|_| ch.pick(&[Reply::Partial, Reply::Whole, Reply::Status(500), Reply::Broken(1)]))
                .collect();
            let xs: Vec<Range<u64>> = reps.iter().map(|_| ch.pick(&[0..4u64, 1..3, 2..2, 3..4])).collect();
            check(ch, &data, &xs, &reps, false, "/x")
        }),
        body("multi-range requests", move |ch| {
            let data = content(4);
            let k = ch.choose(4);
            let reps: Vec<Reply> = (0..k)
                .map(|_| ch.pick(&[Reply::Partial, Reply::Whole, Reply::Status(404)][..t.sel(3, 3)]))
                .collect();
            let xs: Vec<Range<u64>> = reps.iter().map(|_| ch.pick(&[0..4u64, 1..3, 2..2, 3..4][..t.sel(3, 4)])).collect();
            check(ch, &data, &xs, &reps, true, "/x")
        }),
        body("long multi-range requests", move |ch| {
            let data = wide().slice(..50_000);
            let n = ch.pick(&many(t.sel(300, 1100)));
            let bad = ch.choose(3);
            let mut reps: Vec<Reply> = (0..n).map(|i| [Reply::Partial, Reply::Chunked, Reply::Partial][i % 3]).collect();
            match bad {
                1 => reps[n - 1] = Reply::Status(404),
                2 => reps[n / 2] = Reply::Broken(1),
                _ => {}
            }
            let xs: Vec<Range<u64>> = (0..n as u64).map(|i| {
                let s = crate::tiffw::mix(i) % 49_000;
                s..s + 2 + i % 50
            }).collect();
            check(ch, &data, &xs, &reps, true, "/x").map_err(|e| e.chars().take(400).collect())
        }),
        body("large bodies", move |ch| {
            let data = wide();
            let rep = ch.pick(&[Reply::Partial, Reply::Whole, Reply::Broken((8 << 20) + 1)]);
            let x = ch.pick(&[0..1u64 << 20, 1..(16 << 20) + 2, 5..64 << 20]);
            check(ch, &data, &[x], &[rep], false, "/x").map_err(|e| e.chars().take(400).collect())
        }),
        body("bodies larger than a buffer", move |ch| {
            let data = content(300_000);
            let rep = ch.pick(&[Reply::Partial, Reply::Whole, Reply::Chunked, Reply::Broken(150_000)]);
            let x = ch.pick(&[0..300_000u64, 1..299_999, 100_000..200_001]);
            check(ch, &data, &[x], &[rep], false, "/x")
        }),
    ];
    (
        bodies,
        about(
            format!("every range of a {n}-byte file x 15 kinds of reply (206, 206 chunked, 200 with the whole file in 3 framings, error statuses, connections closed at 5 points) x 2 URLs; all statuses from 400 to 599; 8 sorts of URL; 2 to 3 (thorough: 4) requests at once; ranges past the end; every range of 8 bytes at 9 positions up to the end of the 64-bit range; all sequences of {} requests over 4 replies; multi-range requests of up to 3 ranges with every reply and of up to {} ranges with a failing one at the middle or end; bodies of up to 64 MiB", t.sel(2, 4), t.sel(300, 1100)),
            &["a server on the loopback interface; the HTTP client library is trusted to frame messages", "a 206 answer holds the range that was asked for"],
        ),
    )
}
