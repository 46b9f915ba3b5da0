//! HTTP engine: a scripted (and often hostile) server on the loopback interface, the real clients.

use std::io::{Read, SeekFrom, Write};
use std::collections::HashMap;
use std::net::{IpAddr, Ipv4Addr, Shutdown, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::num::NonZeroUsize;
use std::path::Path;
use std::sync::Arc;
use std::sync::LazyLock;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::time::Duration;

use parking_lot::Mutex;
use reqwest::header::{HeaderMap, HeaderValue};
use stream_download::http::{Client, HttpStream};
use stream_download::source::{DecodeError, SourceStream};
use stream_download::{Settings, StreamDownload, StreamInitializationError};

use crate::drive::{self, Content};
use crate::pipe::{FOREVER, Op, Ret, Store, provider};
use crate::quiesce::{Wait, tick};
use crate::report::{Fnv, Res};
use crate::rng::{Rng, fill};
use crate::storage::{DynProvider, StoreCfg, StoreCtl};
use crate::trace;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ranges {
    Honor,
    /// 206 without a Content-Range header
    NoContentRange,
    /// honoured, but only part of the range is returned
    Partial,
    /// the whole resource, as if no range had been requested
    Ignore,
    /// another range, honestly labelled
    Shifted,
    /// an error page
    Status(u16),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    /// the connection is closed after this many bytes of the body
    Cut(u64),
    /// nothing is sent any more after this many bytes, the connection stays open
    Stall(u64),
    Status(u16),
    /// the connection is closed before any response
    NoResponse,
}

#[derive(Clone, Debug)]
struct Script {
    seed: u64,
    total: u64,
    known: bool,
    accept_ranges: Option<&'static str>,
    ranges: Ranges,
    /// ranges are treated like this only from this request on (before, they are honoured)
    ranges_from: usize,
    faults: Vec<(usize, Fault)>,
    content_type: Option<&'static str>,
    redirect: bool,
    first_status: u16,
    frag: usize,
    pause_us: u64,
    /// without a length and ranges: a new request continues with what comes next
    live: bool,
}

#[derive(Clone, Debug)]
struct Req {
    path: String,
    range: Option<String>,
    headers: Vec<(String, String)>,
    /// what was sent as an answer
    status: u16,
    fault: Option<Fault>,
    start: u64,
    sent: u64,
    wanted: u64,
}

/// One case on the server: what to do, and what has been asked for.
struct Site {
    script: Script,
    reqs: Mutex<Vec<Req>>,
    live: Mutex<u64>,
    conns: Mutex<Vec<TcpStream>>,
}

/// One listener for the process. Cases are told apart by their address (all of 127.0.0.0/8 is
/// local), so that no connection is shared and no ports run out.
struct Hub {
    port: u16,
    sites: Mutex<HashMap<IpAddr, Arc<Site>>>,
    next: AtomicU32,
}

static HUB: LazyLock<Arc<Hub>> = LazyLock::new(|| {
    let l = TcpListener::bind("0.0.0.0:0").expect("bind");
    let hub = Arc::new(Hub {
        port: l.local_addr().expect("addr").port(),
        sites: Mutex::default(),
        next: AtomicU32::new(1),
    });
    let h = hub.clone();
    std::thread::spawn(move || {
        while let Ok((s, _)) = l.accept() {
            let site = s.local_addr().ok().and_then(|a| h.sites.lock().get(&a.ip()).cloned());
            let Some(site) = site else { continue };
            let _ = s.set_nodelay(true);
            if let Ok(c) = s.try_clone() {
                site.conns.lock().push(c);
            }
            std::thread::spawn(move || {
                let _ = serve(s, &site);
            });
        }
    });
    hub
});

struct Server {
    addr: Ipv4Addr,
    site: Arc<Site>,
}

const ERROR_PAGE: &str = "VH error page: this is not the content you are looking for";

impl Server {
    fn start(script: Script) -> Self {
        let n = HUB.next.fetch_add(1, SeqCst);
        let addr = Ipv4Addr::from(0x7F00_0000 | (n % 0x00FF_FF00 + 1));
        let site = Arc::new(Site {
            script,
            reqs: Mutex::default(),
            live: Mutex::default(),
            conns: Mutex::default(),
        });
        HUB.sites.lock().insert(IpAddr::V4(addr), site.clone());
        Self { addr, site }
    }
    fn shutdown(&self) {
        HUB.sites.lock().remove(&IpAddr::V4(self.addr));
        for c in self.site.conns.lock().drain(..) {
            let l = libc::linger { l_onoff: 1, l_linger: 0 };
            unsafe {
                libc::setsockopt(
                    c.as_raw_fd(),
                    libc::SOL_SOCKET,
                    libc::SO_LINGER,
                    std::ptr::from_ref(&l).cast(),
                    size_of::<libc::linger>() as u32,
                );
            }
            let _ = c.shutdown(Shutdown::Both);
        }
    }
}

fn serve(mut s: TcpStream, site: &Site) -> std::io::Result<()> {
    let (sc, reqs, live) = (&site.script, &site.reqs, &site.live);
    let mut buf: Vec<u8> = vec![];
    loop {
        // ---- one request
        let end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i;
            }
            let mut tmp = [0u8; 2048];
            let n = s.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        };
        tick();
        let head = String::from_utf8_lossy(&buf[..end]).to_string();
        buf.drain(..end + 4);
        let mut lines = head.lines();
        let path = lines.next().unwrap_or("").split(' ').nth(1).unwrap_or("").to_string();
        let headers: Vec<(String, String)> = lines
            .filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_lowercase(), b.trim().to_string())))
            .collect();
        let range = headers.iter().find(|h| h.0 == "range").map(|h| h.1.clone());
        let (idx, fault) = {
            let mut r = reqs.lock();
            let counted = r.iter().filter(|r| !r.path.starts_with("/redirect")).count();
            let is_redirect = path.starts_with("/redirect");
            let fault = if is_redirect { None } else { sc.faults.iter().find(|f| f.0 == counted).map(|f| f.1) };
            r.push(Req { path: path.clone(), range: range.clone(), headers, status: 0, fault, start: 0, sent: 0, wanted: 0 });
            (r.len() - 1, fault)
        };
        let counted = { reqs.lock().iter().take(idx).filter(|r| !r.path.starts_with("/redirect")).count() };
        let status = |st: u16| reqs.lock()[idx].status = st;
        if path.starts_with("/redirect") {
            status(302);
            s.write_all(b"HTTP/1.1 302 Found\r\nLocation: /content?x=1\r\nContent-Length: 0\r\n\r\n")?;
            continue;
        }
        let error = |s: &mut TcpStream, st: u16| {
            status(st);
            s.write_all(
                format!(
                    "HTTP/1.1 {st} Nope\r\nContent-Type: text/html\r\nContent-Length: {}\r\n\r\n{ERROR_PAGE}",
                    ERROR_PAGE.len()
                )
                .as_bytes(),
            )
        };
        match fault {
            Some(Fault::NoResponse) => {
                let _ = s.shutdown(Shutdown::Both);
                return Ok(());
            }
            Some(Fault::Status(st)) => {
                error(&mut s, st)?;
                continue;
            }
            _ => {}
        }
        if counted == 0 && sc.first_status != 200 {
            error(&mut s, sc.first_status)?;
            continue;
        }
        // ---- which part
        let parsed = range.as_deref().and_then(parse_range);
        let mode = if counted >= sc.ranges_from { sc.ranges } else { Ranges::Honor };
        let (mut from, mut to, mut st) = (0, sc.total, 200);
        if let Some((a, b)) = parsed {
            match mode {
                Ranges::Ignore => {}
                Ranges::Status(x) => {
                    error(&mut s, x)?;
                    continue;
                }
                _ if a >= sc.total => {
                    error(&mut s, 416)?;
                    continue;
                }
                _ => {
                    st = 206;
                    from = a;
                    to = b.map_or(sc.total, |b| (b + 1).min(sc.total));
                    if mode == Ranges::Shifted {
                        from = if from > 0 { from - 1 } else { (from + 1).min(to) };
                    }
                    if mode == Ranges::Partial {
                        to = from + ((to - from) / 2).max(1);
                    }
                }
            }
        } else if sc.live {
            from = *live.lock();
        }
        {
            let mut r = reqs.lock();
            r[idx].status = st;
            r[idx].start = from;
            r[idx].wanted = to - from;
        }
        let mut h = if st == 200 { "HTTP/1.1 200 OK\r\n".to_string() } else { "HTTP/1.1 206 Partial Content\r\n".to_string() };
        if let Some(a) = sc.accept_ranges {
            h += &format!("Accept-Ranges: {a}\r\n");
        }
        if let Some(t) = sc.content_type {
            h += &format!("Content-Type: {t}\r\n");
        }
        h += "X-Vh-Thing: some value\r\n";
        if st == 206 && mode != Ranges::NoContentRange {
            let t = if sc.known { sc.total.to_string() } else { "*".to_string() };
            h += &format!("Content-Range: bytes {from}-{}/{t}\r\n", to - 1);
        }
        let chunked = !sc.known;
        if chunked {
            h += "Transfer-Encoding: chunked\r\n";
        } else {
            h += &format!("Content-Length: {}\r\n", to - from);
        }
        h += "\r\n";
        s.write_all(h.as_bytes())?;
        // ---- body
        let mut p = from;
        let mut rng = Rng::new(sc.seed ^ idx as u64);
        let limit = match fault {
            Some(Fault::Cut(k) | Fault::Stall(k)) => (from + k).min(to),
            _ => to,
        };
        while p < limit {
            let n = (rng.range(1, sc.frag as u64)).min(limit - p) as usize;
            let data = fill(sc.seed, p, n);
            if chunked {
                s.write_all(format!("{n:x}\r\n").as_bytes())?;
                s.write_all(&data)?;
                s.write_all(b"\r\n")?;
            } else {
                s.write_all(&data)?;
            }
            p += n as u64;
            reqs.lock()[idx].sent = p - from;
            if sc.live {
                *live.lock() = p;
            }
            tick();
            if sc.pause_us > 0 && rng.chance(1, 4) {
                std::thread::sleep(Duration::from_micros(sc.pause_us));
            }
        }
        match fault {
            // nothing is missing, the connection can be used again
            _ if limit == to => {}
            Some(Fault::Cut(_)) => {
                let _ = s.shutdown(Shutdown::Both);
                return Ok(());
            }
            Some(Fault::Stall(_)) => {
                // until the client gives up
                let mut tmp = [0u8; 64];
                loop {
                    if s.read(&mut tmp)? == 0 {
                        return Ok(());
                    }
                }
            }
            _ => {}
        }
        if chunked {
            s.write_all(b"0\r\n\r\n")?;
        }
    }
}

fn parse_range(r: &str) -> Option<(u64, Option<u64>)> {
    let r = r.strip_prefix("bytes=")?;
    let (a, b) = r.split_once('-')?;
    let b = if b.is_empty() { None } else { Some(b.parse().ok()?) };
    Some((a.parse().ok()?, b))
}

/// Marks every request that goes through it.
struct Mark;

#[async_trait::async_trait]
impl reqwest_middleware::Middleware for Mark {
    async fn handle(
        &self,
        mut req: reqwest::Request,
        ext: &mut http_ext::Extensions,
        next: reqwest_middleware::Next<'_>,
    ) -> reqwest_middleware::Result<reqwest::Response> {
        req.headers_mut().insert("x-vh-middleware", HeaderValue::from_static("1"));
        next.run(req, ext).await
    }
}

mod http_ext {
    pub use http::Extensions;
}

static RT: LazyLock<tokio::runtime::Runtime> = LazyLock::new(|| {
    stream_download::Settings::<HttpStream<reqwest_middleware::ClientWithMiddleware>>::add_default_middleware(Mark);
    tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().expect("runtime")
});
static CUSTOM: LazyLock<reqwest::Client> = LazyLock::new(|| {
    let mut h = HeaderMap::new();
    h.insert("x-vh-custom", HeaderValue::from_static("yes"));
    reqwest::Client::builder().default_headers(h).user_agent("vh/1").build().expect("client")
});

#[derive(Clone, Copy, Debug, PartialEq)]
enum Via {
    NewHttp,
    NewMiddleware,
    Custom,
    CustomMiddleware,
}

struct Made {
    sd: Result<StreamDownload<DynProvider>, String>,
    decoded: String,
    content_type: Option<Option<(String, String)>>,
    header: Option<Option<String>>,
}

async fn from_stream<C: Client>(client: C, url: C::Url, p: DynProvider, s: Settings<HttpStream<C>>) -> Made {
    match HttpStream::new(client, url).await {
        Ok(st) => {
            let ct = st.content_type().clone().map(|c| (c.r#type, c.subtype));
            let header = st.header("x-vh-thing").map(ToString::to_string);
            let sd = StreamDownload::from_stream(st, p, s).await;
            match sd {
                Ok(sd) => Made { sd: Ok(sd), decoded: String::new(), content_type: Some(ct), header: Some(header) },
                Err(e) => Made { sd: Err(e.to_string()), decoded: String::new(), content_type: None, header: None },
            }
        }
        Err(e) => Made { sd: Err(e.to_string()), decoded: e.decode_error().await, content_type: None, header: None },
    }
}

async fn created<S: SourceStream>(r: Result<StreamDownload<DynProvider>, StreamInitializationError<S>>) -> Made {
    match r {
        Ok(sd) => Made { sd: Ok(sd), decoded: String::new(), content_type: None, header: None },
        Err(e) => {
            let m = e.to_string();
            Made { sd: Err(m), decoded: e.decode_error().await, content_type: None, header: None }
        }
    }
}

/// Several streams from one server by way of the clients the library shares between them. Some
/// responses stop in the middle, some readers never read; the others have to get everything.
pub fn crowd(seed: u64) -> Res {
    LazyLock::force(&RT);
    let mut res = Res::default();
    let mut rng = Rng::new(seed ^ 0xC20);
    let rng = &mut rng;
    trace::configure(seed, rng.below(3));
    let total = *rng.pick(&[0, 1, 700, 9_000, 70_000, 300_000]) + rng.below(200);
    let n = rng.range(2, 14) as usize;
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Part {
        Reads,
        Stalled,
        Idle,
        Leaves,
    }
    let parts: Vec<Part> = (0..n)
        .map(|i| if i == 0 { Part::Reads } else { *rng.pick(&[Part::Reads, Part::Reads, Part::Stalled, Part::Stalled, Part::Idle, Part::Leaves]) })
        .collect();
    let sc = Script {
        seed: seed ^ 0x4444,
        total,
        known: rng.chance(3, 4),
        accept_ranges: Some("bytes"),
        ranges: Ranges::Honor,
        ranges_from: 0,
        faults: parts
            .iter()
            .enumerate()
            .filter(|p| *p.1 == Part::Stalled)
            .map(|p| (p.0, Fault::Stall(rng.below(total + 1))))
            .collect(),
        content_type: Some("audio/mpeg"),
        redirect: false,
        first_status: 200,
        frag: *rng.pick(&[200, 1_500, 9_000, 70_000]),
        pause_us: if rng.chance(1, 3) { rng.range(50, 900) } else { 0 },
        live: false,
    };
    let middleware = rng.chance(1, 2);
    let bounded = rng.chance(1, 2);
    let server = Server::start(sc.clone());
    res.sample = format!("seed={seed} crowd of {parts:?} total={total} bounded={bounded} middleware={middleware} {sc:?}");
    let url: reqwest::Url = format!("http://{}:{}/content", server.addr, HUB.port).parse().expect("url");
    let outer = StoreCtl::new(StoreCfg::default());
    let mut crew = vec![];
    for part in &parts {
        let cap = rng.range(64, total.max(65)) as usize;
        let store = if bounded || *part == Part::Idle { Store::BMem(cap) } else { Store::Mem };
        let prov = provider(store, &outer, &outer, &outer, &std::path::PathBuf::new());
        let set = rng.chance(1, 3);
        macro_rules! settings {
            () => {
                Settings::default()
                    .prefetch_bytes(if set { (cap / 2) as u64 } else { 0 })
                    .retry_timeout(FOREVER)
            };
        }
        // one after the other, so that the requests arrive in this order
        let made = RT.block_on(async {
            if middleware {
                created(StreamDownload::new_http_with_middleware(url.clone(), prov, settings!()).await).await
            } else {
                created(StreamDownload::new_http(url.clone(), prov, settings!()).await).await
            }
        });
        match made.sd {
            Err(e) => {
                res.viol("creation", &["C20", "C22"], format!("creating a stream failed: {e}"));
                server.shutdown();
                return res;
            }
            Ok(sd) => {
                let token = sd.cancellation_token();
                let k = rng.range(1, 9_000).min(cap as u64) as usize;
                match part {
                    Part::Idle => crew.push((token, None, Some(sd))),
                    Part::Leaves => drop(sd),
                    _ => {
                        let mut ops = vec![];
                        for _ in 0..rng.below(3) {
                            ops.push(if rng.chance(1, 4) { Op::Nap(rng.range(10, 2_000)) } else { Op::Read(k) });
                        }
                        ops.push(Op::ToEnd(k));
                        let d = drive::start(sd, Content { seed: sc.seed, total }, ops, || ());
                        crew.push((token, Some((*part, d)), None));
                    }
                }
            }
        }
    }
    let mut fp = Fnv::default();
    for (i, (_, d, _)) in crew.iter_mut().enumerate() {
        let Some((Part::Reads, d)) = d else { continue };
        match d.wait(Duration::from_secs(25)) {
            Wait::Done => {}
            Wait::Timeout => {
                res.inconclusive = true;
                res.poisoned = true;
                break;
            }
            w => {
                res.viol("hang", &["C20", "C04"], format!("stream {i} never gets its content ({w:?}) although it is not among those that stopped"));
                res.poisoned = true;
                break;
            }
        }
        for r in d.results() {
            fp.bytes(format!("{:?}", r.ret).as_bytes());
            if let Some(b) = r.bad {
                res.viol("wrong_bytes", &["C20", "C01"], format!("stream {i}: wrong byte at {b}"));
            }
            match r.ret {
                Ret::All(_) if r.after != total => res.viol("premature_end", &["C20", "C02"], format!("stream {i}: end of stream at {} of {total}", r.after)),
                Ret::Err(k, m) | Ret::AllErr(_, k, m) => res.viol("unexpected_error", &["C20"], format!("stream {i}: {k:?} {m}")),
                Ret::Panic => res.viol("panic", &["C20", "C21"], format!("stream {i} panicked")),
                _ => {}
            }
        }
        res.add("http_crowd_completed", 1);
    }
    for (t, _, _) in &crew {
        t.cancel();
    }
    if !res.poisoned {
        for (_, d, _) in &mut crew {
            if let Some((Part::Stalled, d)) = d
                && d.wait(Duration::from_secs(25)) == Wait::Quiescent
            {
                res.viol("hang", &["C20", "C06"], "a stream that was cancelled keeps its reader waiting");
                res.poisoned = true;
                break;
            }
        }
    }
    server.shutdown();
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &["C20", "C21"], p);
        }
    }
    res.add("http_crowd_streams", n as u64);
    res.add("http_crowd_stalled", sc.faults.len() as u64);
    res.fingerprint = fp.0 ^ total ^ ((n as u64) << 40);
    res.nontrivial = true;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = format!("{}\n{:?}", res.sample, server.site.reqs.lock());
    }
    res
}

#[allow(clippy::too_many_lines)]
pub fn scenario(_prop: &str, seed: u64, dir: &Path) -> Res {
    LazyLock::force(&RT);
    crate::panics::take();
    let mut rng = Rng::new(seed ^ 0x477);
    let rng = &mut rng;
    if rng.chance(1, 3) {
        return direct(seed, rng);
    }
    let mut res = Res::default();
    let total = match rng.below(8) {
        0 => rng.below(4),
        1..=3 => rng.range(1, 3_000),
        4..=6 => rng.range(2_000, 60_000),
        _ => rng.range(60_000, 400_000),
    };
    let types: &[(Option<&'static str>, Option<(&str, &str)>)] = &[
        (None, None),
        (Some("audio/mpeg"), Some(("audio", "mpeg"))),
        (Some("application/ogg; charset=utf-8"), Some(("application", "ogg"))),
        (Some("video/x-matroska"), Some(("video", "x-matroska"))),
        (Some("nonsense"), None),
    ];
    let (ctype, want_type) = *rng.pick(types);
    let nasty = rng.chance(1, 2);
    let known = !rng.chance(1, 4);
    let mut sc = Script {
        seed: seed ^ 0x4444,
        total,
        known,
        accept_ranges: *rng.pick(&[Some("bytes"), Some("bytes"), Some("bytes"), None, Some("none")]),
        ranges: Ranges::Honor,
        ranges_from: 0,
        faults: vec![],
        content_type: ctype,
        redirect: rng.chance(1, 8),
        first_status: 200,
        frag: *rng.pick(&[200, 1_500, 9_000, 70_000]),
        pause_us: if rng.chance(1, 3) { rng.range(50, 900) } else { 0 },
        live: false,
    };
    let mut stalls = false;
    match if nasty { rng.below(8) } else { 8 } {
        0 => {
            sc.ranges = *rng.pick(&[
                Ranges::Ignore,
                Ranges::Shifted,
                Ranges::Status(416),
                Ranges::Status(500),
                Ranges::Status(404),
                Ranges::Partial,
                Ranges::NoContentRange,
            ]);
            sc.ranges_from = if rng.chance(1, 3) { rng.range(1, 4) as usize } else { 0 };
            if rng.chance(1, 2) {
                sc.faults.push((0, Fault::Cut(rng.below(total + 1))));
            }
        }
        1 | 2 => {
            for i in 0..rng.range(1, 3) {
                if rng.chance(2, 3) {
                    sc.faults.push((i as usize, Fault::Cut(rng.below(total + 1))));
                }
            }
        }
        3 | 4 => {
            stalls = true;
            for i in 0..rng.range(1, 3) {
                if i == 0 || rng.chance(1, 2) {
                    sc.faults.push((i as usize, Fault::Stall(rng.below(total + 1))));
                }
            }
            if rng.chance(1, 2) {
                // the way back is rocky
                let i = sc.faults.len();
                sc.faults.push((i, *rng.pick(&[Fault::Status(503), Fault::Status(404), Fault::NoResponse])));
            }
            if !known && sc.accept_ranges != Some("bytes") {
                sc.live = true;
                if rng.chance(1, 2) {
                    // a station that does not know ranges at all
                    sc.ranges = Ranges::Status(*rng.pick(&[416, 400, 501]));
                }
            }
        }
        5 => sc.first_status = *rng.pick(&[400, 401, 403, 404, 410, 500, 503]),
        6 => {
            let i = rng.range(1, 3) as usize;
            sc.faults.push((i, *rng.pick(&[Fault::Status(500), Fault::Status(403), Fault::NoResponse])));
        }
        _ => {
            sc.ranges = *rng.pick(&[Ranges::Partial, Ranges::NoContentRange, Ranges::Honor]);
        }
    }
    let via = *rng.pick(&[Via::NewHttp, Via::NewMiddleware, Via::Custom, Via::CustomMiddleware]);
    let store = match rng.below(6) {
        0 => Store::Temp,
        1 => Store::BMem(rng.range(64, total.max(65)) as usize),
        2 => Store::AMem(rng.range(64, total.max(65)) as usize),
        _ => Store::Mem,
    };
    let cap = store.capacity(known.then_some(total));
    // ---- program
    let mut ops = vec![];
    let seeks = cap.is_none() && !sc.live && rng.chance(2, 3);
    for _ in 0..rng.below(7) {
        if seeks && rng.chance(1, 2) && total > 0 {
            ops.push(Op::Seek(match rng.below(4) {
                0 if known => SeekFrom::End(-(rng.below(total + 1) as i64)),
                1 => SeekFrom::Start(rng.below(total)),
                2 if known => SeekFrom::Start(rng.range(0, total)),
                _ => SeekFrom::Start(rng.below(total)),
            }));
        } else {
            let n = rng.range(1, total / 3 + 2) as usize;
            ops.push(Op::Read(cap.map_or(n, |c| n.min(c))));
        }
        if rng.chance(1, 6) {
            ops.push(Op::Nap(rng.range(10, 4_000)));
        }
    }
    let n = rng.range(1, 20_000) as usize;
    let n = cap.map_or(n, |c| n.min(c));
    ops.push(Op::ToEnd(n));
    if cap.is_none() {
        ops.push(Op::Seek(SeekFrom::Start(0)));
        ops.push(Op::ToEnd(n));
    }
    let retry = if stalls { Duration::from_millis(rng.range(30, 120)) } else { FOREVER };
    trace::configure(seed, rng.below(3));
    let outer = StoreCtl::new(StoreCfg { seed: sc.seed, check_content: true, ..StoreCfg::default() });
    let inner = StoreCtl::new(StoreCfg::default());
    let prov = provider(store, &outer, &inner, &inner, &dir.to_path_buf());
    let prefetch = *rng.pick(&[0, 0, 1, 500, 10_000]);
    let prefetch = cap.map_or(prefetch, |c| prefetch.min(c as u64 / 2));
    let batch = *rng.pick(&[1usize << 16, 4096, 100]);
    macro_rules! settings {
        () => {
            Settings::default()
                .prefetch_bytes(prefetch)
                .batch_write_size(NonZeroUsize::new(batch).expect("nonzero"))
                .retry_timeout(retry)
        };
    }
    let server = Server::start(sc.clone());
    let url: reqwest::Url = format!(
        "http://{}:{}{}",
        server.addr,
        HUB.port,
        if sc.redirect { "/redirect" } else { "/content?x=1" }
    )
    .parse()
    .expect("url");
    let describe = format!(
        "seed={seed} {via:?} {} prefetch={prefetch} batch={batch} {sc:?} ops={ops:?}",
        store.name()
    );
    let made = RT.block_on(async {
        match via {
            Via::NewHttp => created(StreamDownload::new_http(url, prov, settings!()).await).await,
            Via::NewMiddleware => created(StreamDownload::new_http_with_middleware(url, prov, settings!()).await).await,
            Via::Custom => from_stream(CUSTOM.clone(), url, prov, settings!()).await,
            Via::CustomMiddleware => {
                let c = reqwest_middleware::ClientBuilder::new(CUSTOM.clone()).with(Mark).build();
                from_stream(c, url, prov, settings!()).await
            }
        }
    });
    let first_fails = sc.first_status >= 400 || sc.faults.iter().any(|f| f.0 == 0 && matches!(f.1, Fault::Status(_) | Fault::NoResponse));
    let mut log = vec![];
    let mut results = vec![];
    match made.sd {
        Err(e) => {
            if !first_fails {
                res.viol("creation", &["C12", "C22"], format!("creating the stream failed: {e}"));
            } else if sc.first_status >= 400 {
                let code = sc.first_status.to_string();
                if !made.decoded.contains(ERROR_PAGE) || !made.decoded.contains(&code) {
                    res.viol("creation_error", &["C12", "C22"], format!("status {code} was reported as {:?}", made.decoded));
                }
                res.add("http_creation_errors", 1);
            }
        }
        Ok(sd) => {
            if first_fails {
                res.viol("creation", &["C12", "C22"], format!("status {} was accepted as a stream", sc.first_status));
            }
            if sd.content_length() != known.then_some(total) {
                res.viol("content_length", &["C12", "C22"], format!("content length {:?}, server said {:?}", sd.content_length(), known.then_some(total)));
            }
            if let Some(ct) = made.content_type {
                let got = ct.as_ref().map(|(a, b)| (a.as_str(), b.as_str()));
                if got != want_type {
                    res.viol("content_type", &["C12"], format!("content type {ct:?}, server sent {ctype:?}"));
                }
                if made.header.flatten().as_deref() != Some("some value") {
                    res.viol("header", &["C12"], "a response header is not exposed");
                }
            }
            let mut d = drive::start(sd, Content { seed: sc.seed, total }, ops.clone(), || ());
            let w = d.wait(Duration::from_secs(25));
            results = d.results();
            match w {
                Wait::Done => {}
                Wait::Timeout => res.inconclusive = true,
                Wait::Quiescent | Wait::Busy => {
                    res.viol("hang", &["C12", "C04"], format!("operation {} never returns ({w:?})", results.len()));
                    res.poisoned = true;
                }
            }
        }
    }
    server.shutdown();
    let reqs = server.site.reqs.lock().clone();
    for r in &reqs {
        log.push(format!("request {r:?}"));
    }
    for d in &results {
        log.push(format!("{:?} at {} -> {:?}", d.op, d.pos, d.ret));
    }
    judge(&sc, via, stalls, cap.is_some(), &results, &reqs, &mut res);
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &["C12", "C21"], p);
        }
    }
    let vague = !sc.known && (sc.ranges == Ranges::Ignore || stalls && !sc.live && sc.accept_ranges != Some("bytes"));
    for p in outer.st.lock().problems.iter().take(if vague { 0 } else { 2 }) {
        res.viol("stored_wrong", &["C12", "C01"], p.clone());
    }
    let mut fp = Fnv::default();
    for r in &reqs {
        fp.put(u64::from(r.status));
        fp.put(r.start);
        fp.put(r.sent);
    }
    for d in &results {
        fp.bytes(format!("{:?}", d.ret).as_bytes());
    }
    res.fingerprint = fp.0;
    res.nontrivial = !reqs.is_empty();
    res.add("http_requests", reqs.len() as u64);
    res.add("http_range_requests", reqs.iter().filter(|r| r.range.is_some()).count() as u64);
    res.add("http_stalls", reqs.iter().filter(|r| matches!(r.fault, Some(Fault::Stall(_)))).count() as u64);
    res.add("http_cuts", reqs.iter().filter(|r| matches!(r.fault, Some(Fault::Cut(_)))).count() as u64);
    res.add("http_error_responses", reqs.iter().filter(|r| r.status >= 400).count() as u64);
    res.add("http_dishonoured_ranges", reqs.iter().filter(|r| r.range.is_some() && r.status == 200).count() as u64);
    res.add("reader_operations", results.len() as u64);
    res.sample = describe;
    if !res.viols.is_empty() || res.inconclusive {
        res.log = format!("{}\n{}", res.sample, log.join("\n"));
    }
    res
}

#[derive(Clone, Copy, Debug)]
enum Step {
    Take(u64),
    Seek(u64, Option<u64>),
    Reconnect(u64),
}

/// What the stream of chunks has to be like at the moment.
#[derive(Clone, Copy, Debug)]
struct Expect {
    at: u64,
    /// at least up to here
    end: u64,
    /// at most up to here
    max: u64,
}

#[derive(Default)]
struct Direct {
    viols: Vec<(&'static str, String)>,
    log: Vec<String>,
    chunks: u64,
    bytes: u64,
    refused: u64,
    timeout: bool,
    steps: u64,
}

const STEP_LIMIT: Duration = Duration::from_secs(20);

/// Uses the source directly, as the download would.
async fn direct_steps<C: Client>(mut st: HttpStream<C>, sc: &Script, server: &Server, steps: &[Step]) -> Direct {
    use futures_util::StreamExt;
    let mut d = Direct::default();
    let total = sc.total;
    if st.content_length() != sc.known.then_some(total) {
        d.viols.push(("content_length", format!("content length {:?}, server said {:?}", st.content_length(), sc.known.then_some(total))));
    }
    if !st.supports_seek() {
        d.viols.push(("supports_seek", "the stream claims not to support seeking".into()));
    }
    let advertised = sc.accept_ranges == Some("bytes");
    let mut want = Some(Expect { at: 0, end: total, max: total });
    for (i, step) in steps.iter().enumerate() {
        d.steps += 1;
        let before = server.site.reqs.lock().len();
        let fault = {
            let r = server.site.reqs.lock();
            let n = r.iter().filter(|r| !r.path.starts_with("/redirect")).count();
            sc.faults.iter().find(|f| f.0 == n).map(|f| f.1)
        };
        let refuses = matches!(fault, Some(Fault::Status(_) | Fault::NoResponse));
        let ranges = {
            let r = server.site.reqs.lock();
            let n = r.iter().filter(|r| !r.path.starts_with("/redirect")).count();
            if n >= sc.ranges_from { sc.ranges } else { Ranges::Honor }
        };
        // what a request for a part leads to: must it work, may it work
        let part = |a: u64, b: Option<u64>| -> (bool, bool) {
            let ok = match ranges {
                Ranges::Honor => a < total,
                Ranges::Partial => a < total,
                Ranges::NoContentRange => a < total,
                Ranges::Ignore => a == 0,
                Ranges::Shifted | Ranges::Status(_) => false,
            };
            // an answer that does not say what it contains
            let vague = !sc.known && ranges == Ranges::Ignore;
            let _ = b;
            (ok && !refuses, (ok || vague) && !refuses)
        };
        match *step {
            Step::Take(n) => {
                let mut got = 0;
                while got < n {
                    let next = tokio::time::timeout(STEP_LIMIT, st.next()).await;
                    let Ok(next) = next else {
                        // legitimate if the server does not send anything
                        let stalled = server.site.reqs.lock().last().is_some_and(|r| matches!(r.fault, Some(Fault::Stall(_))));
                        if !stalled {
                            d.timeout = true;
                        }
                        return d;
                    };
                    match next {
                        Some(Ok(c)) => {
                            d.chunks += 1;
                            d.bytes += c.len() as u64;
                            got += c.len() as u64;
                            let Some(w) = want.as_mut() else { continue };
                            if w.at + c.len() as u64 > w.max {
                                d.viols.push(("too_much", format!("step {i} {step:?}: {} bytes at {}, only up to {} was asked for", c.len(), w.at, w.max)));
                                return d;
                            }
                            if c[..] != fill(sc.seed, w.at, c.len())[..] {
                                d.viols.push(("wrong_chunk", format!("step {i} {step:?}: the bytes at {} are not those of the content", w.at)));
                                return d;
                            }
                            w.at += c.len() as u64;
                        }
                        Some(Err(e)) => {
                            d.log.push(format!("{step:?}: {e}"));
                            let cut = server.site.reqs.lock().iter().any(|r| matches!(r.fault, Some(Fault::Cut(_))));
                            if !cut {
                                d.viols.push(("chunk_error", format!("step {i} {step:?}: {e}")));
                            }
                            want = None;
                            break;
                        }
                        None => {
                            if let Some(w) = want
                                && w.at < w.end
                            {
                                d.viols.push(("chunks_end", format!("step {i} {step:?}: the stream ends at {}, expected {}", w.at, w.end)));
                            }
                            break;
                        }
                    }
                }
            }
            Step::Seek(a, b) => {
                let r = tokio::time::timeout(STEP_LIMIT, st.seek_range(a, b)).await;
                let Ok(r) = r else {
                    d.timeout = true;
                    return d;
                };
                d.log.push(format!("{step:?}: {r:?}"));
                let reqs = server.site.reqs.lock()[before..].to_vec();
                if sc.known && a == total {
                    if r.is_err() || !reqs.is_empty() {
                        d.viols.push(("end_request", format!("step {i} {step:?} at the end of the content: {r:?}, requests {reqs:?}")));
                    }
                    want = Some(Expect { at: a, end: a, max: a });
                    continue;
                }
                let header = format!("bytes={a}-{}", b.map_or(String::new(), |b| (b - 1).to_string()));
                if reqs.is_empty() || reqs.iter().any(|q| q.range.as_deref() != Some(&header)) {
                    d.viols.push(("range_header", format!("step {i} {step:?}: requests {reqs:?}")));
                }
                let (must, may) = part(a, b);
                if must && r.is_err() {
                    d.viols.push(("seek_refused", format!("step {i} {step:?}: {r:?}")));
                }
                if !may && r.is_ok() {
                    d.viols.push(("wrong_answer_accepted", format!("step {i} {step:?}: the server answered {:?}", reqs.last().map(|r| (r.status, r.start)))));
                }
                d.refused += u64::from(r.is_err());
                let stop = b.unwrap_or(total).min(total);
                want = (r.is_ok() && must).then(|| Expect {
                    at: a,
                    end: if ranges == Ranges::Partial { a } else { stop },
                    // a server that ignores ranges sends the rest as well
                    max: if ranges == Ranges::Ignore { total } else { stop },
                });
            }
            Step::Reconnect(p) => {
                let r = tokio::time::timeout(STEP_LIMIT, st.reconnect(p)).await;
                let Ok(r) = r else {
                    d.timeout = true;
                    return d;
                };
                d.log.push(format!("{step:?}: {r:?}"));
                d.refused += u64::from(r.is_err());
                let reqs = server.site.reqs.lock()[before..].to_vec();
                if sc.known && p == total {
                    want = r.is_ok().then_some(Expect { at: p, end: p, max: p });
                    continue;
                }
                if sc.known || advertised {
                    // the rest of the content
                    let (must, may) = part(p, None);
                    if must && r.is_err() {
                        d.viols.push(("reconnect_refused", format!("step {i} {step:?}: {r:?}")));
                    }
                    if !may && p > 0 && r.is_ok() {
                        d.viols.push(("wrong_answer_accepted", format!("step {i} {step:?}: the server answered {:?}", reqs.last().map(|r| (r.status, r.start)))));
                    }
                    want = (r.is_ok() && (must || p == 0 && ranges == Ranges::Ignore)).then_some(Expect {
                        at: p,
                        end: if ranges == Ranges::Partial { p } else { total },
                        max: total,
                    });
                } else {
                    // a live stream, which starts with whatever there is now
                    if !refuses && r.is_err() {
                        d.viols.push(("reconnect_refused", format!("step {i} {step:?}: {r:?}")));
                    }
                    let from = reqs.last().map_or(0, |r| r.start);
                    want = r.is_ok().then_some(Expect { at: from, end: total, max: total });
                }
            }
        }
        // a body that is cut or stalls need not be complete
        if let Some(w) = want.as_mut()
            && let Some(Fault::Cut(_) | Fault::Stall(_)) = server.site.reqs.lock().last().and_then(|r| r.fault)
        {
            w.end = w.at;
        }
        if !d.viols.is_empty() {
            return d;
        }
    }
    d
}

#[allow(clippy::too_many_lines)]
fn direct(seed: u64, rng: &mut Rng) -> Res {
    let mut res = Res::default();
    let total = if rng.chance(1, 6) { rng.range(1, 4) } else { rng.range(1, 40_000) };
    let known = rng.chance(2, 3);
    let mut sc = Script {
        seed: seed ^ 0x4444,
        total,
        known,
        accept_ranges: *rng.pick(&[Some("bytes"), Some("bytes"), None, Some("none")]),
        ranges: *rng.pick(&[
            Ranges::Honor,
            Ranges::Honor,
            Ranges::Honor,
            Ranges::Ignore,
            Ranges::Shifted,
            Ranges::Partial,
            Ranges::NoContentRange,
            Ranges::Status(416),
            Ranges::Status(500),
        ]),
        ranges_from: 0,
        faults: vec![],
        content_type: None,
        redirect: rng.chance(1, 6),
        first_status: 200,
        frag: *rng.pick(&[200, 1_500, 9_000]),
        pause_us: 0,
        live: false,
    };
    sc.live = !known && sc.accept_ranges != Some("bytes") && rng.chance(1, 2);
    if rng.chance(1, 3) {
        for i in 0..rng.range(1, 4) {
            if rng.chance(1, 2) {
                let f = match rng.below(3) {
                    0 => Fault::Cut(rng.below(total + 1)),
                    1 if i > 0 => Fault::Status(*rng.pick(&[500, 404])),
                    _ => Fault::Cut(rng.below(total / 2 + 1)),
                };
                sc.faults.push((i as usize, f));
            }
        }
    }
    let mut steps = vec![];
    for _ in 0..rng.range(2, 9) {
        steps.push(match rng.below(4) {
            0 | 1 => Step::Take(rng.range(1, total * 2)),
            2 => {
                let a = if known && rng.chance(1, 6) { total } else { rng.edgy(0, total - 1) };
                let b = (a < total && rng.chance(1, 2)).then(|| rng.edgy(a + 1, total));
                Step::Seek(a, b)
            }
            _ => Step::Reconnect(if known { rng.edgy(0, total) } else { rng.edgy(0, total - 1) }),
        });
    }
    steps.push(Step::Take(u64::MAX));
    let via = *rng.pick(&[Via::NewHttp, Via::NewMiddleware, Via::Custom, Via::CustomMiddleware]);
    let server = Server::start(sc.clone());
    let url: reqwest::Url = format!(
        "http://{}:{}{}",
        server.addr,
        HUB.port,
        if sc.redirect { "/redirect" } else { "/content?x=1" }
    )
    .parse()
    .expect("url");
    macro_rules! go {
        ($st:expr) => {
            match $st {
                Ok(st) => direct_steps(st, &sc, &server, &steps).await,
                Err(e) => {
                    let mut d = Direct::default();
                    d.viols.push(("creation", format!("creating the stream failed: {e}")));
                    d
                }
            }
        };
    }
    let d = RT.block_on(async {
        match via {
            Via::NewHttp => go!(HttpStream::<reqwest::Client>::create(url).await),
            Via::NewMiddleware => go!(HttpStream::<reqwest_middleware::ClientWithMiddleware>::create(url).await),
            Via::Custom => go!(HttpStream::new(CUSTOM.clone(), url).await),
            Via::CustomMiddleware => {
                let c = reqwest_middleware::ClientBuilder::new(CUSTOM.clone()).with(Mark).build();
                go!(HttpStream::new(c, url).await)
            }
        }
    });
    server.shutdown();
    let reqs = server.site.reqs.lock().clone();
    judge_headers(via, &reqs, &mut res);
    for (c, m) in d.viols {
        res.viol(c, &["C12"], m);
    }
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &["C12", "C21"], p);
        }
    }
    res.inconclusive |= d.timeout;
    let mut fp = Fnv::default();
    for r in &reqs {
        fp.put(u64::from(r.status));
        fp.put(r.start);
        fp.put(r.sent);
    }
    fp.put(d.bytes);
    res.fingerprint = fp.0;
    res.nontrivial = d.chunks > 0;
    res.add("http_direct_steps", d.steps);
    res.add("http_direct_refused", d.refused);
    res.add("http_chunks_checked", d.chunks);
    res.add("http_requests", reqs.len() as u64);
    res.add("http_range_requests", reqs.iter().filter(|r| r.range.is_some()).count() as u64);
    res.add("http_error_responses", reqs.iter().filter(|r| r.status >= 400).count() as u64);
    res.sample = format!("seed={seed} direct {via:?} {sc:?} steps={steps:?}");
    if !res.viols.is_empty() || res.inconclusive {
        res.log = format!("{}\n{}\n{reqs:#?}", res.sample, d.log.join("\n"));
    }
    res
}

fn judge_headers(via: Via, reqs: &[Req], res: &mut Res) {
    for (i, r) in reqs.iter().enumerate() {
        let has = |k: &str| r.headers.iter().any(|h| h.0 == k);
        if matches!(via, Via::Custom | Via::CustomMiddleware) && !(has("x-vh-custom") && r.headers.iter().any(|h| h.0 == "user-agent" && h.1 == "vh/1")) {
            res.viol("request_headers", &["C12"], format!("request {i} lacks the client's headers"));
        }
        if matches!(via, Via::NewMiddleware | Via::CustomMiddleware) && !has("x-vh-middleware") {
            res.viol("middleware", &["C12"], format!("request {i} did not go through the middleware"));
        }
    }
}

#[allow(clippy::too_many_lines)]
fn judge(sc: &Script, via: Via, stalls: bool, bounded: bool, results: &[drive::Done], reqs: &[Req], res: &mut Res) {
    let total = sc.total;
    // ---- requests
    let mut starts = vec![0u64];
    judge_headers(via, reqs, res);
    for (i, r) in reqs.iter().enumerate() {
        if i == 0 && r.range.is_some() {
            res.viol("first_range", &["C12"], format!("the first request asks for {:?}", r.range));
        }
        if r.path.starts_with("/redirect") {
            continue;
        }
        let Some(range) = &r.range else { continue };
        let Some((a, b)) = parse_range(range) else {
            res.viol("range_format", &["C12"], format!("malformed range {range}"));
            continue;
        };
        if sc.known && (a >= total || b.is_some_and(|b| b >= total || b < a)) {
            res.viol("range_bounds", &["C12", "C10"], format!("range {range} requested, the length is {total}"));
        }
        if let Some(b) = b
            && b + 1 != total
            && !starts.contains(&(b + 1))
        {
            res.viol("range_end", &["C12", "C10"], format!("range {range} requested, but nothing starts or ends at {}", b + 1));
        }
        starts.push(a);
    }
    // ---- what has to work
    let lossless = sc.faults.iter().all(|(_, f)| match f {
        Fault::Cut(k) => *k > 0 && sc.known,
        Fault::Stall(_) => true,
        // only harmless on the way back from a stall
        Fault::Status(_) | Fault::NoResponse => stalls && !results.iter().rev().skip(2).any(|d| matches!(d.op, Op::Seek(_))),
    });
    let ranges_ok = match sc.ranges {
        Ranges::Honor => true,
        // can't be told from a wrong answer if the length is unknown, and reconnecting asks for the rest
        Ranges::NoContentRange => sc.known,
        Ranges::Partial => sc.known,
        Ranges::Status(_) => sc.live,
        _ => false,
    };
    // starting over does not lead back to where we were
    let can_resume = !stalls || sc.live || sc.known || sc.accept_ranges == Some("bytes");
    let sound = lossless && ranges_ok && can_resume && sc.first_status == 200;
    // the end of what arrives is all there is to know
    // (without a length nor a Content-Range header an answer does not tell what it contains)
    let end_unknown = !sc.known && matches!(sc.ranges, Ranges::Partial | Ranges::Ignore);
    let live_restart = end_unknown || stalls && !sc.live && !sc.known && sc.accept_ranges != Some("bytes");
    let mut failed = false;
    for (i, d) in results.iter().enumerate() {
        if let Some(b) = d.bad
            && !live_restart
        {
            res.viol("wrong_bytes", &["C12", "C01"], format!("operation {i} {:?} at {}: wrong byte at {b}", d.op, d.pos));
        }
        match &d.ret {
            Ret::Panic => res.viol("panic", &["C12", "C21"], format!("operation {i} {:?} panicked", d.op)),
            Ret::Err(k, m) | Ret::AllErr(_, k, m) => {
                if sound {
                    res.viol("unexpected_error", &["C12"], format!("operation {i} {:?} at {}: {k:?} {m}", d.op, d.pos));
                }
                failed = true;
            }
            Ret::All(_) => {
                if d.after < total && !live_restart {
                    res.viol("premature_end", &["C12", "C02", "C05"], format!("operation {i}: end of stream at {} of {total}", d.after));
                }
                res.add("http_complete", 1);
            }
            Ret::Read(k) => {
                let Op::Read(n) = d.op else { continue };
                let want = (n as u64).min(total.saturating_sub(d.pos));
                if (*k as u64) < want && !live_restart {
                    res.viol("short_read", &["C12", "C02"], format!("operation {i}: read of {n} at {} returned {k} of {want}", d.pos));
                }
            }
            Ret::Pos(p) => {
                let Op::Seek(s) = d.op else { continue };
                let want = match s {
                    SeekFrom::Start(x) => x,
                    SeekFrom::End(x) => total.saturating_add_signed(x),
                    SeekFrom::Current(x) => d.pos.saturating_add_signed(x),
                };
                if *p != want {
                    res.viol("seek", &["C12", "C03"], format!("operation {i}: seek to {want} returned {p}"));
                }
            }
            Ret::Unit | Ret::Fill(..) => {}
        }
    }
    let _ = bounded;
    res.add("http_sound_cases", u64::from(sound));
    res.add("http_failed_reads", u64::from(failed));
}
