//! The registry against a reference router. Rules are generated together with a predicate of their
//! own, inputs are assembled from parts, so that what has to match is known by construction.

use std::path::Path;
use std::sync::Arc;

use parking_lot::Mutex;
use regex::Regex;
use stream_download::registry::{Input, InputType, Matcher, Registry, RegistryEntry, Rule, Source};
use url::Url;

use crate::report::{Fnv, Res};
use crate::rng::Rng;

#[derive(Clone, Debug)]
enum Pat {
    Exact(String),
    /// (regular expression, what it means)
    Starts(String),
    Ends(String),
    Contains(String),
    Http,
    Digits,
    OneOf(Vec<String>),
}

impl Pat {
    fn matcher(&self) -> Matcher {
        let e = regex_escape;
        let re = |s: String| Matcher::from(Regex::new(&s).expect("regex"));
        match self {
            Self::Exact(s) if s.len() % 2 == 0 => Matcher::from(s.as_str()),
            Self::Exact(s) => Matcher::from(s.clone()),
            Self::Starts(s) => re(format!("^{}", e(s))),
            Self::Ends(s) => re(format!("{}$", e(s))),
            Self::Contains(s) => re(e(s)),
            Self::Http => Matcher::from(stream_download::registry::http_regex()),
            Self::Digits => re(r"^[0-9]+$".into()),
            Self::OneOf(v) => re(format!("^(?:{})$", v.iter().map(|s| e(s)).collect::<Vec<_>>().join("|"))),
        }
    }
    fn is(&self, s: &str) -> bool {
        match self {
            Self::Exact(x) => x == s,
            Self::Starts(x) => s.starts_with(x.as_str()),
            Self::Ends(x) => s.ends_with(x.as_str()),
            Self::Contains(x) => s.contains(x.as_str()),
            Self::Http => s == "http" || s == "https",
            Self::Digits => !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()),
            Self::OneOf(v) => v.iter().any(|x| x == s),
        }
    }
}

fn regex_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if "\\.+*?()|[]{}^$#&-~".contains(c) {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

#[derive(Clone, Debug)]
enum RRule {
    Prefix(String),
    Str(Option<Pat>),
    /// scheme, domain, how it is made
    Url(Option<Pat>, Option<Pat>, u8),
}

impl RRule {
    fn rule(&self) -> Rule {
        match self {
            Self::Prefix(p) => Rule::prefix(p.as_str()),
            Self::Str(None) => Rule::any_string(),
            Self::Str(Some(p)) => Rule::string(p.matcher()),
            Self::Url(None, None, _) => Rule::any_url(),
            Self::Url(Some(Pat::Http), None, 0) => Rule::any_http(),
            Self::Url(Some(s), None, _) => Rule::url_scheme(s.matcher()),
            Self::Url(None, Some(d), _) => Rule::url_domain(d.matcher()),
            Self::Url(Some(Pat::Http), Some(d), 0) => Rule::http_domain(d.matcher()),
            Self::Url(Some(s), Some(d), _) => Rule::url(s.matcher(), d.matcher()),
        }
    }
}

/// What an input is, by construction.
#[derive(Clone, Debug)]
struct Known {
    text: String,
    url: Option<(String, Option<String>)>,
}

const PREFIXES: &[&str] = &["yt:", "ytdl://", "file:", "a", "ab", "http", "https://", "local-", "é:", "x y ", "http://example.com"];
const SCHEMES: &[&str] = &["http", "https", "ftp", "file", "rtmp", "httpx", "s3"];
const DOMAINS: &[&str] = &["example.com", "www.example.com", "example.com.evil.org", "youtube.com", "localhost", "a.b"];
const STRINGS: &[&str] = &["hello", "a b c", "123", "0", "", "/tmp/some file.mp3", "example.com", "naïve", "abab", "youtube", "http", "-", "a"];

fn input(rng: &mut Rng) -> Known {
    if rng.chance(1, 2) {
        let s = *rng.pick(SCHEMES);
        let d = *rng.pick(DOMAINS);
        let path = *rng.pick(&["/", "/x/y.mp3", "/?q=1", "/a#b"]);
        match rng.below(6) {
            0 => Known { text: format!("{s}://127.0.0.1{path}"), url: Some((s.into(), ip_domain(s, "127.0.0.1"))) },
            1 => Known { text: format!("{s}://{d}:8080{path}"), url: (s != "file").then(|| (s.into(), Some(d.into()))) },
            2 => Known { text: "mailto:someone@example.com".into(), url: Some(("mailto".into(), None)) },
            _ => {
                let d2 = if s == "file" && d == "localhost" { None } else { Some(d.to_string()) };
                Known { text: format!("{s}://{d}{path}"), url: Some((s.into(), d2)) }
            }
        }
    } else {
        Known { text: (*rng.pick(STRINGS)).to_string(), url: None }
    }
}

/// Only the special schemes know addresses.
fn ip_domain(scheme: &str, ip: &str) -> Option<String> {
    (!["http", "https", "ftp", "file"].contains(&scheme)).then(|| ip.to_string())
}

/// What is left after a prefix may be anything.
fn examine(text: &str) -> Known {
    let url = Url::parse(text).ok().map(|u| (u.scheme().to_string(), u.domain().map(str::to_string)));
    Known { text: text.to_string(), url }
}

fn pat(rng: &mut Rng, of: &[&str]) -> Pat {
    let s = (*rng.pick(of)).to_string();
    let part = |s: &str| s.chars().take(3).collect::<String>();
    match rng.below(8) {
        0 => Pat::Starts(part(&s)),
        1 => Pat::Ends(s.chars().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect()),
        2 => Pat::Contains(part(&s)),
        3 => Pat::Digits,
        4 => Pat::OneOf((0..rng.range(1, 3)).map(|_| (*rng.pick(of)).to_string()).collect()),
        _ => Pat::Exact(s),
    }
}

fn rule(rng: &mut Rng) -> RRule {
    match rng.below(8) {
        0 | 1 => RRule::Prefix((*rng.pick(PREFIXES)).to_string()),
        2 => RRule::Str(None),
        3 | 4 => RRule::Str(Some(pat(rng, STRINGS))),
        _ => {
            let s = match rng.below(4) {
                0 => None,
                1 => Some(Pat::Http),
                _ => Some(pat(rng, SCHEMES)),
            };
            let d = if rng.chance(1, 2) { None } else { Some(pat(rng, DOMAINS)) };
            RRule::Url(s, d, rng.below(2) as u8)
        }
    }
}

#[derive(Clone, Debug)]
struct REntry {
    id: usize,
    priority: u32,
    rules: Vec<RRule>,
}

type Calls = Arc<Mutex<Vec<(usize, Input)>>>;

struct Entry {
    id: usize,
    priority: u32,
    rules: Vec<Rule>,
    calls: Calls,
    count: u64,
    yields: u64,
}

#[async_trait::async_trait]
impl RegistryEntry<(usize, u64)> for Entry {
    fn priority(&self) -> u32 {
        self.priority
    }
    fn rules(&self) -> &[Rule] {
        &self.rules
    }
    async fn handler(&mut self, input: Input) -> (usize, u64) {
        self.calls.lock().push((self.id, input));
        for _ in 0..self.yields {
            tokio::task::yield_now().await;
        }
        self.count += 1;
        (self.id, self.count)
    }
}

/// (entry, prefix, text of the source, is a URL)
fn route(entries: &[REntry], prefix: Option<&str>, raw: bool, k: &Known) -> Option<(usize, Option<String>, Known)> {
    let mut order: Vec<&REntry> = entries.iter().collect();
    // stable by hand: smallest priority first, then order of registration
    let mut sorted: Vec<&REntry> = vec![];
    while !order.is_empty() {
        let mut best = 0;
        for (i, e) in order.iter().enumerate() {
            if e.priority < order[best].priority {
                best = i;
            }
        }
        sorted.push(order.remove(best));
    }
    for e in sorted {
        for r in &e.rules {
            let RRule::Prefix(p) = r else { continue };
            if raw {
                if let Some(rest) = k.text.strip_prefix(p.as_str()) {
                    return Some((e.id, Some(p.clone()), examine(rest)));
                }
            } else if prefix == Some(p.as_str()) {
                return Some((e.id, Some(p.clone()), k.clone()));
            }
        }
        let hit = e.rules.iter().any(|r| match (r, &k.url) {
            (RRule::Str(p), None) => p.as_ref().is_none_or(|p| p.is(&k.text)),
            (RRule::Url(s, d, _), Some((scheme, domain))) => {
                s.as_ref().is_none_or(|s| s.is(scheme)) && d.as_ref().is_none_or(|d| domain.as_ref().is_some_and(|x| d.is(x)))
            }
            _ => false,
        });
        if hit {
            return Some((e.id, prefix.map(str::to_string), k.clone()));
        }
    }
    None
}

fn source_of(k: &Known) -> Source {
    Source::from(k.text.clone())
}

#[allow(clippy::too_many_lines)]
pub fn scenario(_prop: &str, seed: u64, _dir: &Path) -> Res {
    let mut res = Res::default();
    let mut rng = Rng::new(seed ^ 0x16);
    let rng = &mut rng;
    let n = match rng.below(40) {
        0 => rng.range(20, 120) as usize,
        1 | 2 => rng.range(7, 30) as usize,
        _ => rng.below(7) as usize,
    };
    // this many are there before the first lookup, the others come later
    let early = if rng.chance(1, 4) { rng.below(n as u64 + 1) as usize } else { n };
    let spread = *rng.pick(&[1u64, 2, 4, 1000]);
    let entries: Vec<REntry> = (0..n)
        .map(|id| REntry {
            id,
            priority: if rng.chance(1, 20) { u32::MAX } else { rng.below(spread) as u32 },
            rules: (0..if rng.chance(1, 30) { rng.below(20) } else { rng.below(4) }).map(|_| rule(rng)).collect(),
        })
        .collect();
    let calls: Calls = Arc::default();
    let mut reg = Registry::new();
    let yields: Vec<u64> = entries.iter().map(|_| rng.below(3)).collect();
    let made = |e: &REntry| Entry {
        id: e.id,
        priority: e.priority,
        rules: e.rules.iter().map(RRule::rule).collect(),
        calls: calls.clone(),
        count: 0,
        yields: yields[e.id],
    };
    for e in &entries[..early] {
        reg = reg.entry(made(e));
    }
    let mut there = early;
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    res.sample = format!("seed={seed} {entries:?}");
    let mut fp = Fnv::default();
    let mut counts = vec![0u64; n];
    res.add("registry_large", u64::from(n > 20));
    for _ in 0..40 {
        while there < n && rng.chance(1, 3) {
            reg = reg.entry(made(&entries[there]));
            there += 1;
            res.add("registry_late_entries", 1);
        }
        let entries = &entries[..there];
        let mut k = input(rng);
        let real = Url::parse(&k.text).ok().map(|u| (u.scheme().to_string(), u.domain().map(str::to_string)));
        if real != k.url {
            // what the URL library makes of it is not what this is about
            k.url = real;
        }
        let parsed = rng.chance(1, 3);
        let prefix = parsed.then(|| rng.chance(1, 2).then(|| *rng.pick(PREFIXES))).flatten();
        if !parsed && rng.chance(1, 3) {
            let text = format!("{}{}", rng.pick(PREFIXES), k.text);
            k = examine(&text);
        }
        let want = route(entries, prefix, !parsed, &k);
        let given: InputType = if parsed {
            let src = match &k.url {
                Some(_) => Source::Url(k.text.parse().expect("url")),
                None => Source::String(k.text.clone()),
            };
            Input { prefix: prefix.map(str::to_string), source: src }.into()
        } else if rng.chance(1, 2) {
            k.text.as_str().into()
        } else {
            k.text.clone().into()
        };
        calls.lock().clear();
        let got = rt.block_on(reg.find_match(given));
        let made = std::mem::take(&mut *calls.lock());
        res.add("registry_lookups", 1);
        let what = format!("{:?} (prefix {prefix:?}, parsed {parsed})", k.text);
        fp.put(got.map_or(999, |g| g.0 as u64));
        match (&want, got) {
            (None, None) => {
                res.add("registry_misses", 1);
                if !made.is_empty() {
                    res.viol("called", &["C16"], format!("{what}: no match, but handlers of {made:?} ran"));
                }
            }
            (Some((id, p, rest)), Some((gid, count))) => {
                if gid != *id {
                    res.viol("wrong_entry", &["C16"], format!("{what}: entry {gid} instead of {id}"));
                    continue;
                }
                counts[gid] += 1;
                if count != counts[gid] {
                    res.viol("state", &["C16"], format!("{what}: entry {gid} was called {count} times, expected {}", counts[gid]));
                }
                if made.len() != 1 {
                    res.viol("called", &["C16"], format!("{what}: handlers ran {made:?}"));
                    continue;
                }
                let input = made[0].1.clone();
                let want_src = if parsed {
                    match &k.url {
                        Some(_) => Source::Url(k.text.parse().expect("url")),
                        None => Source::String(k.text.clone()),
                    }
                } else {
                    source_of(rest)
                };
                if input.prefix != *p || input.source != want_src {
                    res.viol("input", &["C16"], format!("{what}: handler got {input:?} instead of {p:?} {want_src:?}"));
                }
                // what the handler gets can be taken apart and put together again
                let is_url = rest.url.is_some();
                let src = input.source.clone();
                if matches!(src, Source::Url(_)) != is_url
                    || src.clone().try_into_url().is_some() != is_url
                    || src.clone().try_into_string().is_some() == is_url
                {
                    res.viol("kind", &["C16"], format!("{what}: source {src:?}, is a URL: {is_url}"));
                }
                let text = if is_url { Url::parse(&rest.text).map(|u| u.to_string()).unwrap_or_default() } else { rest.text.clone() };
                let raw = format!("{}{text}", p.clone().unwrap_or_default());
                if input.to_string() != raw || input.clone().into_raw() != raw || String::from(src.clone()) != text || src.to_string() != text {
                    res.viol("raw", &["C16"], format!("{what}: raw form {:?} instead of {raw:?}", input.clone().into_raw()));
                }
                res.add("registry_hits", 1);
                res.add("registry_prefix_hits", u64::from(p.is_some() && !parsed));
                res.add("registry_url_hits", u64::from(is_url));
                res.add("registry_parsed_hits", u64::from(parsed));
                res.add("registry_contested", u64::from(gid != 0 && n > 2));
            }
            (w, g) => {
                res.viol("match", &["C16"], format!("{what}: result {g:?}, expected {w:?}"));
            }
        }
    }
    for p in crate::panics::take() {
        if crate::panics::own(&p) {
            res.inconclusive = true;
        } else {
            res.viol("panic", &["C16", "C21"], p);
        }
    }
    res.fingerprint = fp.0;
    res.nontrivial = n > 0;
    if !res.viols.is_empty() {
        res.log = res.sample.clone();
    }
    res
}
