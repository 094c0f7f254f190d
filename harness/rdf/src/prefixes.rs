//! C11 (prefix maps: finite map, qualify/resolve) and C12 (IRI parsing and resolution).
use prefixmap::{DerefIri, IriRef, PrefixMap};
use rudof_iri::IriS;
use std::str::FromStr;

const ALIASES: [&str; 3] = ["", "a", "bc"];

fn cat(parts: &[&str]) -> String {
    parts.concat()
}

fn starts(s: &[u8], p: &[u8]) -> bool {
    if p.len() > s.len() {
        return false;
    }
    let mut ok = true;
    for (i, x) in p.iter().enumerate() {
        ok &= s[i] == *x;
    }
    ok
}

/// `entries` namespaces http://e<up to k symbolic characters>, an IRI http://e<up to n>
fn qualify(entries: usize, k: usize, n: usize, alphabet: &[u8]) {
    let m = symrt::pick(c"entries", entries as u32) + 1;
    let mut pm = PrefixMap::new();
    let mut ns = vec![];
    for i in 0..m {
        let l = symrt::pick(c"ns_len", k as u32 + 1);
        let s = cat(&["http://e", &symrt::over(c"ns", l, alphabet)]);
        pm.add_prefix(ALIASES[i], IriS::new_unchecked(&s));
        ns.push(s);
    }
    let l = symrt::pick(c"iri_len", n as u32 + 1);
    let s = cat(&["http://e", &symrt::over(c"iri", l, alphabet)]);
    let iri = IriS::new_unchecked(&s);
    // longest namespace that prefixes the IRI
    let mut best: Option<usize> = None;
    for x in &ns {
        if starts(s.as_bytes(), x.as_bytes()) {
            best = Some(best.map_or(x.len(), |b| b.max(x.len())));
        }
    }
    let local = pm.qualify_local(&iri);
    let q = pm.qualify_optional(&iri);
    match best {
        None => {
            symrt::check(local.is_none(), c"no-local");
            symrt::check(q.is_none(), c"no-qname");
            let full = cat(&["<", &s, ">"]);
            symrt::check(pm.qualify(&iri) == full, c"full");
            let (t, len) = pm.qualify_and_length(&iri);
            symrt::check((t == full) & (len == full.len()), c"full-length");
        }
        Some(b) => {
            symrt::check(local.as_deref() == Some(&s[b..]), c"local");
            let Some(q) = q else {
                symrt::check(false, c"qname");
                return;
            };
            let mut one = false;
            for i in 0..m {
                one |= (ns[i].len() == b)
                    & starts(s.as_bytes(), ns[i].as_bytes())
                    & (q == cat(&[ALIASES[i], ":", &s[b..]]));
            }
            symrt::check(one, c"longest");
            symrt::check(pm.qualify(&iri) == q, c"qualify");
            let (t, len) = pm.qualify_and_length(&iri);
            symrt::check((t == q) & (len == q.len()), c"length");
            if IriS::new(&s).is_ok() {
                match pm.resolve(&q) {
                    Ok(back) => symrt::check(back.as_str() == s, c"round-trip"),
                    Err(_) => symrt::check(false, c"resolves"),
                }
                let (p, l) = q.split_once(':').unwrap();
                match IriRef::prefixed(p, l).get_iri_prefixmap(&pm) {
                    Ok(back) => symrt::check(back.as_str() == s, c"iriref"),
                    Err(_) => symrt::check(false, c"iriref-resolves"),
                }
                match pm.resolve_iriref(IriRef::prefixed(p, l)) {
                    Ok(back) => symrt::check(back.as_str() == s, c"resolve-iriref"),
                    Err(_) => symrt::check(false, c"iriref-resolves"),
                }
                match IriRef::prefixed(p, l).deref_iri(None, Some(&pm)) {
                    Ok(back) => symrt::check(back == IriRef::iri(IriS::new_unchecked(&s)), c"deref"),
                    Err(_) => symrt::check(false, c"deref-resolves"),
                }
            }
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_one() {
    qualify(1, 3, 4, b"/#a_:")
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_two() {
    qualify(2, 2, 3, b"/#a:")
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_three() {
    qualify(3, 1, 2, b"/#a")
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_three_x() {
    qualify(3, 2, 3, b"/#a:")
}

fn byte_iri(b: u8) -> IriS {
    IriS::new_unchecked(&unsafe { String::from_utf8_unchecked(vec![b'h', b':', b]) })
}
/// a history of additions, removals and merges; the values are symbolic
fn history(ops: usize) {
    let mut pm = PrefixMap::new();
    let mut model: [Option<u8>; 3] = [None; 3];
    for _ in 0..ops {
        let op = symrt::pick(c"op", 3);
        let k = symrt::pick(c"alias", 3);
        let v = symrt::u8(c"value");
        symrt::assume((v >= b'a') & (v <= b'z'));
        match op {
            0 => {
                pm.add_prefix(ALIASES[k], byte_iri(v));
                model[k] = Some(v);
            }
            1 => {
                let old = pm.remove_prefix(ALIASES[k]);
                symrt::check(old == model[k].map(byte_iri), c"removed");
                model[k] = None;
            }
            _ => {
                let w = symrt::u8(c"other");
                symrt::assume((w >= b'a') & (w <= b'z'));
                let j = (k + 1) % 3;
                let mut o = PrefixMap::new();
                o.add_prefix(ALIASES[k], byte_iri(v));
                o.add_prefix(ALIASES[j], byte_iri(w));
                pm.merge(o);
                model[k] = Some(v);
                model[j] = Some(w);
            }
        }
        let mut n = 0;
        for i in 0..3 {
            symrt::check(pm.find(ALIASES[i]).cloned() == model[i].map(byte_iri), c"find");
            n += model[i].is_some() as usize;
        }
        symrt::check((pm.len() == n) & (pm.is_empty() == (n == 0)), c"len");
        let mut seen = 0;
        for (a, x) in pm.iter() {
            let Some(i) = ALIASES.iter().position(|y| y == a) else {
                symrt::check(false, c"unknown-alias");
                return;
            };
            symrt::check(Some(x.clone()) == model[i].map(byte_iri), c"iter");
            seen += 1;
        }
        symrt::check(seen == n, c"iter-count");
        symrt::check(pm.aliases().count() == n, c"aliases");
    }
    for i in 0..3 {
        match pm.resolve(&cat(&[ALIASES[i], ":x"])) {
            Ok(r) => symrt::check(
                model[i].is_some_and(|v| r.as_str() == cat(&[byte_iri(v).as_str(), "x"])),
                c"resolve",
            ),
            Err(_) => symrt::check(model[i].is_none(), c"unresolved"),
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_history() {
    history(3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c11_history_x() {
    history(4)
}

// ---- C12

fn alpha(b: u8) -> bool {
    let l = b | 0x20;
    (l >= b'a') & (l <= b'z')
}
fn digit(b: u8) -> bool {
    (b >= b'0') & (b <= b'9')
}
fn hex(b: u8) -> bool {
    let l = b | 0x20;
    digit(b) | ((l >= b'a') & (l <= b'f'))
}
fn among(b: u8, s: &[u8]) -> bool {
    let mut r = false;
    for x in s {
        r |= b == *x;
    }
    r
}
/// RFC 3987 `IRI` over ASCII texts without brackets (no IP literals)
fn valid(s: &[u8]) -> bool {
    let n = s.len();
    if n == 0 || !alpha(s[0]) {
        return false;
    }
    let mut i = 1;
    while i < n && (alpha(s[i]) | digit(s[i]) | among(s[i], b"+-.")) {
        i += 1;
    }
    if i >= n || s[i] != b':' {
        return false;
    }
    i += 1;
    // every remaining character is unreserved, a sub-delimiter, ":@/?", a percent escape or one "#"
    let mut hash = false;
    let mut j = i;
    while j < n {
        let c = s[j];
        if c == b'%' {
            if j + 2 >= n || !(hex(s[j + 1]) & hex(s[j + 2])) {
                return false;
            }
            j += 3;
            continue;
        }
        if c == b'#' {
            if hash {
                return false;
            }
            hash = true;
        } else if !(alpha(c) | digit(c) | among(c, b"-._~!$&'()*+,;=:@/?")) {
            return false;
        }
        j += 1;
    }
    if i + 1 < n && (s[i] == b'/') & (s[i + 1] == b'/') {
        // authority = [ userinfo "@" ] host [ ":" port ]
        let a = i + 2;
        let mut end = a;
        while end < n && !among(s[end], b"/?#") {
            end += 1;
        }
        let mut h = a;
        for k in a..end {
            if s[k] == b'@' {
                if h != a {
                    return false;
                }
                h = k + 1;
            }
        }
        let mut port = false;
        for k in h..end {
            if s[k] == b':' && !port {
                port = true;
            } else if port && !digit(s[k]) {
                return false;
            }
        }
    }
    true
}
fn parse(pre: &str, max: usize) {
    let n = symrt::pick(c"len", max as u32 + 1);
    let t = symrt::bytes(c"s", n, |b| (b < 0x80) & (b != b'[') & (b != b']'));
    let s = cat(&[pre, unsafe { std::str::from_utf8_unchecked(&t) }]);
    let want = valid(s.as_bytes());
    match IriS::from_str(&s) {
        Ok(i) => {
            symrt::check(want, c"rejects");
            symrt::check((i.as_str() == s) & (i.named_node().as_str() == s), c"same-text");
        }
        Err(_) => symrt::check(!want, c"accepts"),
    }
    symrt::check(IriS::new(&s).is_ok() == want, c"new");
    symrt::check(IriRef::try_from(s.as_str()).is_ok() == want, c"iriref");
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_parse() {
    symrt::no_fmt(true);
    parse("", 4)
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_parse_x() {
    symrt::no_fmt(true);
    parse("", 5)
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_authority() {
    symrt::no_fmt(true);
    parse("a://", 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_authority_x() {
    symrt::no_fmt(true);
    parse("a://", 4)
}
/// an absolute IRI resolves to itself whatever the base
fn absolute(bs: usize, n: usize) {
    let b = symrt::pick(c"base", bs as u32);
    let base = cat(&[["http://b", "http://b/c/d?q#f", "x:y", "http://b/"][b]]);
    let l = symrt::pick(c"len", n as u32 + 1);
    let pre = ["http://e", "a:", "http://b/c"][symrt::pick(c"start", 3)];
    let s = cat(&[pre, &symrt::over(c"s", l, b"/#?a:1")]);
    let base = IriS::new_unchecked(&base);
    let Ok(iri) = IriS::from_str(&s) else { return };
    let same = |r: Option<IriS>| symrt::check(r.is_some_and(|r| r.as_str() == s), c"itself");
    same(base.resolve(iri.clone()).ok());
    same(base.resolve_str(&s).ok());
    same(IriS::from_str_base(&s, Some(base.as_str())).ok());
    same(IriS::from_str_base_iri(&s, Some(&base)).ok());
    same(IriS::from_str_base(&s, None).ok());
    same(IriS::from_str_base_iri(&s, None).ok());
    same(base.resolve_iri(&s).ok().map(|i| IriS::new_unchecked(i.as_str())));
    for d in [None, Some(&base)] {
        match IriRef::iri(iri.clone()).deref_iri(d, None) {
            Ok(IriRef::Iri(i)) => same(Some(i)),
            _ => symrt::check(false, c"deref"),
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_absolute() {
    symrt::no_fmt(true);
    absolute(4, 2)
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_absolute_x() {
    symrt::no_fmt(true);
    absolute(4, 3)
}
/// RFC 3986 section 5.2 for references without scheme or authority, against http://b/c/d?q#f
fn relative(n: usize) {
    let base = "http://b/c/d?q#f";
    let l = symrt::pick(c"len", n as u32 + 1);
    let r = symrt::over(c"s", l, b"/#?a.");
    let b = r.as_bytes();
    symrt::assume(!(l >= 2 && (b[0] == b'/') & (b[1] == b'/')));
    let mut p = 0;
    while p < l && (b[p] != b'?') & (b[p] != b'#') {
        p += 1;
    }
    let mut q = p;
    while q < l && b[q] != b'#' {
        q += 1;
    }
    if q < l {
        for x in &b[q + 1..] {
            symrt::assume(*x != b'#');
        }
    }
    let (path, query, frag) = (&r[..p], &r[p..q], &r[q..]);
    let want = if path.is_empty() {
        if query.is_empty() {
            cat(&["http://b/c/d?q", frag])
        } else {
            cat(&["http://b/c/d", query, frag])
        }
    } else {
        let merged = if path.as_bytes()[0] == b'/' { path.to_string() } else { cat(&["/c/", path]) };
        cat(&["http://b", &remove_dots(&merged), query, frag])
    };
    match IriS::new_unchecked(base).resolve_str(&r) {
        Ok(i) => symrt::check(i.as_str() == want, c"relative"),
        Err(_) => symrt::check(false, c"relative-error"),
    }
    match IriS::from_str_base(&r, Some(base)) {
        Ok(i) => symrt::check(i.as_str() == want, c"relative"),
        Err(_) => symrt::check(false, c"relative-error"),
    }
    match IriS::new_unchecked(base).resolve(IriS::new_unchecked(&r)) {
        Ok(i) => symrt::check(i.as_str() == want, c"relative"),
        Err(_) => symrt::check(false, c"relative-error"),
    }
}
/// section 5.2.4 over the segments of a path that starts with "/"
fn remove_dots(p: &str) -> String {
    let segs: Vec<&str> = p.split('/').skip(1).collect();
    let mut out: Vec<&str> = vec![];
    let last = segs.len() - 1;
    for (i, s) in segs.iter().enumerate() {
        match *s {
            "." => {
                if i == last {
                    out.push("")
                }
            }
            ".." => {
                out.pop();
                if i == last {
                    out.push("")
                }
            }
            x => out.push(x),
        }
    }
    cat(&["/", &out.join("/")])
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_relative() {
    symrt::no_fmt(true);
    relative(3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_relative_x() {
    symrt::no_fmt(true);
    relative(4)
}
/// `<iri>` is read as exactly the IRI between the brackets
fn turtle(n: usize) {
    let l = symrt::pick(c"len", n as u32 + 1);
    let s = symrt::bytes(c"s", l, |b| (b > b' ') & (b < 0x7f) & (b != b'[') & (b != b']'));
    let sp = [("", ""), (" ", " "), ("\t", "\n"), ("<", ">")][symrt::pick(c"around", 4)];
    let s = unsafe { String::from_utf8_unchecked(s) };
    let t = cat(&[sp.0, &s, sp.1]);
    let u = if sp.0 == "<" { t.clone() } else { s };
    let b = u.as_bytes();
    let k = b.len();
    let want = k >= 2 && (b[0] == b'<') & (b[k - 1] == b'>') && valid(&b[1..k - 1]);
    match IriS::parse_turtle(&t) {
        Ok(i) => symrt::check(want && i.as_str() == &u[1..k - 1], c"brackets"),
        Err(_) => symrt::check(!want, c"turtle-accepts"),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c12_turtle() {
    symrt::no_fmt(true);
    turtle(4)
}
/// relativising against a prefix and putting the prefix back gives the IRI; otherwise it stays whole
#[unsafe(no_mangle)]
pub extern "C" fn c12_relativize() {
    let l = symrt::pick(c"base_len", 4);
    let n = symrt::pick(c"iri_len", 5);
    let b = cat(&["h:", &symrt::over(c"base", l, b"/a#")]);
    let s = cat(&["h:", &symrt::over(c"iri", n, b"/a#")]);
    let r = IriS::new_unchecked(&s).relative_from(&IriS::new_unchecked(&b));
    if starts(s.as_bytes(), b.as_bytes()) {
        symrt::check(cat(&[&b, &r]) == s, c"rest");
    } else {
        symrt::check(r == s, c"whole");
    }
    let e = IriS::new_unchecked(&b).extend_unchecked(&r);
    symrt::check(e.as_str() == cat(&[&b, &r]), c"extend-unchecked");
    // equality up to the fragment
    let cut = |x: &[u8]| {
        let mut i = 0;
        while i < x.len() && x[i] != b'#' {
            i += 1;
        }
        i
    };
    let (i, j) = (cut(b.as_bytes()), cut(s.as_bytes()));
    let same = (i == j) && b.as_bytes()[..i] == s.as_bytes()[..j];
    symrt::check(
        IriS::new_unchecked(&b).equal_without_fragment(&IriS::new_unchecked(&s)) == same,
        c"without-fragment",
    );
}
