//! C20: the readers of user text return a value or an error for every text. A panic or a run that does not
//! end on any path is reported by the engine itself; the assertions only say the call returned.
use crate::mk::ns;
use prefixmap::IriRef;
use rudof_iri::IriS;
use rudof_rdf::rdf_core::term::literal::Lang;
use shex_ast::ast::{IriOrStr, ShapeExprLabel};
use shex_ast::compact::{ShExFormatter, ShExParser, ShapeMapParser};
use std::str::FromStr;

const HEAD: &str = "PREFIX :<http://e/>\n";

/// What can be read must not crash the writer or the compiler either.
fn shexc(src: &str) {
    if let Ok(s) = ShExParser::parse(src, None, &ns("schema")) {
        symrt::cover(c"read");
        let out = ShExFormatter::default().without_colors().format_schema(&s);
        let compiled = crate::mk::compile(s).is_some();
        symrt::check(compiled | !compiled | out.is_empty(), c"the reader returned");
    } else {
        symrt::cover(c"rejected");
        symrt::check(true, c"the reader returned");
    }
}
/// two characters: any ASCII, or one of a few longer ones
fn two() -> String {
    let mut s = String::new();
    for n in [c"x", c"y"] {
        match symrt::pick(n, 3) {
            0 => s.push_str(&symrt::ascii(n, 1)),
            1 => s.push('\u{e9}'),
            _ => s.push('\u{1F600}'),
        }
    }
    s
}
fn around(places: &[(&str, &str)]) {
    let (a, b) = places[symrt::pick(c"place", places.len() as u32)];
    let t = two();
    shexc(&[HEAD, a, &t, b].concat())
}

/// two arbitrary characters inside each kind of token
#[unsafe(no_mangle)]
pub extern "C" fn c20_tokens() {
    around(&[
        (":S ['a", "']"),
        (":S ['''a", "''']"),
        (":S [<a", ">]"),
        (":S [:a", "]"),
        (":S LITERAL /a", "/"),
        (":S [1", "]"),
        (":S ['a'@e", "]"),
        (":S {:p . {", "}}"),
    ])
}
/// two arbitrary characters where a token is expected
#[unsafe(no_mangle)]
pub extern "C" fn c20_places() {
    around(&[("", ""), (":S ", ""), (":S { ", " }"), (":S {:p ", "}"), (":S {:p .", "}"), (":S [", "]"), (":S IRI ", ""), (":S {} ", "")])
}

const SAMPLES: [&str; 6] = [
    ":S CLOSED EXTRA :a{:p IRI{1,2}}",
    ":S{($:l :p .;!^:q @:T|&:m)+}",
    ":S[:v~-:w 'a'@en 1.5e1 @fr~]",
    ":S{:p . //:n 'x'^^:t %:k{c%}}",
    ":S LITERAL MINLENGTH 2/b\\/c/i",
    "BASE<x>start=NOT(IRI OR @_:a)",
];
fn sample() -> &'static str {
    SAMPLES[symrt::pick(c"sample", SAMPLES.len() as u32)]
}

/// a schema with one character replaced by an arbitrary one
#[unsafe(no_mangle)]
pub extern "C" fn c20_replaced() {
    let s = sample();
    let at = symrt::pick(c"at", s.len() as u32);
    let c = symrt::ascii(c"c", 1);
    shexc(&[HEAD, &s[..at], &c, &s[at + 1..]].concat())
}
/// a schema cut anywhere, followed by an arbitrary character
#[unsafe(no_mangle)]
pub extern "C" fn c20_cut() {
    let s = sample();
    let at = symrt::pick(c"at", s.len() as u32);
    let c = symrt::ascii(c"c", 1);
    shexc(&[HEAD, &s[..at], &c].concat())
}

/// shape maps, selectors and IRI references
#[unsafe(no_mangle)]
pub extern "C" fn c20_shapemap() {
    let sample = "{FOCUS :p _}@START,<n>@:S,'a'@en@_:b,SPARQL 'x'@:S";
    let text = match symrt::pick(c"how", 3) {
        0 => {
            let at = symrt::pick(c"at", sample.len() as u32);
            [&sample[..at], &symrt::ascii(c"c", 1), &sample[at + 1..]].concat()
        },
        1 => {
            let at = symrt::pick(c"at", sample.len() as u32);
            [&sample[..at], &symrt::ascii(c"c", 1)].concat()
        },
        _ => two(),
    };
    symrt::cover(c"read");
    let ok = match symrt::pick(c"what", 2) {
        0 => ShapeMapParser::parse(&text, &None, &Some(ns("")), &None, &Some(ns(""))).is_ok(),
        _ => ShapeMapParser::parse_shape_selector(&text).is_ok() | ShapeMapParser::parse_node_selector(&text).is_ok(),
    };
    symrt::check(ok | !ok, c"the reader returned");
}

/// IRIs, relative and absolute, labels and language tags
#[unsafe(no_mangle)]
pub extern "C" fn c20_iris() {
    let (a, b) = [("", ""), ("http://", ""), ("http://e", "/"), ("http://e/", ""), ("a:", ""), ("<", ">"), ("//e", "")][symrt::pick(c"place", 7)];
    let t = [a, &two(), b].concat();
    symrt::cover(c"read");
    let mut n = 0u32;
    n += IriS::from_str(&t).is_ok() as u32;
    n += IriS::new(&t).is_ok() as u32;
    n += IriS::from_str_base(&t, Some("http://e/b")).is_ok() as u32;
    n += ns("b").resolve_str(&t).is_ok() as u32;
    n += ns("b").extend(&t).is_ok() as u32;
    n += ns("b").join(&t).is_ok() as u32;
    n += IriS::parse_turtle(&t).is_ok() as u32;
    n += IriRef::try_from(t.as_str()).is_ok() as u32;
    n += ShapeExprLabel::try_from(t.as_str()).is_ok() as u32;
    n += IriOrStr::new(&t).resolve(&Some(ns("b"))).is_ok() as u32;
    symrt::check(n <= 10, c"the readers returned");
}
#[unsafe(no_mangle)]
pub extern "C" fn c20_langs() {
    let (a, b) = [("", ""), ("e", ""), ("en-", ""), ("en-US-", "-x"), ("x-", "")][symrt::pick(c"place", 5)];
    let t = [a, &two(), b].concat();
    symrt::cover(c"read");
    symrt::check(Lang::new(&t).is_ok() | true, c"the reader returned");
}

/// numbers of up to 45 digits wherever a number may stand
#[unsafe(no_mangle)]
pub extern "C" fn c20_numbers() {
    let n = [1, 9, 10, 11, 19, 20, 28, 29, 30, 38, 39, 40, 45][symrt::pick(c"n", 13)];
    let mut digits = ["0", "1", "3", "9"][symrt::pick(c"d", 4)].to_string();
    digits.push_str(&"9".repeat(n - 1));
    let (a, b) = [
        (":S{:p .{", "}}"),
        (":S{:p .{1,", "}}"),
        (":S LITERAL LENGTH ", ""),
        (":S LITERAL MINLENGTH -", ""),
        (":S LITERAL TOTALDIGITS ", ""),
        (":S LITERAL MININCLUSIVE ", ""),
        (":S LITERAL MAXINCLUSIVE -", ""),
        (":S LITERAL MINEXCLUSIVE .", ""),
        (":S LITERAL MINEXCLUSIVE 1.", ""),
        (":S LITERAL MAXEXCLUSIVE 1e", ""),
        (":S LITERAL MAXEXCLUSIVE 1e-", ""),
        (":S[", "]"),
        (":S[.", "]"),
        (":S[1e", "]"),
    ][symrt::pick(c"place", 14)];
    shexc(&[HEAD, a, &digits, b].concat())
}
