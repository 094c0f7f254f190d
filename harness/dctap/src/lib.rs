//! C27: a tabular profile is read as written and translated to the shapes it describes. The tables are
//! built together with what each row asks of a value; the translated value expressions are compared with
//! that by their meaning (over every kind, datatype, value and membership), not by their form.
#[path = "/repo/shapes_converter/src/tap_to_shex/mod.rs"]
mod tap_to_shex;
pub use tap_to_shex::*;

use dctap::{DCTap, NodeType, TapConfig, ValueConstraint};
use prefixmap::{IriRef, PrefixMap};
use rudof_iri::IriS;
use shex_ast::{NodeKind, ObjectValue, Schema, ShapeExpr, ShapeExprLabel, TripleExpr, ValueSetValue, XsFacet};
use symrt::{check, cover, pick};

fn config() -> Tap2ShExConfig {
    let mut pm = PrefixMap::new();
    let _ = pm.add_prefix("x", IriS::new_unchecked("http://x/"));
    Tap2ShExConfig::default().with_base_iri(Some(IriS::new_unchecked("http://e/"))).with_prefixmap(pm)
}
fn convert(tap: &DCTap) -> Option<Schema> {
    Tap2ShEx::new(&config()).convert(tap).ok()
}
fn read(csv: &[u8]) -> Option<DCTap> {
    DCTap::from_reader(csv, &TapConfig::default()).ok()
}

/// What is known of a value: its kind, its datatype (of d0, d1, another), which listed value it is, whether
/// it matches the pattern, and whether it conforms to the shapes S0 and S1.
struct Val {
    kind: u32,
    dt: u32,
    is: u32,
    pat: bool,
    s: [bool; 2],
}
fn val() -> Val {
    Val {
        kind: symrt::choice(c"kind", 3),
        dt: symrt::choice(c"dt", 3),
        is: symrt::choice(c"is", 3),
        pat: symrt::bool(c"pat"),
        s: [symrt::bool(c"s0"), symrt::bool(c"s1")],
    }
}
const DT: [&str; 2] = ["http://x/d0", "http://x/d1"];
const VALUE: [&str; 2] = ["http://e/v0", "http://x/v1"];
const SHAPE: [&str; 2] = ["http://e/S0", "http://x/S1"];
const PAT: &str = "a.c";

fn text(i: &IriRef) -> Option<&str> {
    match i {
        IriRef::Iri(i) => Some(i.as_str()),
        _ => None,
    }
}
fn index(all: [&str; 2], i: &IriRef) -> Option<u32> {
    let t = text(i)?;
    all.iter().position(|a| *a == t).map(|n| n as u32)
}
/// does the value satisfy the expression? None: it has a part that says something else than any table here
fn accepts(se: &ShapeExpr, v: &Val) -> Option<bool> {
    Some(match se {
        ShapeExpr::ShapeAnd { shape_exprs } => {
            let mut b = true;
            for s in shape_exprs {
                b &= accepts(&s.se, v)?;
            }
            b
        },
        ShapeExpr::ShapeOr { shape_exprs } => {
            let mut b = false;
            for s in shape_exprs {
                b |= accepts(&s.se, v)?;
            }
            b
        },
        ShapeExpr::Ref(ShapeExprLabel::IriRef { value }) => v.s[index(SHAPE, value)? as usize],
        ShapeExpr::NodeConstraint(nc) => {
            let mut b = true;
            if let Some(k) = nc.node_kind() {
                b &= match k {
                    NodeKind::Iri => v.kind == 0,
                    NodeKind::BNode => v.kind == 1,
                    NodeKind::Literal => v.kind == 2,
                    NodeKind::NonLiteral => v.kind != 2,
                };
            }
            if let Some(d) = nc.datatype() {
                b &= v.dt == index(DT, &d)?;
            }
            if let Some(vs) = nc.values() {
                let mut any = false;
                for x in vs {
                    let ValueSetValue::ObjectValue(ObjectValue::IriRef(i)) = x else { return None };
                    any |= v.is == index(VALUE, &i)?;
                }
                b &= any;
            }
            for f in nc.facets().unwrap_or_default() {
                let XsFacet::StringFacet(f) = f else { return None };
                let shex_ast::ast::StringFacet::Pattern(p) = f else { return None };
                if p.str != PAT || p.flags.as_deref().is_some_and(|f| !f.is_empty()) {
                    return None;
                }
                b &= v.pat;
            }
            b
        },
        ShapeExpr::Shape(s) if *s == any_shape() => true,
        _ => return None,
    })
}
fn any_shape() -> shex_ast::Shape {
    shex_ast::Shape::new(None, None, None)
}

struct Row {
    pred: String,
    min: i32,
    max: i32,
    expr: Option<ShapeExpr>,
}
/// the constraints of a shape expression made of triple constraints all of which must hold
fn rows(se: &ShapeExpr) -> Option<Vec<Row>> {
    fn go(te: &TripleExpr, out: &mut Vec<Row>) -> Option<()> {
        match te {
            TripleExpr::EachOf { expressions, min: None | Some(1), max: None | Some(1), .. } => {
                for e in expressions {
                    go(&e.te, out)?;
                }
            },
            TripleExpr::TripleConstraint { negated: None | Some(false), inverse: None | Some(false), predicate, value_expr, min, max, .. } => {
                out.push(Row {
                    pred: text(predicate)?.to_string(),
                    min: min.unwrap_or(1),
                    max: max.unwrap_or(1),
                    expr: value_expr.as_ref().map(|v| (**v).clone()),
                });
            },
            _ => return None,
        }
        Some(())
    }
    let ShapeExpr::Shape(s) = se else { return None };
    if s.closed.unwrap_or(false) || s.extra.as_ref().is_some_and(|e| !e.is_empty()) {
        return None;
    }
    let mut out = Vec::new();
    if let Some(te) = &s.expression {
        go(&te.te, &mut out)?;
    }
    Some(out)
}
fn shapes(s: &Schema) -> Option<Vec<(String, ShapeExpr)>> {
    let mut out = Vec::new();
    for d in s.shapes().unwrap_or_default() {
        let ShapeExprLabel::IriRef { value } = &d.id else { return None };
        out.push((text(value)?.to_string(), d.shape_expr.clone()));
    }
    Some(out)
}
/// the only row of the only shape
fn row(s: &Schema) -> Option<Row> {
    let [(name, se)] = &shapes(s)?[..] else { return None };
    let mut r = rows(se)?;
    if name != "http://e/S" || r.len() != 1 { None } else { r.pop() }
}

/// a word in any mixture of cases
fn word(n: usize, w: &str, out: &mut Vec<u8>) -> u8 {
    let mut seen = 0;
    for (i, b) in w.bytes().enumerate() {
        let upper = b.is_ascii_alphabetic() && symrt::bool([c"u0", c"u1", c"u2", c"u3", c"u4", c"u5", c"u6"][(n + i) % 7]);
        out.push(b ^ ((upper as u8) << 5));
        seen |= (upper as u8) << (i % 8);
    }
    seen
}
const FLAG: [(&str, bool); 7] =
    [("yes", true), ("no", false), ("true", true), ("false", false), ("1", true), ("0", false), ("", false)];
fn flag(n: usize, out: &mut Vec<u8>, free: bool) -> bool {
    let (w, v) = FLAG[pick([c"flag0", c"flag1"][n], 7)];
    let sp = if free { pick(c"spaces", 3) } else { 0 };
    if sp == 1 {
        out.push(b' ');
    }
    if free {
        word(n, w, out);
    } else {
        out.extend_from_slice(w.as_bytes());
    }
    if sp != 0 {
        out.push(b' ');
    }
    v
}
/// mandatory and repeatable, in any spelling, together or with one of the columns missing
#[unsafe(no_mangle)]
pub extern "C" fn c27_flags() {
    let form = pick(c"columns", 5);
    let head = ["mandatory,repeatable", "repeatable,mandatory", "mandatory", "repeatable", "Mandatory , REPEATABLE"][form];
    let mut csv = [b"shapeID,propertyID,".as_slice(), head.as_bytes(), b"\nS,p,"].concat();
    let (mut mand, mut rep) = (None, None);
    // one cell in any spelling, the other one lower case
    let free = pick(c"free", 2);
    for (i, c) in head.split(',').enumerate() {
        if i > 0 {
            csv.push(b',');
        }
        let v = flag(i, &mut csv, i == free);
        if c.starts_with(['m', 'M']) { mand = Some(v) } else { rep = Some(v) }
    }
    csv.push(b'\n');
    let Some(tap) = read(&csv) else { return check(false, c"read") };
    let Some(shape) = tap.shapes().next() else { return check(false, c"shape") };
    let Some(st) = shape.statements().next() else { return check(false, c"statement") };
    check(st.mandatory() == mand, c"mandatory");
    check(st.repeatable() == rep, c"repeatable");
    check(st.property_id().str() == "p", c"property");
    let Some(s) = convert(&tap) else { return check(false, c"converts") };
    let Some(r) = row(&s) else { return check(false, c"row") };
    check(r.pred == "http://e/p", c"predicate");
    check(r.expr.is_none(), c"no condition");
    if let Some(m) = mand {
        check(r.min == m as i32, c"minimum");
    }
    if let Some(m) = rep {
        check(r.max == if m { -1 } else { 1 }, c"maximum");
    }
    if form == 1 {
        cover(c"c27_flags");
    }
}
/// any other text of a flag is an error
#[unsafe(no_mangle)]
pub extern "C" fn c27_noflag() {
    let mut csv = [b"shapeID,propertyID,mandatory,repeatable\nS,p,".as_slice(), [b"".as_slice(), b"yes,"][pick(c"which", 2)]].concat();
    let n = 1 + pick(c"len", 3);
    let t = symrt::bytes(c"text", n, |b| b.is_ascii_graphic() && b != b',' && b != b'"');
    csv.extend_from_slice(&t);
    csv.push(b'\n');
    let up: Vec<u8> = t.iter().map(|b| b & !((b.is_ascii_lowercase() as u8) << 5)).collect();
    let eq = |w: &[u8]| up.len() == w.len() && up.iter().zip(w).fold(true, |a, (x, y)| a & (x == y));
    let known = eq(b"YES") | eq(b"NO") | eq(b"1") | eq(b"0");
    check(read(&csv).is_some() == known, c"only the spellings of a flag are read");
    cover(c"c27_noflag");
}

const KINDS: [(&str, [bool; 3]); 8] = [
    ("", [true; 3]),
    ("IRI", [true, false, false]),
    ("uri", [true, false, false]),
    ("BNode", [false, true, false]),
    ("literal", [false, false, true]),
    ("IRI bnode", [true, true, false]),
    ("bnode  LITERAL", [false, true, true]),
    ("iri bnode literal", [true; 3]),
];
const DTS: [(&str, [bool; 3]); 5] = [
    ("", [true; 3]),
    ("x:d0", [true, false, false]),
    ("x:d1", [false, true, false]),
    ("x:d0 x:d1", [true, true, false]),
    ("  x:d1 ", [false, true, false]),
];
/// constraint, its type, the listed values (None: no list), whether a pattern is asked for
const CONS: [(&str, &str, Option<[bool; 2]>, bool); 9] = [
    ("", "", None, false),
    ("v0", "", Some([true, false]), false),
    ("x:v1", "picklist", Some([false, true]), false),
    ("v0|x:v1", "PickList", Some([true, true]), false),
    ("x:v1|v0", "", Some([true, true]), false),
    ("v0|", "", Some([true, false]), false),
    ("a.c", "pattern", None, true),
    ("a.c", " Pattern ", None, true),
    ("", "picklist", None, false),
];
const REFS: [(&str, Option<[bool; 2]>); 4] =
    [("", None), ("S0", Some([true, false])), ("x:S1", Some([false, true])), ("S0 x:S1", Some([true, true]))];
fn cells(kind: usize, dt: usize, con: usize, sh: usize, quoted: bool) {
    let (k, kinds) = KINDS[kind];
    let (d, dts) = DTS[dt];
    let (c, ct, list, pattern) = CONS[con];
    let (s, refs) = REFS[sh];
    let q = if quoted { "\"" } else { "" };
    let csv = [
        "shapeID,propertyID,valueNodeType,valueDataType,valueConstraint,valueConstraintType,valueShape\nS,p,",
        k, ",", q, d, q, ",", q, c, q, ",", ct, ",", s, "\n",
    ]
    .concat();
    let Some(tap) = read(csv.as_bytes()) else { return check(false, c"read") };
    let Some(shape) = tap.shapes().next() else { return check(false, c"shape") };
    let Some(st) = shape.statements().next() else { return check(false, c"statement") };
    check(st.value_datatype().len() == d.split_whitespace().count(), c"datatypes");
    match st.value_constraint() {
        None => check(list.is_none() && !pattern, c"no value constraint"),
        Some(ValueConstraint::PickList(l)) => {
            check(l.len() == c.split_terminator('|').count() && list.is_some(), c"picklist")
        },
        Some(ValueConstraint::Pattern(p)) => check(pattern && p == PAT, c"pattern"),
        Some(_) => check(false, c"another constraint"),
    }
    let Some(sch) = convert(&tap) else { return check(false, c"converts") };
    let Some(r) = row(&sch) else { return check(false, c"row") };
    check(r.pred == "http://e/p", c"predicate");
    let v = val();
    let ok = match &r.expr {
        None => Some(true),
        Some(e) => accepts(e, &v),
    };
    let at = |a: &[bool], i: u32| a.iter().enumerate().fold(false, |acc, (n, b)| acc | (*b & (i == n as u32)));
    let expect = at(&kinds, v.kind)
        & at(&dts, v.dt)
        & list.map_or(true, |l| at(&l, v.is))
        & (v.pat | !pattern)
        & refs.map_or(true, |r| (r[0] & v.s[0]) | (r[1] & v.s[1]));
    check(ok.is_some(), c"only what the row says");
    check(ok.map_or(true, |b| b == expect), c"accepts the values the row describes");
}
/// every combination of node types, datatypes, value constraint and value shapes of a row
#[unsafe(no_mangle)]
pub extern "C" fn c27_cells() {
    let (k, d, c, s) = (pick(c"kinds", 5), pick(c"datatypes", 4), pick(c"constraint", 7), pick(c"shapes", 4));
    cells(k, d, c, s, false);
    if k == 3 && d == 3 && c == 3 {
        cover(c"c27_cells");
    }
}
/// one or two of these, in every spelling, quoted or not
#[unsafe(no_mangle)]
pub extern "C" fn c27_spellings() {
    let (k, d, c, s) = (pick(c"kinds", 8), pick(c"datatypes", 5), pick(c"constraint", 9), pick(c"shapes", 4));
    symrt::assume((k != 0) as u8 + (d != 0) as u8 + (c != 0) as u8 + (s != 0) as u8 <= 2);
    cells(k, d, c, s, pick(c"quoted", 2) == 1);
    if k == 7 && c == 8 {
        cover(c"c27_spellings");
    }
}
/// node types in any mixture of cases, and any other text of 3 letters
#[unsafe(no_mangle)]
pub extern "C" fn c27_kinds() {
    let mut csv = b"shapeID,propertyID,valueNodeType\nS,p,".to_vec();
    let k = pick(c"word", 5);
    let expect = if k < 4 {
        word(0, ["iri", "uri", "bnode", "literal"][k], &mut csv);
        Some([0, 0, 1, 2][k])
    } else {
        let t = symrt::bytes(c"text", 3, |b| b.is_ascii_alphabetic());
        csv.extend_from_slice(&t);
        let up: Vec<u8> = t.iter().map(|b| b & !0x20).collect();
        let known = ((up[0] == b'I') | (up[0] == b'U')) & (up[1] == b'R') & (up[2] == b'I');
        if symrt::concrete(known as u64) == 1 { Some(0) } else { None }
    };
    csv.push(b'\n');
    let tap = read(&csv);
    check(tap.is_some() == expect.is_some(), c"only node types are read");
    if let (Some(tap), Some(e)) = (tap, expect) {
        let Some(sch) = convert(&tap) else { return check(false, c"converts") };
        let Some(r) = row(&sch) else { return check(false, c"row") };
        let v = val();
        let ok = match &r.expr {
            None => Some(true),
            Some(e) => accepts(e, &v),
        };
        check(ok == Some(v.kind == e), c"node type");
        let st = tap.shapes().next().and_then(|s| s.statements().next().cloned());
        let read_kind = st.map(|s| match s.value_nodetype() {
            Some(NodeType::Basic(_)) => true,
            _ => false,
        });
        check(read_kind == Some(true), c"kept in the statement");
        cover(c"c27_kinds");
    }
}

/// tables of up to 3 rows: new shapes, rows without a shape, repeated shape names, empty and short rows,
/// columns in any of several orders
#[unsafe(no_mangle)]
pub extern "C" fn c27_rows() {
    table(3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c27_rows_x() {
    table(4)
}
fn table(rows_max: u32) {
    let order = pick(c"order", 3);
    let heads = ["shapeID,propertyID,mandatory,repeatable,note", "propertyID,note,shapeID,repeatable,mandatory", " ShapeId,other,PROPERTYID , mandatory,repeatable"];
    let mut csv = [heads[order], "\n"].concat();
    let n = 1 + pick(c"rows", rows_max);
    // the expected shapes: name, rows (predicate, mandatory, repeatable)
    let mut want: Vec<(String, Vec<(String, bool, bool)>)> = Vec::new();
    for i in 0..n {
        let kind = pick([c"row0", c"row1", c"row2", c"row3"][i], 5);
        let p = ["p", "x:q"][pick([c"p0", c"p1", c"p2", c"p3"][i], 2)];
        let mand = (i + kind) % 2 == 0;
        let name = match kind {
            0 => "A",
            1 => "x:B",
            2 => "", // continues the shape
            3 => " A ",
            _ => {
                // an empty row
                csv.push_str([",,,,\n", "\n", " , ,,,\n"][order]);
                continue;
            },
        };
        let (m, r) = (if mand { "1" } else { "0" }, if mand { "0" } else { "1" });
        let cells = match order {
            0 => [name, ",", p, ",", m, ",", r, ",\n"].concat(),
            1 => [p, ",\"a, b\n c\",", name, ",", r, ",", m, "\n"].concat(),
            _ => [name, ",,", p, ",", m, ",", r, "\r\n"].concat(),
        };
        csv.push_str(&cells);
        let iri = if p == "p" { "http://e/p" } else { "http://x/q" };
        let label = match kind {
            0 | 3 => Some("http://e/A"),
            1 => Some("http://x/B"),
            _ => None,
        };
        match (label, want.last_mut()) {
            (Some(l), Some((name, rows))) if name == l => rows.push((iri.to_string(), mand, !mand)),
            (Some(l), _) => want.push((l.to_string(), vec![(iri.to_string(), mand, !mand)])),
            (None, Some((_, rows))) => rows.push((iri.to_string(), mand, !mand)),
            // the table starts without a shape
            (None, None) => return,
        }
    }
    let Some(tap) = read(csv.as_bytes()) else { return check(false, c"read") };
    check(tap.shapes().count() == want.len(), c"shapes read");
    let Some(s) = convert(&tap) else { return check(false, c"converts") };
    let Some(got) = shapes(&s) else { return check(false, c"labels") };
    check(got.len() == want.len(), c"shapes");
    for ((name, se), (wname, wrows)) in got.iter().zip(&want) {
        check(name == wname, c"name");
        let Some(rs) = rows(se) else { return check(false, c"rows") };
        check(rs.len() == wrows.len(), c"number of rows");
        for (r, (p, m, rep)) in rs.iter().zip(wrows) {
            check(r.pred == *p, c"predicate");
            check(r.min == *m as i32, c"minimum");
            check(r.max == if *rep { -1 } else { 1 }, c"maximum");
        }
    }
    if want.len() == 2 && n == 3 {
        cover(c"c27_rows");
    }
}

/// the text of a cell is the text the table gives it, whatever two characters it contains
#[unsafe(no_mangle)]
pub extern "C" fn c27_text() {
    let t = symrt::bytes(c"text", 3, |b| b < 0x80);
    let mut csv = b"shapeID,propertyID,valueConstraint,valueConstraintType\nS,p,".to_vec();
    let quoted = pick(c"quoted", 2) == 1;
    let mut ok = true;
    if quoted {
        csv.push(b'"');
        for b in &t {
            csv.push(*b);
            if symrt::concrete((*b == b'"') as u64) == 1 {
                csv.push(b'"');
            }
        }
        csv.push(b'"');
    } else {
        for b in &t {
            ok &= (*b != b'"') & (*b != b',') & (*b != b'\n') & (*b != b'\r');
        }
        symrt::assume(ok);
        csv.extend_from_slice(&t);
    }
    csv.extend_from_slice(b",pattern\n");
    let Some(tap) = read(&csv) else { return check(false, c"read") };
    let Some(st) = tap.shapes().next().and_then(|s| s.statements().next().cloned()) else { return check(false, c"statement") };
    match st.value_constraint() {
        Some(ValueConstraint::Pattern(p)) => check(p.as_bytes() == &t[..], c"text of the cell"),
        _ => check(false, c"pattern"),
    }
    let Some(s) = convert(&tap) else { return check(false, c"converts") };
    let Some(r) = row(&s) else { return check(false, c"row") };
    let Some(ShapeExpr::NodeConstraint(nc)) = r.expr else { return check(false, c"node constraint") };
    match &nc.facets().unwrap_or_default()[..] {
        [XsFacet::StringFacet(shex_ast::ast::StringFacet::Pattern(p))] => check(p.str.as_bytes() == &t[..], c"text of the pattern"),
        _ => check(false, c"one facet"),
    }
    cover(c"c27_text");
}

/// any bytes in a table are read or reported
#[unsafe(no_mangle)]
pub extern "C" fn c27_any() {
    any(&[symrt::u8(c"t0"), symrt::u8(c"t1")])
}
#[unsafe(no_mangle)]
pub extern "C" fn c27_any_x() {
    any(&[symrt::u8(c"t0"), symrt::u8(c"t1"), symrt::u8(c"t2")])
}
fn any(t: &[u8]) {
    let frame = [
        ("", "shapeID,propertyID\nS,p\n"),
        ("shapeID,propertyID", "\nS,p\n"),
        ("shapeID,propertyID,mandatory\nS,p", ",1\n,q,0\n"),
        ("shapeID,propertyID\n", "S,p\nT,q\n"),
        ("shapeID,propertyID,valueDataType\nS,p,x:d", " x:e\n"),
    ][pick(c"place", 5)];
    let csv = [frame.0.as_bytes(), t, frame.1.as_bytes()].concat();
    if let Some(tap) = read(&csv) {
        cover(c"c27_any");
        if let Some(s) = convert(&tap) {
            check(s.shapes().unwrap_or_default().len() == tap.shapes().count(), c"a shape for each shape");
        }
    }
}
