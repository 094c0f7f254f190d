//! Harnesses over `pgschema`: C26.
use pgschema::boolean_expr::BooleanExpr as B;
use pgschema::card::{Card, Max};
use pgschema::edge_label_property_spec::EdgeLabelPropertySpec;
use pgschema::key::Key;
use pgschema::label_property_spec::LabelPropertySpec as L;
use pgschema::parser::pgs_builder::PgsBuilder;
use pgschema::pg::PropertyGraph;
use pgschema::pgs::PropertyGraphSchema;
use pgschema::property_value_spec::{PropertyValue as P, PropertyValueSpec, TypeSpec};
use pgschema::record::Record;
use pgschema::record_type::RecordType;
use pgschema::type_map::{Association, TypeMap};
use pgschema::value::Value;
use pgschema::value_type::ValueType as V;
use std::collections::HashSet;

/// a cardinality with the bounds it stands for (`None`: no upper bound)
fn card() -> (Card, u64, Option<u64>) {
    match symrt::pick(c"card", 6) {
        0 => (Card::ZeroOrOne, 0, Some(1)),
        1 => (Card::One, 1, Some(1)),
        2 => (Card::ZeroOrMore, 0, None),
        3 => (Card::OneOrMore, 1, None),
        4 => {
            let m = symrt::u64(c"min");
            (Card::range(m as usize, Max::Unbounded), m, None)
        }
        _ => {
            let (m, n) = (symrt::u64(c"min"), symrt::u64(c"max"));
            (Card::range(m as usize, Max::Bounded(n as usize)), m, Some(n))
        }
    }
}
fn within(n: u64, min: u64, max: Option<u64>) -> bool {
    (n >= min) & max.is_none_or(|m| n <= m)
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_card() {
    let (c, min, max) = card();
    let (d, min2, max2) = card();
    let n = symrt::u64(c"count");
    symrt::check(c.contains(n as usize) == within(n, min, max), c"count-in-cardinality");
    let both = within(n, min, max) & within(n, min2, max2);
    symrt::check(c.intersection(&d).contains(n as usize) == both, c"count-in-intersection");
    symrt::observe(both as u64);
}

/// a condition on an integer, with its truth value
fn cond(depth: usize, x: i32) -> (B, bool) {
    match symrt::pick(c"cond", if depth == 0 { 7 } else { 10 }) {
        0 => (B::True, true),
        1 => (B::False, false),
        k @ 2..7 => {
            let v = symrt::u32(c"bound") as i32;
            let val = Value::int(v);
            match k {
                2 => (B::Equals(val), x == v),
                3 => (B::GreaterThan(val), x > v),
                4 => (B::LessThan(val), x < v),
                5 => (B::GreaterThanOrEqual(val), x >= v),
                _ => (B::LessThanOrEqual(val), x <= v),
            }
        }
        7 => {
            let (a, x1) = cond(depth - 1, x);
            let (b, x2) = cond(depth - 1, x);
            (B::And(Box::new(a), Box::new(b)), x1 & x2)
        }
        8 => {
            let (a, x1) = cond(depth - 1, x);
            let (b, x2) = cond(depth - 1, x);
            (B::Or(Box::new(a), Box::new(b)), x1 | x2)
        }
        _ => {
            let (a, x1) = cond(depth - 1, x);
            (B::Not(Box::new(a)), !x1)
        }
    }
}
fn conds(depth: usize) {
    symrt::no_fmt(true);
    let x = symrt::u32(c"value") as i32;
    let (c, want) = cond(depth, x);
    match c.check(&Value::int(x)) {
        Ok(b) => symrt::check(b == want, c"condition"),
        Err(_) => symrt::check(false, c"no-error"),
    }
    symrt::observe(want as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_cond() {
    conds(1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_cond_x() {
    conds(2)
}
/// strings, dates and booleans
#[unsafe(no_mangle)]
pub extern "C" fn c26_cond_values() {
    let s = ["2024-02-29", "2024-03-01", "2023-12-31"];
    let (i, j) = (symrt::pick(c"value", 3), symrt::pick(c"bound", 3));
    let (x, y, ord) = match symrt::pick(c"type", 3) {
        0 => (Value::str(s[i]), Value::str(s[j]), false),
        1 => (Value::Bool(i == 0), Value::Bool(j == 0), false),
        _ => match (Value::date(s[i]), Value::date(s[j])) {
            (Ok(a), Ok(b)) => (a, b, true),
            _ => return symrt::check(false, c"no-error"),
        },
    };
    let rank = [1, 2, 0];
    let same = if let Value::Bool(_) = x { (i == 0) == (j == 0) } else { i == j };
    symrt::check(matches!(B::Equals(y.clone()).check(&x), Ok(b) if b == same), c"equals");
    let cases = [
        (B::GreaterThan(y.clone()), rank[i] > rank[j]),
        (B::LessThan(y.clone()), rank[i] < rank[j]),
        (B::GreaterThanOrEqual(y.clone()), rank[i] >= rank[j]),
        (B::LessThanOrEqual(y.clone()), rank[i] <= rank[j]),
    ];
    for (c, want) in cases {
        match c.check(&x) {
            Ok(b) => symrt::check(ord && b == want, c"comparison"),
            Err(_) => symrt::check(!ord, c"only-ordered-types"),
        }
    }
    symrt::observe(same as u64);
}

/// a value type, with whether a set of values has it
fn vtype(depth: usize, vals: &[Value]) -> (V, bool) {
    let all = |f: fn(&Value) -> bool| vals.iter().all(f);
    let n = vals.len() as u64;
    match symrt::pick(c"type", if depth == 0 { 6 } else { 8 }) {
        0 => (V::Any, true),
        1 => {
            let (c, lo, hi) = card();
            (V::string(c), within(n, lo, hi) & all(|v| matches!(v, Value::String(_))))
        }
        2 => {
            let (c, lo, hi) = card();
            (V::integer(c), within(n, lo, hi) & all(|v| matches!(v, Value::Integer(_))))
        }
        3 => {
            let (c, lo, hi) = card();
            (V::bool(c), within(n, lo, hi) & all(|v| matches!(v, Value::Bool(_))))
        }
        4 => {
            let (c, lo, hi) = card();
            (V::date(c), within(n, lo, hi) & all(|v| matches!(v, Value::Date(_))))
        }
        5 => {
            let b = symrt::u32(c"bound") as i32;
            let want = vals.iter().fold(true, |ok, v| ok & matches!(v, Value::Integer(i) if *i > b));
            (V::cond(B::GreaterThan(Value::int(b))), want)
        }
        6 => {
            let (a, x) = vtype(depth - 1, vals);
            let (b, y) = vtype(depth - 1, vals);
            (V::intersection(a, b), x & y)
        }
        _ => {
            let (a, x) = vtype(depth - 1, vals);
            let (b, y) = vtype(depth - 1, vals);
            (V::union(a, b), x | y)
        }
    }
}
fn types(depth: usize, sets: usize) {
    symrt::no_fmt(true);
    let (i, j, s, t) = (Value::int(3), Value::int(7), Value::str("a"), Value::Bool(true));
    let d = Value::date("2024-02-29").unwrap_or(Value::Bool(false));
    let all = [vec![i.clone()], vec![i.clone(), s.clone()], vec![s.clone()], vec![i.clone(), j], vec![], vec![t.clone()], vec![d.clone()], vec![s, t, d]];
    let vals = all[symrt::pick(c"values", sets as u32)].clone();
    let (v, want) = vtype(depth, &vals);
    let set: HashSet<Value> = vals.into_iter().collect();
    symrt::check(v.conforms(&set).is_right() == want, c"values-have-type");
    symrt::observe(want as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_type() {
    types(0, 8)
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_type2() {
    types(1, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_type2_x() {
    types(1, 8)
}

const KEYS: [&str; 3] = ["k", "l", "m"];
/// a record: each key absent, with an integer, with a string
fn record(n: usize) -> (Record, [usize; 3]) {
    let mut r = Record::new();
    let mut kinds = [0; 3];
    for k in 0..n {
        kinds[k] = symrt::pick(c"key", 3);
        match kinds[k] {
            1 => r.insert(Key::new(KEYS[k]), Value::int(3)),
            2 => r.insert(Key::new(KEYS[k]), Value::str("a")),
            _ => {}
        }
    }
    (r, kinds)
}
/// the types of a record: for each key none, integer, string, any
fn rtype(n: usize) -> (RecordType, [usize; 3], bool) {
    let mut t = RecordType::new();
    let mut kinds = [0; 3];
    for k in 0..n {
        kinds[k] = symrt::pick(c"key-type", 4);
        let v = match kinds[k] {
            0 => continue,
            1 => V::integer(Card::One),
            2 => V::string(Card::One),
            _ => V::Any,
        };
        t = t.with_key_value(KEYS[k], v);
    }
    let open = symrt::pick(c"open", 2) == 1;
    (if open { t.with_open() } else { t }, kinds, open)
}
fn has(ty: usize, val: usize) -> bool {
    match ty {
        0 => true,
        3 => val != 0,
        t => val == t,
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_record() {
    let (t, kt, open) = rtype(3);
    let (r, kr) = record(3);
    let want = (0..3).all(|k| has(kt[k], kr[k]) && (kr[k] == 0 || kt[k] != 0 || open));
    symrt::check(t.conforms(&r).is_right() == want, c"record-has-type");
    symrt::observe(want as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_combine() {
    let (t, kt, open) = rtype(2);
    let (u, ku, open2) = rtype(2);
    let (r, kr) = record(3);
    let want = (0..3).all(|k| has(kt[k], kr[k]) && has(ku[k], kr[k]) && (kr[k] == 0 || kt[k] != 0 || ku[k] != 0 || open || open2));
    symrt::check(t.combine(&u).conforms(&r).is_right() == want, c"record-has-both-types");
    symrt::observe(want as u64);
}

/// a property specification, with its alternatives: for each key, the types its value must have
/// (bit 0: the key is there, bit 1: an integer, bit 2: a string)
fn props(depth: usize) -> (P, Vec<[u8; 3]>) {
    match symrt::pick(c"props", if depth == 0 { 3 } else { 5 }) {
        k @ 0..3 => {
            let key = symrt::pick(c"key", 2);
            let mut a = [0; 3];
            if k == 1 {
                a[key] = 5;
                return (P::property(Key::new(KEYS[key]), TypeSpec::string(Card::One)), vec![a]);
            }
            a[key] = 3;
            let t = TypeSpec::integer(Card::One);
            match k {
                0 => (P::property(Key::new(KEYS[key]), t), vec![a]),
                _ => (P::optional_property(Key::new(KEYS[key]), t), vec![a, [0; 3]]),
            }
        }
        3 => {
            let (a, x) = props(depth - 1);
            let (b, y) = props(depth - 1);
            let z = x.iter().flat_map(|i| y.iter().map(move |j| [i[0] | j[0], i[1] | j[1], i[2] | j[2]])).collect();
            (P::each_of(a, b), z)
        }
        _ => {
            let (a, x) = props(depth - 1);
            let (b, y) = props(depth - 1);
            (P::one_of(a, b), [x, y].concat())
        }
    }
}
fn matches_props(alts: &[[u8; 3]], r: &[usize; 3], open: bool) -> bool {
    alts.iter().any(|a| {
        (0..3).all(|k| {
            let want = match a[k] {
                0 => r[k] == 0 || open,
                3 => r[k] == 1,
                5 => r[k] == 2,
                _ => false,
            };
            want
        })
    })
}
/// a label specification, with the sets of labels it accepts
fn labels(depth: usize) -> (L, Vec<u8>) {
    let name = ["A", "B", "R"];
    match symrt::pick(c"labels", if depth == 0 { 2 } else { 4 }) {
        0 => {
            let i = symrt::pick(c"label", 2);
            (L::label(name[i].to_string()), vec![1 << i])
        }
        1 => (L::ref_("R".to_string()), vec![3, 4]),
        2 => {
            let (a, x) = labels(depth - 1);
            let (b, y) = labels(depth - 1);
            (L::and(a, b), x.iter().flat_map(|i| y.iter().map(move |j| i | j)).collect())
        }
        _ => {
            let (a, x) = labels(depth - 1);
            let (b, y) = labels(depth - 1);
            (L::or(a, b), [x, y].concat())
        }
    }
}
/// `R`: (A and B) or C
fn schema() -> PropertyGraphSchema {
    let mut s = PropertyGraphSchema::new();
    let l = |x: &str| L::label(x.to_string());
    let _ = s.add_node_spec("R", L::or(L::and(l("A"), l("B")), l("C")));
    s
}
fn label_set() -> (Vec<String>, u8) {
    let m = symrt::pick(c"label-set", 8) as u8;
    ((0..3).filter(|i| m >> i & 1 == 1).map(|i| ["A", "B", "C"][i].to_string()).collect(), m)
}
fn conforms(s: &PropertyGraphSchema, ls: Vec<String>, r: Record) -> bool {
    let mut g = PropertyGraph::new();
    g.add_node("n".to_string(), ls, r);
    let mut map = TypeMap::new();
    map.add_association(Association::new("n".to_string(), "T".to_string()));
    match map.validate(s, &g) {
        Ok(v) => {
            symrt::check(v.associations.len() == 1, c"one-result");
            v.associations[0].conforms
        }
        Err(_) => {
            symrt::check(false, c"no-error");
            false
        }
    }
}
fn nodes(depth: usize, n: usize) {
    let mut s = schema();
    let (p, alts) = props(depth);
    let open = symrt::pick(c"open", 2) == 1;
    let p = if open { PropertyValueSpec::open(p) } else { PropertyValueSpec::closed(p) };
    let _ = s.add_node_spec("T", L::content(L::label("A".to_string()), p));
    let (r, kr) = record(n);
    let l = symrt::pick(c"right-label", 2) == 1;
    let want = l && matches_props(&alts, &kr, open);
    let ls = vec![if l { "A" } else { "B" }.to_string()];
    symrt::check(conforms(&s, ls, r) == want, c"node-conforms");
    symrt::observe(want as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_props() {
    nodes(1, 3)
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_props_x() {
    nodes(2, 2)
}
fn label_specs(depth: usize) {
    let mut s = schema();
    let (l, sets) = labels(depth);
    let with = symrt::pick(c"with-properties", 2) == 1;
    let p = PropertyValueSpec::closed(P::property(Key::new("k"), TypeSpec::integer(Card::One)));
    let _ = s.add_node_spec("T", if with { L::content(l, p) } else { l });
    let (ls, m) = label_set();
    let (r, kr) = record(1);
    let want = sets.contains(&m) && if with { kr[0] == 1 } else { kr[0] == 0 };
    symrt::check(conforms(&s, ls, r) == want, c"node-conforms");
    symrt::observe(want as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_labels() {
    label_specs(1)
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_labels_x() {
    label_specs(2)
}
/// specifications without labels
#[unsafe(no_mangle)]
pub extern "C" fn c26_unlabelled() {
    let mut s = schema();
    let p = PropertyValueSpec::closed(P::property(Key::new("k"), TypeSpec::integer(Card::One)));
    let (l, ok): (L, fn(u8, usize) -> bool) = match symrt::pick(c"spec", 3) {
        0 => (L::new(), |m, k| m == 0 && k == 0),
        1 => (L::content(L::new(), p), |m, k| m == 0 && k == 1),
        _ => (L::optional(L::label("A".to_string())), |m, k| m < 2 && k == 0),
    };
    let _ = s.add_node_spec("T", l);
    let (ls, m) = label_set();
    let (r, kr) = record(1);
    symrt::check(conforms(&s, ls, r) == ok(m, kr[0]), c"node-conforms");
    symrt::observe(ok(m, kr[0]) as u64);
}
/// an edge conforms when it, its source and its target do
#[unsafe(no_mangle)]
pub extern "C" fn c26_edge() {
    let l = |x: &str| L::label(x.to_string());
    let p = || PropertyValueSpec::closed(P::property(Key::new("k"), TypeSpec::integer(Card::One)));
    let mut s = schema();
    let edge = EdgeLabelPropertySpec::new(L::content(l("E"), p()));
    let _ = s.add_edge_spec("T", L::content(l("A"), p()), edge, l("B"));
    let mut g = PropertyGraph::new();
    let src = symrt::pick(c"source", 3);
    let with = |k: usize| if k == 2 { Record::new().with_key_value("k", Value::int(3)) } else { Record::new() };
    let e = symrt::pick(c"edge", 3);
    let t = symrt::pick(c"target", 3);
    g.add_node("s".to_string(), vec![if src == 0 { "B" } else { "A" }.to_string()], with(src));
    g.add_node("t".to_string(), vec![if t == 0 { "A" } else { "B" }.to_string()], with(t));
    let (s_, t_) = ("s".to_string(), "t".to_string());
    let label = vec![if e == 0 { "F" } else { "E" }.to_string()];
    let added = g.add_edge(Some("e".to_string()), s_, label, with(e), t_);
    symrt::check(added.is_ok(), c"no-error");
    let mut map = TypeMap::new();
    map.add_association(Association::new("e".to_string(), "T".to_string()));
    let want = src == 2 && e == 2 && t == 1;
    match map.validate(&s, &g) {
        Ok(v) => symrt::check(v.associations.len() == 1 && v.associations[0].conforms == want, c"edge-conforms"),
        Err(_) => symrt::check(false, c"no-error"),
    }
    symrt::observe(want as u64);
}
/// the text of a property specification, with its alternatives (as in `props`)
fn props_text(depth: usize) -> (String, Vec<[u8; 3]>) {
    match symrt::pick(c"props", if depth == 0 { 3 } else { 5 }) {
        k @ 0..3 => {
            let key = symrt::pick(c"key", 2);
            let mut a = [0; 3];
            a[key] = if k == 1 { 5 } else { 3 };
            let opt = if k == 2 { "OPTIONAL " } else { "" };
            let ty = if k == 1 { "STRING" } else { "INTEGER" };
            (format!("{opt}{}: {ty}", KEYS[key]), if k == 2 { vec![a, [0; 3]] } else { vec![a] })
        }
        3 => {
            let (a, x) = props_text(depth - 1);
            let (b, y) = props_text(depth - 1);
            let z = x.iter().flat_map(|i| y.iter().map(move |j| [i[0] | j[0], i[1] | j[1], i[2] | j[2]])).collect();
            (format!("({a}, {b})"), z)
        }
        _ => {
            let (a, x) = props_text(depth - 1);
            let (b, y) = props_text(depth - 1);
            (format!("({a} || {b})"), [x, y].concat())
        }
    }
}
fn labels_text(depth: usize) -> (String, Vec<u8>) {
    match symrt::pick(c"labels", if depth == 0 { 2 } else { 4 }) {
        0 => {
            let i = symrt::pick(c"label", 2);
            (["A", "B"][i].to_string(), vec![1 << i])
        }
        1 => ("@R".to_string(), vec![3, 4]),
        2 => {
            let (a, x) = labels_text(depth - 1);
            let (b, y) = labels_text(depth - 1);
            (format!("({a} & {b})"), x.iter().flat_map(|i| y.iter().map(move |j| i | j)).collect())
        }
        _ => {
            let (a, x) = labels_text(depth - 1);
            let (b, y) = labels_text(depth - 1);
            (format!("({a} | {b})"), [x, y].concat())
        }
    }
}
fn parsed(text: &str) -> Option<PropertyGraphSchema> {
    let s = PgsBuilder::new().parse_pgs(text);
    symrt::check(s.is_ok(), c"schema-is-read");
    s.ok()
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_text_props() {
    let (p, alts) = props_text(1);
    let Some(s) = parsed(&format!("CREATE NODE TYPE (T : A {{ {p} }})")) else { return };
    let (r, kr) = record(2);
    let want = matches_props(&alts, &kr, false);
    symrt::check(conforms(&s, vec!["A".to_string()], r) == want, c"node-conforms");
    symrt::observe(want as u64);
}
#[unsafe(no_mangle)]
pub extern "C" fn c26_text_labels() {
    let with = symrt::pick(c"with-properties", 2) == 1;
    let (l, sets) = match symrt::pick(c"with-labels", 2) {
        0 => (String::new(), vec![0]),
        _ => {
            let (l, sets) = labels_text(1);
            (format!(": {l}"), sets)
        }
    };
    let p = if with { "{ k: INTEGER }" } else { "" };
    let Some(s) = parsed(&format!("CREATE NODE TYPE (T {l} {p}); CREATE NODE TYPE (R : (A & B) | C)")) else { return };
    let (ls, m) = label_set();
    let (r, kr) = record(1);
    let want = sets.contains(&m) && if with { kr[0] == 1 } else { kr[0] == 0 };
    symrt::check(conforms(&s, ls, r) == want, c"node-conforms");
    symrt::observe(want as u64);
}
/// types joined by one operator, with cardinalities and conditions
#[unsafe(no_mangle)]
pub extern "C" fn c26_text_types() {
    let op = symrt::pick(c"operator", 2);
    let n = 1 + symrt::pick(c"types", 3);
    let sets = [vec![Value::int(3)], vec![Value::int(3), Value::int(7)], vec![Value::str("a")], vec![Value::Bool(true)]];
    let vals = sets[symrt::pick(c"values", 4)].clone();
    let (mut text, mut want) = (vec![], op == 0);
    for _ in 0..n {
        let (t, ok): (&str, fn(&Value) -> bool) = [
            ("INTEGER", (|v| matches!(v, Value::Integer(_))) as fn(&Value) -> bool),
            ("STRING", |v| matches!(v, Value::String(_))),
            ("BOOL", |v| matches!(v, Value::Bool(_))),
        ][symrt::pick(c"type", 3)];
        let mut ok = vals.iter().all(ok);
        // with several types, cardinalities only for the first
        let (c, cards) = if text.is_empty() {
            [("", 1..2), (" ?", 0..2), (" +", 1..9), (" *", 0..9), (" {2,*}", 2..9), (" {1,1}", 1..2)][symrt::pick(c"card", if n == 1 { 6 } else { 1 })].clone()
        } else {
            ("", 1..2)
        };
        ok &= cards.contains(&vals.len());
        let mut t = format!("{t}{c}");
        if n == 1 {
            let (c, f): (&str, fn(i32) -> bool) = [
                ("", (|_| true) as fn(i32) -> bool),
                (" CHECK > 3", |i| i > 3),
                (" CHECK >= 3 AND < 7", |i| (3..7).contains(&i)),
                (" CHECK < 3 OR > 6", |i| i < 3 || i > 6),
                (" CHECK NOT = 3", |i| i != 3),
                (" CHECK <= 3", |i| i <= 3),
            ][symrt::pick(c"check", if t.starts_with("INTEGER") { 6 } else { 1 })];
            t += c;
            ok &= vals.iter().all(|v| if let Value::Integer(i) = v { f(*i) } else { true });
        }
        text.push(t);
        want = if op == 0 { want & ok } else { want | ok };
    }
    let text = text.join([" & ", " | "][op]);
    let Some(s) = parsed(&format!("CREATE NODE TYPE (T : A {{ k: {text} }})")) else { return };
    let mut r = Record::new();
    vals.into_iter().for_each(|v| r.insert(Key::new("k"), v));
    symrt::check(conforms(&s, vec!["A".to_string()], r) == want, c"node-conforms");
    symrt::observe(want as u64);
}
