//! Test cases TLC prints: <<"C", name, ..., <<numbers>>, ...>>: the names, then the number sequences.
use crate::rec::intern;

#[derive(Clone, Debug)]
pub struct Case {
    pub names: Vec<&'static str>,
    pub nums: Vec<Vec<i32>>,
}

pub fn load(args: &crate::rt::Args) -> std::sync::Arc<Vec<Case>> {
    let mut v = vec![];
    for g in &args.graphs {
        for line in std::fs::read_to_string(g).unwrap().lines() {
            if let Some(l) = line.strip_prefix("\"<<\\\"C\\\", ") {
                v.push(parse(l.strip_suffix(">>\"").unwrap_or_else(|| panic!("bad case {line}"))));
            }
        }
    }
    // TLC's workers print in any order
    v.sort_by(|a, b| (&a.names, &a.nums).cmp(&(&b.names, &b.nums)));
    println!("GRAPH cases {}", v.len());
    std::sync::Arc::new(v)
}
fn parse(l: &str) -> Case {
    let mut c = Case { names: vec![], nums: vec![] };
    let mut rest = l.trim();
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("\\\"") {
            let e = r.find("\\\"").unwrap();
            c.names.push(intern(&r[..e]));
            rest = &r[e + 2..];
        } else if let Some(r) = rest.strip_prefix("<<") {
            let e = r.find(">>").unwrap();
            c.nums.push(r[..e].split(',').map(|t| t.trim()).filter(|t| !t.is_empty()).map(|t| t.parse().unwrap_or_else(|_| panic!("bad case {l}"))).collect());
            rest = &r[e + 2..];
        } else {
            panic!("bad case {l}");
        }
        rest = rest.trim_start_matches(',').trim_start();
    }
    c
}
