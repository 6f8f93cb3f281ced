//! C17: groupings read from JSON
use crate::{c13::{groups, G}, model::*, sym::*};
use fbas_analyzer::*;
/// commas go, and then one full stop at the end
fn clean(s: &str) -> String { let mut t: String = s.chars().filter(|&c| c != ',').collect(); if t.ends_with('.') { t.pop(); } t }
fn word(max: u64) -> String { const C: [char; 6] = ['a', 'B', ',', '.', 'é', ' ']; let n = pick(max + 1); (0..n).map(|_| C[pick(6) as usize]).collect() }
/// nodes with or without a name; `country`: the name is in the geo data
fn text(names: &[Option<String>], country: bool) -> String {
    let mut s = String::from("[");
    for (i, n) in names.iter().enumerate() {
        if i > 0 { s.push(',') }
        s.push_str("{\"publicKey\":\""); s.push_str(&key(i)); s.push('"');
        match (n, country) {
            (Some(n), false) => { s.push_str(",\"isp\":\""); s.push_str(n); s.push_str("\",\"geoData\":{\"countryName\":\"Z\"}") }
            (Some(n), true) => { s.push_str(",\"geoData\":{\"countryCode\":\"XX\",\"countryName\":\""); s.push_str(n); s.push_str("\"},\"isp\":\"Z\"") }
            (None, false) => if i % 2 == 0 { s.push_str(",\"isp\":null") },
            (None, true) => if i % 2 == 0 { s.push_str(",\"geoData\":{}") },
        }
        s.push('}');
    }
    s.push(']'); s
}
/// the groups, in order of their names
fn same(g: &Groupings, want: &[(String, Vec<usize>)], n: usize, f: &Fbas) {
    check(g.number_of_groupings() == want.len(), 1);
    for i in 0..n {
        let w = want.iter().find(|(_, v)| v.contains(&i));
        check(g.get_by_member(i).is_some() == w.is_some(), 2);
        if let Some((name, v)) = w {
            check(g.get_by_member(i) == g.get_by_name(name), 3);
            for j in 0..n { check((g.merge_node(i) == g.merge_node(j)) == v.contains(&j), 4) }
        } else { check(g.merge_node(i) == i, 5) }
    }
    let mut s = String::from("["); for (k, (name, v)) in want.iter().enumerate() { if k > 0 { s.push(',') } s.push_str("{\"name\":\""); s.push_str(name); s.push_str("\",\"validators\":["); for (k, &i) in v.iter().enumerate() { if k > 0 { s.push(',') } s.push('"'); s.push_str(&key(i)); s.push('"') } s.push_str("]}") } s.push(']');
    let got = serde_json::to_string(g).unwrap();
    check(got == s, 6);
    check(Groupings::from_json_str(&got, f) == *g, 7);
    obs(got.len() as u64);
}
fn nodes(names: Vec<Option<String>>, country: bool, fewer: usize) {
    let n = names.len() - fewer;
    let f = Fbas::new_generic_unconfigured(n); // the last nodes of the text may be unknown
    let t = text(&names, country);
    let g = if country { Groupings::countries_from_json_str(&t, &f) } else { Groupings::isps_from_json_str(&t, &f) };
    let mut want: Vec<(String, Vec<usize>)> = vec![];
    for (i, x) in names.iter().enumerate() { if let Some(x) = x { let c = clean(x); let k = match want.iter().position(|w| w.0 == c) { Some(k) => k, None => { want.push((c, vec![])); want.len() - 1 } }; if i < n { want[k].1.push(i) } } }
    want.sort();
    if want.len() > 0 { reach(1) }
    same(&g, &want, n, &f);
}
fn orgs(n: usize) {
    let f = Fbas::new_generic_unconfigured(n);
    let g = groups(n, 3, flip());
    let ids: Vec<usize> = (0..n).collect();
    let mut t = g.json(&ids);
    if flip() { t.insert_str(1, "{\"id\":\"x\",\"name\":\"other\",\"validators\":[\"nobody\"]}"); if g.members.len() > 0 { let l = t.find('}').unwrap(); t.insert(l + 1, ',') } }
    let other = t.contains("other");
    let gr = Groupings::organizations_from_json_str(&t, &f);
    check(gr == Groupings::from_json_str(&t, &f), 8);
    let mut want: Vec<(String, Vec<usize>)> = g.members.iter().enumerate().map(|(k, m)| { let mut s = String::from("g"); num(&mut s, k); (s, m.clone()) }).collect();
    if other { want.insert(0, (String::from("other"), vec![])) }
    if want.len() > 0 { reach(1) }
    same(&gr, &want, n, &f);
}
fn opt(max: u64) -> Option<String> { if flip() { Some(word(max)) } else { None } }
/// a file holds the same as its text
fn file() { crate::vfs::with(|| {
    let names: Vec<Option<String>> = (0..3).map(|_| opt(1)).collect(); let country = flip(); let t = text(&names, country);
    let f = F::new(vec![none(); 3]).fbas(); let p = std::path::Path::new("x.json"); crate::vfs::put("x.json", t.as_bytes()); reach(1); obs(t.len() as u64);
    let (a, b) = if country { (Groupings::countries_from_json_file(p, &f), Groupings::countries_from_json_str(&t, &f)) } else { (Groupings::isps_from_json_file(p, &f), Groupings::isps_from_json_str(&t, &f)) };
    check(a == b, 20); let s = serde_json::to_string(&a).unwrap(); check(s == serde_json::to_string(&b).unwrap(), 21);
    crate::vfs::put("x.json", s.as_bytes()); check(Groupings::from_json_file(p, &f) == b, 22); check(Groupings::organizations_from_json_file(p, &f) == b, 23);
}) }
entries! {
    c17_file => file();
    c17_isp2 => nodes(vec![opt(2), opt(2)], false, 0);
    c17_isp1 => nodes(vec![Some(word(4)), Some(String::from("a"))], false, 0);
    c17_isp3 => nodes(vec![opt(1), opt(1), opt(1)], false, 0);
    c17_country2 => nodes(vec![opt(2), opt(2)], true, 0);
    c17_country3 => nodes(vec![opt(1), opt(1), opt(1)], true, 0);
    c17_unknown => nodes(vec![opt(1), opt(1), opt(1)], flip(), 1);
    c17_many => { let k = 1 + pick(4) as usize; nodes((0..40).map(|i| if i % 7 == 6 { None } else { Some("x".repeat(i % (4 * k) * 9)) }).collect(), flip(), 3) };
    c17_orgs => orgs(4);
}
nomenu!();
