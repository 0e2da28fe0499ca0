//! C04-C07: the file tree against an independent model.
use crate::build::{fst_of, to_fst};
use crate::oracle::*;
use crate::{ensure, step, R};
use disc_riider::{Fst, FstNode, FstToBytes};
use std::io::Cursor;

fn from_fst(t: &[FstNode]) -> Vec<Tree> {
    t.iter()
        .map(|n| match n {
            FstNode::File { name, offset, length } => Tree::F { name: name.clone(), off: *offset, len: *length },
            FstNode::Directory { name, files } => Tree::D { name: name.clone(), kids: from_fst(files) },
        })
        .collect()
}
fn tree_of(f: &Fst) -> Vec<Tree> {
    from_fst(f.get_entries())
}

const NAMES: &[&str] = &["a", "A", "ab", "AB", "aB", "a.b", "b", "B", "z", "Z", "[", "_", "~", "0", "a0", "a_", "aA", "ｱ", "データ", "表", "ソ", "a b", "-", "á?", "x.bin", "X.BIN", "m", "n", "data", "Data", "DATA2", "{", "@", "`"];

fn name(r: &mut Rng) -> String {
    let mut s = r.pick(NAMES).to_string();
    if s == "á?" {
        s = "ア".into();
    }
    if r.chance(1, 3) {
        s.push_str(*r.pick(&["1", "2", "Z", "_", "漢", "-x"]));
    }
    s
}

/// any tree, duplicates and disorder included
fn tree(r: &mut Rng, depth: u32, files: bool) -> Vec<Tree> {
    let n = if depth == 0 { r.below(8) } else { r.below(5) };
    (0..n)
        .map(|_| {
            let nm = name(r);
            if depth < 5 && r.chance(2, 5) {
                Tree::D { name: nm, kids: tree(r, depth + 1, files) }
            } else {
                Tree::F { name: nm, off: (r.next() as u32 as u64) * 4, len: r.next() as u32 }
            }
        })
        .collect()
}

fn show(t: &[Tree]) -> String {
    t.iter()
        .map(|n| match n {
            Tree::F { name, .. } => name.clone(),
            Tree::D { name, kids } => format!("{name}/({})", show(kids)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn c04(r: &mut Rng, case: u64) -> R {
    if case % 10 == 9 {
        // names that cannot be represented
        let bad = *r.pick(&["é", "\u{a5}", "\u{203e}", "\u{2212}", "😀", "x\u{a5}y", "ñ", "한"]);
        let mut t = tree(r, 1, true);
        let at = r.below(t.len() as u64 + 1) as usize;
        let node = Tree::F { name: bad.into(), off: 0, len: 1 };
        if r.chance(1, 2) {
            t.insert(at, node);
        } else {
            t.insert(at, Tree::D { name: "d".into(), kids: vec![node] });
        }
        step!("tree {} with a name Shift-JIS cannot hold", show(&t));
        step!("serialise");
        return match FstToBytes::try_from(fst_of(&t)) {
            Err(_) => Ok(()),
            Ok(fb) => {
                let mut w = Cursor::new(Vec::new());
                fb.write_to(&mut w).map_err(|e| format!("{e:?}"))?;
                let back = fst_parse(&w.into_inner())?;
                ensure!(back.0 == t, "name {bad:?} was silently replaced: {}", show(&back.0));
                Ok(())
            }
        };
    }
    let t = tree(r, 0, true);
    step!("tree {}", show(&t));
    let fst = fst_of(&t);
    let fb = FstToBytes::try_from(fst.clone()).map_err(|e| format!("representable names rejected: {e}"))?;
    let at = r.below(3) * 7;
    let junk = r.bytes(at as usize);
    let mut w = Cursor::new(junk.clone());
    w.set_position(at);
    fb.write_to(&mut w).map_err(|e| format!("write_to: {e:?}"))?;
    ensure!(w.position() == w.get_ref().len() as u64, "the stream is not left at the end of the table");
    let mut bytes = w.into_inner();
    ensure!(bytes[..at as usize] == junk[..], "bytes before the table changed");
    step!("{} bytes", bytes.len());
    let (got, last) = fst_parse(&bytes[at as usize..])?;
    ensure!(got == t, "the table written describes another tree: {}", show(&got));
    ensure!(last + at as usize <= bytes.len(), "the last name reaches past the end of the table");
    // parse with trailing data, own and foreign tables
    bytes.extend_from_slice(&r.bytes(5));
    let back = Fst::read(&mut Cursor::new(&bytes), at).map_err(|e| format!("own table rejected: {e:?}"))?;
    ensure!(tree_of(&back) == t, "parsing the written table gives another tree: {}", show(&tree_of(&back)));
    let foreign = fst_bytes(&t);
    let back = Fst::read(&mut Cursor::new(&foreign), 0).map_err(|e| format!("table rejected: {e:?}"))?;
    ensure!(tree_of(&back) == t, "parsing a table of the same tree gives {}", show(&tree_of(&back)));
    Ok(())
}

fn lower(s: &str) -> Vec<u8> {
    s.bytes().map(|b| b.to_ascii_lowercase()).collect()
}
/// the order the console wants: case-insensitive byte order, a prefix first
fn cmp(a: &str, b: &str) -> std::cmp::Ordering {
    lower(a).cmp(&lower(b))
}
fn sorted(t: &[Tree]) -> bool {
    t.windows(2).all(|w| cmp(w[0].name(), w[1].name()) != std::cmp::Ordering::Greater)
        && t.iter().all(|n| match n {
            Tree::D { kids, .. } => sorted(kids),
            _ => true,
        })
}
/// model of the addition: None = path runs through a file
fn madd(t: &mut Vec<Tree>, path: &[String], node: Tree) -> Result<Option<Tree>, ()> {
    match path.split_first() {
        None => {
            for i in 0..t.len() {
                if lower(t[i].name()) == lower(node.name()) {
                    return Ok(Some(std::mem::replace(&mut t[i], node)));
                }
            }
            let i = t.iter().position(|n| cmp(n.name(), node.name()) == std::cmp::Ordering::Greater).unwrap_or(t.len());
            t.insert(i, node);
            Ok(None)
        }
        Some((p, rest)) => {
            for i in 0..t.len() {
                if lower(t[i].name()) == lower(p) {
                    return match &mut t[i] {
                        Tree::D { kids, .. } => madd(kids, rest, node),
                        Tree::F { .. } => Err(()),
                    };
                }
            }
            let mut kids = Vec::new();
            let res = madd(&mut kids, rest, node);
            let i = t.iter().position(|n| cmp(n.name(), p) == std::cmp::Ordering::Greater).unwrap_or(t.len());
            t.insert(i, Tree::D { name: p.clone(), kids });
            res
        }
    }
}
fn path_str(r: &mut Rng, p: &[String]) -> String {
    let mut s = String::new();
    if r.chance(1, 3) {
        s.push('/');
    }
    for (i, c) in p.iter().enumerate() {
        if i > 0 {
            s.push_str(if r.chance(1, 6) { "//" } else { "/" });
        }
        s.push_str(c);
    }
    if r.chance(1, 5) {
        s.push('/');
    }
    s
}
fn flat(t: &[Tree], path: &mut Vec<String>, out: &mut Vec<String>) {
    for n in t {
        path.push(n.name().to_string());
        match n {
            Tree::F { off, len, .. } => out.push(format!("{} {off} {len}", path.join("/"))),
            Tree::D { kids, .. } => {
                out.push(format!("{}/", path.join("/")));
                flat(kids, path, out)
            }
        }
        path.pop();
    }
}

pub fn c05(r: &mut Rng, case: u64) -> R {
    if case % 3 == 2 {
        let t = tree(r, 0, true);
        step!("reorder {}", show(&t));
        step!("fix_ordering");
        let mut f = fst_of(&t);
        f.fix_ordering();
        let g = tree_of(&f);
        ensure!(sorted(&g), "not in order after fix_ordering: {}", show(&g));
        let (mut a, mut b) = (vec![], vec![]);
        flat(&t, &mut vec![], &mut a);
        flat(&g, &mut vec![], &mut b);
        a.sort();
        b.sort();
        ensure!(a == b, "fix_ordering changed the nodes: {}", show(&g));
        return Ok(());
    }
    let mut f = Fst::new();
    let mut m: Vec<Tree> = Vec::new();
    if case % 3 == 1 {
        let t = tree(r, 1, true);
        f = fst_of(&t);
        f.fix_ordering();
        m = tree_of(&f);
        fn dup(t: &[Tree]) -> bool {
            t.iter().enumerate().any(|(i, a)| t[..i].iter().any(|b| lower(a.name()) == lower(b.name())) || matches!(a, Tree::D { kids, .. } if dup(kids)))
        }
        if dup(&m) {
            f = Fst::new();
            m.clear();
        }
    }
    let narrow = r.chance(1, 2);
    for k in 0..(3 + r.below(20)) {
        let depth = r.below(4);
        let nm = |r: &mut Rng| if narrow { r.pick(&["a", "A", "b", "B", "ab", "c", "_"]).to_string() } else { name(r) };
        let p: Vec<String> = (0..depth).map(|_| nm(r)).collect();
        let n = nm(r);
        let node = if r.chance(1, 5) {
            Tree::D { name: n, kids: if r.chance(1, 2) { vec![Tree::F { name: "in".into(), off: 4, len: k as u32 }] } else { vec![] } }
        } else {
            Tree::F { name: n, off: 8 * k, len: k as u32 }
        };
        let s = path_str(r, &p);
        step!("add {} under {s:?}", show(std::slice::from_ref(&node)));
        let before = m.clone();
        let want = madd(&mut m, &p, node.clone());
        if want.is_err() {
            m = before;
        }
        let got = f.add_node_path(&s, to_fst(&[node]).pop().unwrap());
        match (&got, &want) {
            (Err(()), Err(())) => {}
            (Ok(a), Ok(b)) => {
                let a: Option<Tree> = a.as_ref().map(|n| from_fst(std::slice::from_ref(n)).pop().unwrap());
                ensure!(a == *b, "add returned {a:?}, the node replaced is {b:?}");
            }
            _ => return Err(format!("add returned {got:?}, expected {want:?}")),
        }
        let g = tree_of(&f);
        ensure!(g == m, "tree is now {}, expected {}", show(&g), show(&m));
        ensure!(sorted(&g), "tree out of order: {}", show(&g));
    }
    Ok(())
}

fn mfind<'a>(t: &'a [Tree], p: &[String]) -> Option<&'a Tree> {
    let (h, rest) = p.split_first()?;
    let n = t.iter().find(|n| n.name() == h)?;
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        Tree::D { kids, .. } => mfind(kids, rest),
        _ => None,
    }
}
fn mfind_mut<'a>(t: &'a mut Vec<Tree>, p: &[String]) -> Option<&'a mut Tree> {
    let (h, rest) = p.split_first()?;
    let n = t.iter_mut().find(|n| n.name() == h)?;
    if rest.is_empty() {
        return Some(n);
    }
    match n {
        Tree::D { kids, .. } => mfind_mut(kids, rest),
        _ => None,
    }
}
fn mremove(t: &mut Vec<Tree>, p: &[String]) -> Option<Tree> {
    let (h, rest) = p.split_first()?;
    let i = t.iter().position(|n| n.name() == h)?;
    if rest.is_empty() {
        return Some(t.remove(i));
    }
    match &mut t[i] {
        Tree::D { kids, .. } => mremove(kids, rest),
        _ => None,
    }
}
fn paths(t: &[Tree], cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    for n in t {
        cur.push(n.name().into());
        out.push(cur.clone());
        if let Tree::D { kids, .. } = n {
            paths(kids, cur, out);
        }
        cur.pop();
    }
}

pub fn c06(r: &mut Rng, _case: u64) -> R {
    let mut m = tree(r, 0, true);
    step!("tree {}", show(&m));
    let mut f = fst_of(&m);
    let one = |n: &FstNode| from_fst(std::slice::from_ref(n)).pop().unwrap();
    for k in 0..(4 + r.below(12)) {
        let mut ps = Vec::new();
        paths(&m, &mut vec![], &mut ps);
        let mut p = if ps.is_empty() { vec![] } else { r.pick(&ps).clone() };
        match r.below(6) {
            0 => p.push(name(r)),
            1 if !p.is_empty() => {
                let i = r.below(p.len() as u64) as usize;
                p[i] = if r.chance(1, 2) { name(r) } else { p[i].to_uppercase() };
            }
            2 => {
                p.pop();
            }
            _ => {}
        }
        let s = path_str(r, &p);
        match r.below(3) {
            0 => {
                step!("find {s:?}");
                let g = f.find_node_path(&s).map(one);
                let w = mfind(&m, &p).cloned();
                ensure!(g == w, "find {s:?} gave {g:?}, expected {w:?}");
                let g = f.find_node_iter(p.iter().map(|x| x.as_str())).map(one);
                ensure!(g == w, "find by components {p:?} gave {g:?}, expected {w:?}");
            }
            1 => {
                step!("find {s:?} and rename");
                let new = format!("new{k}");
                let g = f.find_node_path_mut(&s).map(|n| {
                    let o = one(n);
                    match n {
                        FstNode::File { name, length, .. } => {
                            *name = new.clone();
                            *length = 77
                        }
                        FstNode::Directory { name, .. } => *name = new.clone(),
                    }
                    o
                });
                let w = mfind_mut(&mut m, &p).map(|n| {
                    let o = n.clone();
                    match n {
                        Tree::F { name, len, .. } => {
                            *name = new.clone();
                            *len = 77
                        }
                        Tree::D { name, .. } => *name = new.clone(),
                    }
                    o
                });
                ensure!(g == w, "mutable find {s:?} gave {g:?}, expected {w:?}");
            }
            _ => {
                step!("remove {s:?}");
                let g = f.remove_node_path(&s).map(|n| one(&n));
                let w = mremove(&mut m, &p);
                ensure!(g == w, "remove {s:?} gave {g:?}, expected {w:?}");
            }
        }
        let g = tree_of(&f);
        ensure!(g == m, "tree is now {}, expected {}", show(&g), show(&m));
    }
    Ok(())
}

fn mvisit(t: &[Tree], path: &mut Vec<String>, out: &mut Vec<(Vec<String>, Tree)>) {
    for n in t {
        path.push(n.name().into());
        out.push((path.clone(), n.clone()));
        if let Tree::D { kids, .. } = n {
            mvisit(kids, path, out);
        }
        path.pop();
    }
}
/// model of a visit that renames every node whose visit number is in `ren`
fn mvisit_mut(t: &mut [Tree], path: &mut Vec<String>, k: &mut u64, ren: u64, stop: u64, out: &mut Vec<Vec<String>>) -> Result<(), u64> {
    for n in t {
        path.push(n.name().into());
        out.push(path.clone());
        let me = *k;
        *k += 1;
        if me == stop {
            return Err(me);
        }
        if ren != 0 && me % ren == 0 {
            let new = format!("r{me}");
            match n {
                Tree::F { name, .. } | Tree::D { name, .. } => *name = new.clone(),
            }
            path.pop();
            path.push(new);
        }
        if let Tree::D { kids, .. } = n {
            mvisit_mut(kids, path, k, ren, stop, out)?;
        }
        path.pop();
    }
    Ok(())
}

pub fn c07(r: &mut Rng, _case: u64) -> R {
    let t = tree(r, 0, true);
    step!("tree {}", show(&t));
    let f = fst_of(&t);
    let mut want = Vec::new();
    mvisit(&t, &mut vec![], &mut want);
    let n = want.len() as u64;
    let stop = if r.chance(1, 2) { r.below(n + 1) } else { n + 5 };
    step!("visit, stopping at {stop}");
    // read-only
    let mut got = Vec::new();
    let res = f.callback_all_files::<u64, _>(&mut |p, node| {
        let k = got.len() as u64;
        got.push((p.iter().map(|s| s.to_string()).collect::<Vec<_>>(), from_fst(std::slice::from_ref(node)).pop().unwrap()));
        if k == stop { Err(k) } else { Ok(()) }
    });
    let lim = if stop < n { stop as usize + 1 } else { want.len() };
    ensure!(res == if stop < n { Err(stop) } else { Ok(()) }, "visit returned {res:?}");
    ensure!(got[..] == want[..lim], "visited {:?}, expected {:?}", got.iter().map(|g| g.0.join("/")).collect::<Vec<_>>(), want[..lim].iter().map(|g| g.0.join("/")).collect::<Vec<_>>());
    // mutable, with renames
    let ren = r.below(4);
    let mut f2 = fst_of(&t);
    let mut m = t.clone();
    let (mut wp, mut gp) = (vec![], vec![]);
    let wres = mvisit_mut(&mut m, &mut vec![], &mut 0, ren, stop, &mut wp);
    let gres = f2.callback_all_files_mut::<u64, _>(&mut |p, node| {
        let me = gp.len() as u64;
        gp.push(p.clone());
        if me == stop {
            return Err(me);
        }
        if ren != 0 && me % ren == 0 {
            match node {
                FstNode::File { name, .. } | FstNode::Directory { name, .. } => *name = format!("r{me}"),
            }
        }
        Ok(())
    });
    ensure!(gres == wres, "mutable visit returned {gres:?}, expected {wres:?}");
    ensure!(gp == wp, "mutable visit saw {gp:?}, expected {wp:?} (renaming every {ren})");
    ensure!(tree_of(&f2) == m, "after the mutable visit the tree is {}, expected {}", show(&tree_of(&f2)), show(&m));
    // files only
    let files: Vec<_> = want.iter().filter(|w| matches!(w.1, Tree::F { .. })).collect();
    let mut fb = FstToBytes::try_from(fst_of(&t)).map_err(|e| e.to_string())?;
    ensure!(fb.get_total_file_count() == files.len(), "file count {} of {}", fb.get_total_file_count(), files.len());
    let stop = if r.chance(1, 2) { r.below(files.len() as u64 + 1) } else { files.len() as u64 + 5 };
    let mut gp = Vec::new();
    let res = fb.callback_all_files_mut::<u64, _>(&mut |p, o, l| {
        let k = gp.len() as u64;
        gp.push((p.clone(), *o, *l));
        if k == stop {
            return Err(k);
        }
        *o = 4 * k;
        *l = k as u32 + 1;
        Ok(())
    });
    let lim = if stop < files.len() as u64 { stop as usize + 1 } else { files.len() };
    ensure!(res == if stop < files.len() as u64 { Err(stop) } else { Ok(()) }, "file visit returned {res:?}");
    let wp: Vec<_> = files[..lim].iter().map(|w| match &w.1 { Tree::F { off, len, .. } => (w.0.clone(), *off, *len), _ => unreachable!() }).collect();
    ensure!(gp == wp, "file visit saw {gp:?}, expected {wp:?}");
    // and what it changed is what is written
    let mut w = Cursor::new(Vec::new());
    fb.write_to(&mut w).map_err(|e| format!("{e:?}"))?;
    let (back, _) = fst_parse(&w.into_inner())?;
    let mut b2 = Vec::new();
    mvisit(&back, &mut vec![], &mut b2);
    let mut k = 0u64;
    ensure!(b2.len() == want.len(), "node count changed");
    for (g, w) in b2.iter().zip(&want) {
        ensure!(g.0 == w.0, "path {:?} became {:?}", w.0, g.0);
        if let (Tree::F { off, len, .. }, Tree::F { off: o0, len: l0, .. }) = (&g.1, &w.1) {
            let e = if k < stop { (4 * k, k as u32 + 1) } else { (*o0, *l0) };
            ensure!((*off, *len) == e, "file {:?} holds ({off},{len}), expected {e:?}", g.0);
            k += 1;
        }
    }
    Ok(())
}
