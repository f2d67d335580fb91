//! C13: all destructive effects stay inside a scratch directory which is removed at the end.
use crate::Ctx;
use crate::engine::{Rng, attrs, Perm, Ty, first_diff};
use crate::spec::{SpecEntry, SpecZip, crc32};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt as _;
use std::path::{Path, PathBuf};
use tokio::io::{AsyncReadExt, AsyncSeekExt};
use zippity::{AddDirectoryRecursiveError, Builder, FilesystemEntry};

#[derive(Clone, Debug)]
enum Node { File(Vec<u8>), Dir(Tree), Link(Vec<u8>) }

/// Name of an object, any bytes.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Name(Vec<u8>);

impl std::fmt::Debug for Name {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "\"{}\"", self.0.escape_ascii()) }
}

impl From<&str> for Name { fn from(s: &str) -> Self { Name(s.as_bytes().to_vec()) } }
impl From<String> for Name { fn from(s: String) -> Self { Name(s.into_bytes()) } }

impl Name {
    fn os(&self) -> &std::ffi::OsStr { std::ffi::OsStr::from_bytes(&self.0) }
    fn shown(&self) -> String { self.os().to_string_lossy().into_owned() }
}

type Tree = BTreeMap<Name, Node>;
/// Entry name to type, data and mode.
type Want = BTreeMap<String, (Ty, Vec<u8>, u32)>;

fn mode_of(p: &Path) -> u32 {
    use std::os::unix::fs::PermissionsExt as _;
    std::fs::symlink_metadata(p).unwrap().permissions().mode()
}

fn create(p: &Path, n: &Node) {
    match n {
        Node::File(d) => std::fs::write(p, d).unwrap(),
        Node::Link(t) => std::os::unix::fs::symlink(std::ffi::OsStr::from_bytes(t), p).unwrap(),
        Node::Dir(m) => {
            std::fs::create_dir(p).unwrap();
            for (k, v) in m { create(&p.join(k.os()), v); }
        }
    }
}

fn flatten(prefix: &str, at: &Path, m: &Tree, out: &mut Want) {
    for (k, v) in m {
        let p = at.join(k.os());
        let n = format!("{prefix}{}", k.shown());
        match v {
            Node::File(d) => { out.insert(n, (Ty::File, d.clone(), mode_of(&p))); }
            Node::Link(t) => { out.insert(n, (Ty::Link, t.clone(), mode_of(&p))); }
            Node::Dir(s) => { flatten(&format!("{n}/"), &p, s, out); out.insert(format!("{n}/"), (Ty::Dir, vec![], mode_of(&p))); }
        }
    }
}

fn gen_tree(r: &mut Rng, depth: u64) -> Tree {
    let mut m = BTreeMap::new();
    for i in 0..r.below(if depth == 0 { 3 } else { 5 }) {
        let name = match r.below(9) { 8 => { m.insert(Name([&b"n\xff\x80."[..], &[b'0' + i as u8]].concat()), Node::File(vec![3; 20])); continue } 0 => format!("é{i}"), 1 => format!("with space {i}"), 2 => format!(".hidden{i}"), 3 => format!("...{i}"), 4 => format!("back\\slash{i}"), 5 => "x".repeat(100 + i as usize), _ => format!("n{i}") };
        let v = match r.below(if depth == 0 { 5 } else { 8 }) {
            0 | 1 => Node::File((0..r.pick(&[0usize, 1, 10, 9000, 70_000])).map(|x| (x * 7 + i as usize) as u8).collect()),
            2 => Node::File(vec![]),
            3 => Node::Link(r.pick(&[&b"target"[..], b".", b"..", b"/nonexistent/x", b"n0", b"a/", "é".as_bytes(), b"\xff\xfe", b"a\xc3", b" x ", b"../..//n1/."]).to_vec()),
            4 => Node::Dir(BTreeMap::new()),
            _ => Node::Dir(gen_tree(r, depth - 1)),
        };
        m.insert(name.into(), v);
    }
    m
}

struct Scratch { dir: tempfile::TempDir, n: u32, rt: tokio::runtime::Runtime }

impl Scratch {
    fn fresh(&mut self) -> PathBuf { self.n += 1; self.dir.path().join(format!("t{}", self.n)) }
}

fn expect_archive(rt: &tokio::runtime::Runtime, b: Builder<FilesystemEntry>, want: &Want) -> Result<(), String> {
    let names: Vec<String> = b.get_entries().keys().cloned().collect();
    let mut sorted = names.clone();
    sorted.sort();
    if sorted.windows(2).any(|w| w[0] == w[1]) { return Err("an entry was added twice".into()); }
    let expected: Vec<String> = want.keys().cloned().collect();
    if sorted != expected { return Err(format!("entry names {sorted:?} instead of {expected:?}")); }
    let mut spec = vec![];
    let mut datas = vec![];
    for n in &names {
        let (ty, d, mode) = &want[n];
        spec.push(SpecEntry { name: n.clone(), id: 0, len: d.len() as u64, crc: crc32(d), dos_time: 0, dos_date: 33, attrs: attrs(*ty, Perm::Unix(*mode)) });
        datas.push(d.clone());
    }
    let z = SpecZip::new(&spec);
    let size = b.size();
    if size != z.size { return Err(format!("size {size} instead of {}", z.size)); }
    let mut r = Box::pin(b.build());
    let got = rt.block_on(async {
        let mut v = vec![];
        r.read_to_end(&mut v).await.map(|_| v)
    }).map_err(|e| format!("reading: {e}"))?;
    // full expected bytes, with the data of the entries put in
    let mut want = z.window(0, z.size as usize);
    for (i, d) in datas.iter().enumerate() { let o = z.data[i] as usize; want[o..o + d.len()].copy_from_slice(d); }
    if got != want { return Err(format!("archive: {}", first_diff(&got, &want))); }
    // seek into the data of each entry
    for (i, d) in datas.iter().enumerate() {
        if d.is_empty() { continue; }
        let o = z.data[i] + d.len() as u64 / 2;
        let piece = rt.block_on(async {
            r.seek(std::io::SeekFrom::Start(o)).await?;
            let mut v = vec![0u8; (d.len() - d.len() / 2).min(50)];
            r.read_exact(&mut v).await.map(|_| v)
        }).map_err(|e| format!("seek to {o}: {e}"))?;
        if piece[..] != want[o as usize..o as usize + piece.len()] { return Err(format!("data of entry {i} after a seek differs")); }
    }
    Ok(())
}

fn run_tree(s: &mut Scratch, tree: &Tree, root: Option<&str>, norm: Option<&str>) -> Result<(), String> {
    run_tree_at(s, tree, root, norm, b"", "plain", &|_| ())
}

const SPELLINGS: [&str; 7] = ["plain", "slash", "slashes", "dot", "back and forth", "relative", "doubled slash inside"];

/// The tree is made in a directory with the given name, and the path of that directory is given in the
/// spelling `how`; `more` changes the tree afterwards in ways that do not change what is expected of it.
fn run_tree_at(s: &mut Scratch, tree: &Tree, root: Option<&str>, norm: Option<&str>, rootname: &[u8], how: &str, more: &dyn Fn(&Path)) -> Result<(), String> {
    let top = s.fresh();
    std::fs::create_dir(&top).unwrap();
    let p = top.join(std::ffi::OsStr::from_bytes(if rootname.is_empty() { b"r" } else { rootname }));
    create(&p, &Node::Dir(tree.clone()));
    more(&p);
    let mut want = BTreeMap::new();
    let prefix = norm.map(|n| format!("{n}/")).unwrap_or_default();
    flatten(&prefix, &p, tree, &mut want);
    if norm.is_some() { want.insert(prefix.clone(), (Ty::Dir, vec![], mode_of(&p))); }
    let mut given = p.clone().into_os_string();
    match how {
        "slash" => given.push("/"),
        "slashes" => given.push("///"),
        "dot" => given.push("/."),
        "back and forth" => { given.push("/../"); given.push(p.file_name().unwrap()); }
        "relative" => {
            let mut rel = std::ffi::OsString::new();
            for _ in std::env::current_dir().unwrap().components().skip(1) { rel.push("../"); }
            rel.push(p.strip_prefix("/").unwrap());
            given = rel;
        }
        "doubled slash inside" => { given = top.clone().into_os_string(); given.push("//./"); given.push(p.file_name().unwrap()); }
        _ => (),
    }
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let res = s.rt.block_on(b.add_directory_recursive(PathBuf::from(given), root));
    let r = match res {
        Err(e) => Err(format!("adding the tree failed: {e}")),
        // without converter the times are the default
        Ok(()) => expect_archive(&s.rt, b, &want),
    };
    let _ = std::fs::remove_dir_all(&top);
    r
}

fn run_single(s: &mut Scratch, node: &Node, name: &str) -> Result<(), String> {
    let p = s.fresh();
    create(&p, node);
    let meta = std::fs::symlink_metadata(&p).unwrap();
    let mut b: Builder<FilesystemEntry> = Builder::new();
    let stripped = name.trim_end_matches('/');
    let (n, v) = match node {
        Node::File(d) => (stripped.to_string(), (Ty::File, d.clone(), mode_of(&p))),
        Node::Link(t) => (stripped.to_string(), (Ty::Link, t.clone(), mode_of(&p))),
        Node::Dir(_) => (format!("{stripped}/"), (Ty::Dir, vec![], mode_of(&p))),
    };
    let mut want = BTreeMap::new();
    want.insert(n, v);
    let res = s.rt.block_on(async { b.add_filesystem_entry(name.to_string(), p.clone(), &meta).await.map(|_| ()) });
    let r = match res {
        Err(e) => Err(format!("adding failed: {e}")),
        Ok(()) => expect_archive(&s.rt, b, &want),
    };
    if p.is_dir() && !p.is_symlink() { let _ = std::fs::remove_dir_all(&p); } else { let _ = std::fs::remove_file(&p); }
    r
}

pub fn c13(c: &mut Ctx) -> String {
    let dir = tempfile::TempDir::new().expect("scratch directory");
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut s = Scratch { dir, n: 0, rt };
    let mut r = Rng::new(c.seed ^ 13);

    // things that are not directories are refused as trees
    for (what, node) in [("file", Node::File(vec![1])), ("link to a directory", Node::Link(b".".to_vec())), ("dangling link", Node::Link(b"nowhere".to_vec()))] {
        if !c.case("not a directory", &|| what.into(), || {
            let p = s.fresh();
            create(&p, &node);
            let mut b: Builder<FilesystemEntry> = Builder::new();
            let x = s.rt.block_on(b.add_directory_recursive(p.clone(), Some("r")));
            let bad = !matches!(x, Err(AddDirectoryRecursiveError::NotADirectory { .. })) || !b.get_entries().is_empty();
            let _ = std::fs::remove_file(&p);
            if bad { return Err(format!("{what} not refused: {x:?}")); }
            Ok(())
        }) { return String::new(); }
    }
    for name in ["a", "a/", "a//", "a/b", "a/b///", "é/", "/abs", "a///b/"] {
        for node in [Node::File(b"data".to_vec()), Node::File(vec![]), Node::Link(b"some/where".to_vec()), Node::Link(b"x".to_vec()), Node::Link(b"\xff\xfe/\x80".to_vec()), Node::Dir(BTreeMap::new())] {
            if !c.case("single objects", &|| format!("{name:?} {node:?}"), || run_single(&mut s, &node, name)) { return String::new(); }
        }
    }
    let fixed: Tree = {
        let mut m = BTreeMap::new();
        let mut sub = BTreeMap::new();
        sub.insert("f".into(), Node::File(b"inner".to_vec()));
        sub.insert("up".into(), Node::Link(b"..".to_vec()));
        let mut deep = BTreeMap::new();
        deep.insert("z".into(), Node::Dir(BTreeMap::new()));
        sub.insert("deep".into(), Node::Dir(deep));
        m.insert("sub".into(), Node::Dir(sub));
        m.insert("link-to-sub".into(), Node::Link(b"sub".to_vec()));
        m.insert("file".into(), Node::File((0..=255).collect()));
        m.insert("empty".into(), Node::File(vec![]));
        m
    };
    let prefixes: [(Option<&str>, Option<&str>); 14] = [(Some("/p"), Some("p")), (Some("//p/q/"), Some("p/q")), (Some("p//q"), Some("p//q")), (Some("."), Some(".")), (Some("../.p/"), Some("../.p")), (None, None), (Some("p"), Some("p")), (Some("p/"), Some("p")), (Some("p//"), Some("p")), (Some("p/q"), Some("p/q")), (Some("p/q/"), Some("p/q")), (Some("é"), Some("é")), (Some("a b"), Some("a b")), (Some("p///"), Some("p"))];
    for (p, n) in prefixes {
        if !c.case("fixed tree, each prefix", &|| format!("prefix {p:?}"), || run_tree(&mut s, &fixed, p, n)) { return String::new(); }
        if !c.case("empty tree, each prefix", &|| format!("prefix {p:?}"), || run_tree(&mut s, &BTreeMap::new(), p, n)) { return String::new(); }
    }
    // deep and wide trees, long names
    for depth in [10usize, 70, 150, 300] {
        if !c.case("deep trees", &|| format!("{depth} levels with a file and a link in each"), || {
            let mut t = BTreeMap::new();
            t.insert("f".into(), Node::File(vec![7; 3]));
            for i in 0..depth {
                let mut u = BTreeMap::new();
                u.insert("d".into(), Node::Dir(t));
                u.insert("f".into(), Node::File(vec![i as u8; i % 5]));
                u.insert("l".into(), Node::Link(b"d".to_vec()));
                t = u;
            }
            run_tree(&mut s, &t, Some("p"), Some("p"))
        }) { return String::new(); }
    }
    for n in [300usize, 1500] {
        if !c.case("wide trees", &|| format!("{n} files, {n} links and 40 directories in one directory"), || {
            let mut t = BTreeMap::new();
            for i in 0..n { t.insert(format!("f{i}").into(), Node::File(vec![1; i % 3])); t.insert(format!("l{i}").into(), Node::Link(b"x".to_vec())); }
            for i in 0..40 { let mut u = BTreeMap::new(); for j in 0..10 { u.insert(format!("g{j}").into(), Node::File(vec![])); } t.insert(format!("d{i}").into(), Node::Dir(u)); }
            run_tree(&mut s, &t, None, None)
        }) { return String::new(); }
    }
    for name in ["x".repeat(255), "é".repeat(127), "-".into(), "a:b".into(), "C:".into(), "~".into(), "*?".into(), "tab\tnew\nline".into(), "trailing.".into(), " ".into(), "a.".into(), "..a".into(), "CON".into(), ".git".into(), ".hidden".into(), ".DS_Store".into(), "Thumbs.db".into(), "node_modules".into(), "...".into(), "x~".into(), "\\".into(), "a\\b".into()] {
        if !c.case("names", &|| format!("{name:?}"), || {
            let mut sub = BTreeMap::new();
            sub.insert(name.clone().into(), Node::File(b"q".to_vec()));
            sub.insert(format!("{}L", &name[..name.len() - name.len().min(200)]).into(), Node::Link(b"t".to_vec()));
            let mut t = BTreeMap::new();
            t.insert(name.clone().into(), Node::Dir(sub));
            run_tree(&mut s, &t, Some("p/"), Some("p"))
        }) { return String::new(); }
    }
    // the way the root is named
    for how in SPELLINGS {
        for rootname in [&b"r"[..], b"sub", b"r\xff\xfe", b"\xc3", "é".as_bytes(), b"...", b" ", b"a.b"] {
            for (p, n) in [(None, None), (Some("p"), Some("p"))] {
                if !c.case("names of the root", &|| format!("root {:?} given as {how}, prefix {p:?}", Name(rootname.to_vec())), || run_tree_at(&mut s, &fixed, p, n, rootname, how, &|_| ())) { return String::new(); }
            }
        }
    }
    // names that are not UTF-8, and the name of the root again inside of it
    for name in [&b"\xff"[..], b"a\xffb", b"\xc3", b"\xe2\x82", b"r", b"R", b"\xf0\x9f\x98", b"\xed\xa0\x80x", "ａ".as_bytes(), "e\u{301}".as_bytes()] {
        for rootname in [&b"r"[..], name] {
            if !c.case("names of any bytes", &|| format!("{:?} in {:?}", Name(name.to_vec()), Name(rootname.to_vec())), || {
                let n = Name(name.to_vec());
                let mut t = Tree::new();
                t.insert(n.clone(), Node::Link(name.to_vec()));
                t.insert("f".into(), Node::File(name.to_vec()));
                for _ in 0..3 {
                    let mut u = Tree::new();
                    u.insert(n.clone(), Node::Dir(t));
                    u.insert("f".into(), Node::File(b"1".to_vec()));
                    t = u;
                }
                run_tree_at(&mut s, &t, Some("p"), Some("p"), rootname, "plain", &|_| ())?;
                run_tree_at(&mut s, &t, None, None, rootname, "plain", &|_| ())
            }) { return String::new(); }
        }
    }
    // targets of any length
    for len in [1usize, 254, 255, 256, 1000, 4000, 4095] {
        if !c.case("long targets", &|| format!("link with a target of {len} bytes"), || {
            let mut t = Tree::new();
            t.insert("l".into(), Node::Link((0..len).map(|i| if i % 100 == 50 { b'/' } else { b'a' + (i % 23) as u8 }).collect()));
            run_tree(&mut s, &t, None, None)
        }) { return String::new(); }
    }
    // several names of one object, unusual permissions
    if !c.case("hard links", &|| "the same file under four names".into(), || {
        let mut t = fixed.clone();
        let same = Node::File(b"same".to_vec());
        for n in ["h1", "h2"] { t.insert(n.into(), same.clone()); }
        if let Some(Node::Dir(sub)) = t.get_mut(&Name::from("sub")) { for n in ["h1", "h3"] { sub.insert(n.into(), same.clone()); } }
        run_tree_at(&mut s, &t, Some("p"), Some("p"), b"", "plain", &|p| {
            for n in ["h2", "sub/h1", "sub/h3"] {
                std::fs::remove_file(p.join(n)).unwrap();
                std::fs::hard_link(p.join("h1"), p.join(n)).unwrap();
            }
        })
    }) { return String::new(); }
    for m in [0o400u32, 0o4755, 0o2644, 0o1700, 0o7777, 0o500] {
        if !c.case("permissions", &|| format!("mode {m:o}"), || {
            use std::os::unix::fs::PermissionsExt as _;
            run_tree_at(&mut s, &fixed, Some("p"), Some("p"), b"", "plain", &|p| {
                for n in ["file", "empty"] { std::fs::set_permissions(p.join(n), std::fs::Permissions::from_mode(m)).unwrap(); }
                std::fs::set_permissions(p.join("sub"), std::fs::Permissions::from_mode(m | 0o700)).unwrap();
            })
        }) { return String::new(); }
    }
    // several trees in one builder
    if !c.case("several trees", &|| "three trees and a single file in one builder".into(), || {
        let mut b: Builder<FilesystemEntry> = Builder::new();
        let mut want = Want::new();
        let mut r = Rng::new(77);
        let mut made = vec![];
        for (given, norm) in [("p", "p"), ("p/q", "p/q"), ("o//", "o")] {
            let p = s.fresh();
            let t = gen_tree(&mut r, 2);
            create(&p, &Node::Dir(t.clone()));
            flatten(&format!("{norm}/"), &p, &t, &mut want);
            want.insert(format!("{norm}/"), (Ty::Dir, vec![], mode_of(&p)));
            s.rt.block_on(b.add_directory_recursive(p.clone(), Some(given))).map_err(|e| format!("adding {given}: {e}"))?;
            made.push(p);
        }
        let res = expect_archive(&s.rt, b, &want);
        for p in made { let _ = std::fs::remove_dir_all(&p); }
        res
    }) { return String::new(); }
    if !c.case("the same tree twice", &|| "the fixed tree twice without prefix".into(), || {
        let p = s.fresh();
        create(&p, &Node::Dir(fixed.clone()));
        let mut b: Builder<FilesystemEntry> = Builder::new();
        s.rt.block_on(b.add_directory_recursive(p.clone(), None)).map_err(|e| e.to_string())?;
        let again = s.rt.block_on(b.add_directory_recursive(p.clone(), None));
        let mut want = Want::new();
        flatten("", &p, &fixed, &mut want);
        if !matches!(again, Err(AddDirectoryRecursiveError::AddEntryError(_))) { return Err(format!("adding again gave {again:?}")); }
        let res = expect_archive(&s.rt, b, &want);
        let _ = std::fs::remove_dir_all(&p);
        res
    }) { return String::new(); }
    // sizes around 4 GiB (files without blocks)
    for size in [(1u64 << 32) - 1, 1 << 32, (1 << 32) + 10] {
        if !c.case("large files", &|| format!("file of {size} zero bytes"), || {
            let p = s.fresh();
            std::fs::create_dir(&p).unwrap();
            std::fs::File::create(p.join("big")).and_then(|f| f.set_len(size)).map_err(|e| e.to_string())?;
            let mut b: Builder<FilesystemEntry> = Builder::new();
            let res = s.rt.block_on(b.add_directory_recursive(p.clone(), None)).map_err(|e| e.to_string());
            let want = 98 + 30 + 28 + 24 + 46 + 28 + 6 + size;
            let got = b.size();
            let mut r = Box::pin(b.build());
            let head = s.rt.block_on(async { let mut v = [0u8; 200]; r.read_exact(&mut v).await.map(|_| v) }).map_err(|e| e.to_string());
            let _ = std::fs::remove_dir_all(&p);
            res?;
            if got != want { return Err(format!("announced size {got} instead of {want}")); }
            if head?[61..] != [0u8; 139] { return Err("data of the file differs".into()); }
            Ok(())
        }) { return String::new(); }
    }
    let mut k = 0u64;
    while c.go() && (c.thorough || k < 2500) {
        k += 1;
        let t = gen_tree(&mut r, 3);
        let (p, n) = r.pick(&prefixes);
        let how = r.pick(&SPELLINGS);
        let rootname = r.pick(&[&b"r"[..], b"n0", b"r\xff", "é0".as_bytes()]);
        if !c.case("random trees", &|| format!("root {:?} given as {how}, prefix {p:?}, {t:?}", Name(rootname.to_vec())), || run_tree_at(&mut s, &t, p, n, rootname, how, &|_| ())) { break; }
    }
    "scratch directory trees with files, empty files, links (dangling, to directories, upwards) and nested directories, each prefix form, single objects with each name form; names, types, sizes and the whole archive are compared with the tree".into()
}
