// ---- std::path (a Path is a PathBuf here: both are a path)
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
#[verifier::external_body]
pub struct OsStr { x: u8 }
impl OsStr {
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn as_encoded_bytes(&self) -> (r: &[u8]) ensures r@ == self.raw() { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct StripPrefixError { x: u8 }
impl PathBuf {
    /// its bytes
    pub uninterp spec fn raw(&self) -> Seq<u8>;
    /// its text, what is not Unicode replaced
    pub uninterp spec fn lossy(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &PathBuf) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r.raw() == self.raw() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.lossy() { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix(&self, root: &PathBuf) -> (r: std::result::Result<&PathBuf, StripPrefixError>)
        ensures below(*root, *self) ==> r is Ok && r->Ok_0.lossy() == rel_name(*root, *self)
    { unimplemented!() }
}

// ---- the objects in the file system, assumed not to change while they are added
/// p is an object in the directory d
pub uninterp spec fn fs_child(d: PathBuf, p: PathBuf) -> bool;
pub uninterp spec fn fs_parent(p: PathBuf) -> PathBuf;
pub uninterp spec fn fs_depth(p: PathBuf) -> nat;
/// the last component, as text
pub uninterp spec fn fs_name(p: PathBuf) -> Seq<char>;
/// p is a directory (not a link to one)
pub uninterp spec fn fs_dir(p: PathBuf) -> bool;
/// where the link p points to
pub uninterp spec fn fs_link(p: PathBuf) -> PathBuf;
pub broadcast axiom fn axiom_child(d: PathBuf, p: PathBuf)
    ensures #[trigger] fs_child(d, p) ==> fs_parent(p) == d && fs_depth(p) == fs_depth(d) + 1 && fs_name(p).len() > 0 && !fs_name(p).contains('/');
/// p is somewhere below the directory root
pub open spec fn below(root: PathBuf, p: PathBuf) -> bool
    decreases fs_depth(p)
{
    let d = fs_parent(p);
    &&& fs_child(d, p)
    &&& fs_dir(d)
    &&& fs_depth(d) < fs_depth(p)
    &&& d == root || below(root, d)
}
/// the path of p relative to root
pub open spec fn rel_name(root: PathBuf, p: PathBuf) -> Seq<char>
    decreases fs_depth(p)
{
    let d = fs_parent(p);
    if d == root || fs_depth(d) >= fs_depth(p) { fs_name(p) } else { rel_name(root, d) + seq!['/'] + fs_name(p) }
}
pub proof fn lemma_rel_name(root: PathBuf, p: PathBuf)
    requires below(root, p)
    ensures rel_name(root, p).len() > 0, rel_name(root, p).last() != '/', fs_depth(p) > fs_depth(root)
    decreases fs_depth(p)
{
    broadcast use axiom_child;
    let d = fs_parent(p);
    assert(fs_name(p).contains(fs_name(p).last()));
    if d != root { lemma_rel_name(root, d); }
}
