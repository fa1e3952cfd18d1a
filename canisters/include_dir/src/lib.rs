use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[macro_export]
macro_rules! include_dir {
    ($path:literal) => {
        $crate::Dir::the_site()
    };
}

pub struct File<'a> {
    path: &'a Path,
    contents: &'a [u8],
}

impl<'a> File<'a> {
    pub fn path(&self) -> &'a Path {
        self.path
    }
    pub fn contents(&self) -> &'a [u8] {
        self.contents
    }
}

pub enum DirEntry<'a> {
    Dir(Dir<'a>),
    File(File<'a>),
}

impl<'a> DirEntry<'a> {
    pub fn path(&self) -> &Path {
        match self {
            DirEntry::Dir(d) => d.path(),
            DirEntry::File(f) => f.path(),
        }
    }
    pub fn as_file(&self) -> Option<&File<'a>> {
        match self {
            DirEntry::File(f) => Some(f),
            _ => None,
        }
    }
    pub fn as_dir(&self) -> Option<&Dir<'a>> {
        match self {
            DirEntry::Dir(d) => Some(d),
            _ => None,
        }
    }
}

struct Content<'a> {
    path: PathBuf,
    entries: Vec<DirEntry<'a>>,
}

pub struct Dir<'a>(OnceLock<Content<'a>>);

#[link(wasm_import_module = "site")]
extern "C" {
    /// Size of the site, and the site: for each file the length and the bytes of its path and of its contents.
    fn size() -> i32;
    fn copy(dst: i32);
}

impl<'a> Dir<'a> {
    pub const fn the_site() -> Dir<'a> {
        Dir(OnceLock::new())
    }
    fn empty(path: &Path) -> Dir<'a> {
        let d = Dir(OnceLock::new());
        let _ = d.0.set(Content { path: path.into(), entries: vec![] });
        d
    }
    fn content(&self) -> &Content<'a> {
        self.0.get_or_init(|| {
            let mut all = vec![0u8; unsafe { size() } as usize];
            unsafe { copy(all.as_mut_ptr() as i32) };
            let mut rest: &'static [u8] = Box::leak(all.into_boxed_slice());
            let mut take = || {
                let n = u32::from_be_bytes(rest[..4].try_into().unwrap()) as usize;
                let b = &rest[4..4 + n];
                rest = &rest[4 + n..];
                (b, rest.is_empty())
            };
            let mut root = Dir::empty(Path::new(""));
            loop {
                let (name, end) = take();
                if end {
                    break;
                }
                let (contents, end) = take();
                root.add(Path::new(std::str::from_utf8(name).unwrap()), contents);
                if end {
                    break;
                }
            }
            root.0.into_inner().unwrap()
        })
    }
    fn add(&mut self, path: &'a Path, contents: &'a [u8]) {
        let c = self.0.get_mut().unwrap();
        let depth = c.path.components().count();
        if path.components().count() == depth + 1 {
            c.entries.push(DirEntry::File(File { path, contents }));
            return;
        }
        let sub: PathBuf = path.components().take(depth + 1).collect();
        let at = match c.entries.iter().position(|e| e.path() == sub) {
            Some(i) => i,
            None => {
                c.entries.push(DirEntry::Dir(Dir::empty(&sub)));
                c.entries.len() - 1
            }
        };
        match &mut c.entries[at] {
            DirEntry::Dir(d) => d.add(path, contents),
            DirEntry::File(_) => panic!("a file where a directory is needed"),
        }
    }

    pub fn path(&self) -> &Path {
        &self.content().path
    }
    pub fn entries(&self) -> &[DirEntry<'a>] {
        &self.content().entries
    }
    pub fn files(&self) -> impl Iterator<Item = &File<'a>> + '_ {
        self.entries().iter().filter_map(DirEntry::as_file)
    }
    pub fn dirs(&self) -> impl Iterator<Item = &Dir<'a>> + '_ {
        self.entries().iter().filter_map(DirEntry::as_dir)
    }
    pub fn get_file<S: AsRef<Path>>(&self, path: S) -> Option<&File<'a>> {
        let path = path.as_ref();
        self.files().find(|f| f.path() == path).or_else(|| self.dirs().find_map(|d| d.get_file(path)))
    }
    pub fn find(&self, glob: &str) -> Result<impl Iterator<Item = &DirEntry<'a>>, glob_::PatternError> {
        fn walk<'b, 'a>(d: &'b Dir<'a>, p: &glob_::Pattern, out: &mut Vec<&'b DirEntry<'a>>) {
            for e in d.entries() {
                if p.matches_path(e.path()) {
                    out.push(e);
                }
                if let DirEntry::Dir(d) = e {
                    walk(d, p, out);
                }
            }
        }
        let mut out = vec![];
        walk(self, &glob_::Pattern::new(glob)?, &mut out);
        Ok(out.into_iter())
    }
}
