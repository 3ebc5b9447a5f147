//! A user-defined representation which monitors its objects: the number of
//! live objects, every drop, and the work of hashing, comparing and cloning.
use std::{
    cell::RefCell,
    collections::HashSet,
    fmt::{Debug, Formatter},
    hash::{Hash, Hasher},
    ops::Deref,
    rc::Rc,
};
use yaml_peg::{repr::Repr, Yaml};

pub struct MonRepr;

pub struct Obj {
    yaml: Yaml<MonRepr>,
    id: u64,
}

pub struct MonRc(Rc<Obj>);

#[derive(Clone, Default, Debug)]
pub struct Stat {
    pub created: u64,
    pub dropped: u64,
    pub clones: u64,
    pub hashes: u64,
    pub eqs: u64,
    /// A drop of an object that is not alive.
    pub double: u64,
    live: HashSet<u64>,
}

thread_local!(static STAT: RefCell<Stat> = RefCell::default());

fn with<T>(f: impl FnOnce(&mut Stat) -> T) -> T {
    STAT.with(|s| f(&mut s.borrow_mut()))
}

pub fn live() -> usize {
    with(|s| s.live.len())
}

pub fn stat() -> Stat {
    with(|s| Stat { live: HashSet::new(), ..*s })
}

impl MonRc {
    pub fn id(&self) -> u64 {
        self.0.id
    }
    pub fn owners(&self) -> usize {
        Rc::strong_count(&self.0)
    }
}

impl Drop for Obj {
    fn drop(&mut self) {
        with(|s| {
            s.dropped += 1;
            if !s.live.remove(&self.id) {
                s.double += 1;
            }
        })
    }
}

impl Deref for MonRc {
    type Target = Yaml<MonRepr>;
    fn deref(&self) -> &Self::Target {
        &self.0.yaml
    }
}

impl Clone for MonRc {
    fn clone(&self) -> Self {
        with(|s| s.clones += 1);
        Self(self.0.clone())
    }
}

impl Hash for MonRc {
    fn hash<H: Hasher>(&self, h: &mut H) {
        with(|s| s.hashes += 1);
        self.0.yaml.hash(h)
    }
}

impl PartialEq for MonRc {
    fn eq(&self, o: &Self) -> bool {
        with(|s| s.eqs += 1);
        self.0.yaml == o.0.yaml
    }
}

impl Eq for MonRc {}

impl Debug for MonRc {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        self.0.yaml.fmt(f)
    }
}

impl Repr for MonRepr {
    type Rc = MonRc;

    fn new_rc(yaml: Yaml<Self>) -> MonRc {
        let id = with(|s| {
            s.created += 1;
            s.live.insert(s.created);
            s.created
        });
        MonRc(Rc::new(Obj { yaml, id }))
    }
}
