//! Stand-in for dfinity/ic's phantom_newtype::Id.
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub struct Id<Entity, Repr>(Repr, PhantomData<std::sync::Mutex<Entity>>);

impl<Entity, Repr> Id<Entity, Repr> {
    pub const fn new(repr: Repr) -> Self {
        Self(repr, PhantomData)
    }
    pub const fn get_ref(&self) -> &Repr {
        &self.0
    }
}
impl<Entity, Repr: Copy> Id<Entity, Repr> {
    pub const fn get(self) -> Repr {
        self.0
    }
}
impl<Entity, Repr> AsRef<Repr> for Id<Entity, Repr> {
    fn as_ref(&self) -> &Repr {
        &self.0
    }
}
impl<Entity, Repr: Clone> Clone for Id<Entity, Repr> {
    fn clone(&self) -> Self {
        Self(self.0.clone(), PhantomData)
    }
}
impl<Entity, Repr: Copy> Copy for Id<Entity, Repr> {}
impl<Entity, Repr: PartialEq> PartialEq for Id<Entity, Repr> {
    fn eq(&self, rhs: &Self) -> bool {
        self.0.eq(&rhs.0)
    }
}
impl<Entity, Repr: Eq> Eq for Id<Entity, Repr> {}
impl<Entity, Repr: PartialOrd> PartialOrd for Id<Entity, Repr> {
    fn partial_cmp(&self, rhs: &Self) -> Option<Ordering> {
        self.0.partial_cmp(&rhs.0)
    }
}
impl<Entity, Repr: Ord> Ord for Id<Entity, Repr> {
    fn cmp(&self, rhs: &Self) -> Ordering {
        self.0.cmp(&rhs.0)
    }
}
impl<Entity, Repr: Hash> Hash for Id<Entity, Repr> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.0.hash(state)
    }
}
impl<Entity, Repr> From<Repr> for Id<Entity, Repr> {
    fn from(repr: Repr) -> Self {
        Self::new(repr)
    }
}
impl<Entity, Repr: fmt::Debug> fmt::Debug for Id<Entity, Repr> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl<Entity, Repr: fmt::Display> fmt::Display for Id<Entity, Repr> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<Entity, Repr: Serialize> Serialize for Id<Entity, Repr> {
    fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(serializer)
    }
}
impl<'de, Entity, Repr: Deserialize<'de>> Deserialize<'de> for Id<Entity, Repr> {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
        Repr::deserialize(deserializer).map(Self::new)
    }
}
