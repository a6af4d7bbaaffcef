//! Maps as association lists, with the interface of the standard ones: a model of library code for the mirror machine.
pub mod collections {
    pub use std::collections::*;
    use std::borrow::Borrow;
    use std::ops::Index;

    const CAP: usize = 48;

    macro_rules! map {
        ($name:ident, $bound:path) => {
            #[derive(Clone, Debug)]
            pub struct $name<K, V> {
                /// oldest first
                list: [Option<(K, V)>; CAP],
                n: usize,
            }
            impl<K, V> Default for $name<K, V> {
                fn default() -> Self {
                    $name { list: [const { None }; CAP], n: 0 }
                }
            }
            impl<K, V> $name<K, V> {
                pub fn new() -> Self {
                    Self::default()
                }
                pub fn with_capacity(_: usize) -> Self {
                    Self::default()
                }
                pub fn len(&self) -> usize {
                    self.n
                }
                pub fn is_empty(&self) -> bool {
                    self.n == 0
                }
                pub fn clear(&mut self) {
                    *self = Self::default()
                }
                pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
                    self.list.iter().flatten().map(|x| (&x.0, &x.1))
                }
                pub fn keys(&self) -> impl Iterator<Item = &K> {
                    self.list.iter().flatten().map(|x| &x.0)
                }
                pub fn values(&self) -> impl Iterator<Item = &V> {
                    self.list.iter().flatten().map(|x| &x.1)
                }
            }
            impl<K: $bound, V> $name<K, V> {
                fn place<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<usize>
                where
                    K: Borrow<Q>,
                {
                    let mut i = 0;
                    while i < self.n {
                        if let Some(x) = &self.list[i] {
                            if x.0.borrow() == k {
                                return Some(i);
                            }
                        }
                        i += 1;
                    }
                    None
                }
                pub fn get<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<&V>
                where
                    K: Borrow<Q>,
                {
                    let mut i = 0;
                    while i < self.n {
                        if let Some(x) = &self.list[i] {
                            if x.0.borrow() == k {
                                return Some(&x.1);
                            }
                        }
                        i += 1;
                    }
                    None
                }
                pub fn get_mut<Q: ?Sized + PartialEq>(&mut self, k: &Q) -> Option<&mut V>
                where
                    K: Borrow<Q>,
                {
                    let i = self.place(k)?;
                    self.list[i].as_mut().map(|x| &mut x.1)
                }
                pub fn contains_key<Q: ?Sized + PartialEq>(&self, k: &Q) -> bool
                where
                    K: Borrow<Q>,
                {
                    self.place(k).is_some()
                }
                pub fn remove<Q: ?Sized + PartialEq>(&mut self, k: &Q) -> Option<V>
                where
                    K: Borrow<Q>,
                {
                    let i = self.place(k)?;
                    let x = self.list[i].take();
                    let mut j = i;
                    while j + 1 < self.n {
                        self.list[j] = self.list[j + 1].take();
                        j += 1;
                    }
                    self.n -= 1;
                    x.map(|x| x.1)
                }
                pub fn insert(&mut self, k: K, v: V) -> Option<V> {
                    if let Some(i) = self.place(&k) {
                        return self.list[i].replace((k, v)).map(|x| x.1);
                    }
                    assert!(self.n < CAP);
                    let at = self.before(&k);
                    let mut j = self.n;
                    while j > at {
                        self.list[j] = self.list[j - 1].take();
                        j -= 1;
                    }
                    self.list[at] = Some((k, v));
                    self.n += 1;
                    None
                }
            }
            impl<K: $bound, V> Extend<(K, V)> for $name<K, V> {
                fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                    for (k, v) in it {
                        self.insert(k, v);
                    }
                }
            }
            impl<K: $bound, V> FromIterator<(K, V)> for $name<K, V> {
                fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                    let mut m = Self::new();
                    m.extend(it);
                    m
                }
            }
            impl<K: $bound, V, const N: usize> From<[(K, V); N]> for $name<K, V> {
                fn from(l: [(K, V); N]) -> Self {
                    l.into_iter().collect()
                }
            }
            impl<K: $bound, V> IntoIterator for $name<K, V> {
                type Item = (K, V);
                type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, CAP>>;
                fn into_iter(self) -> Self::IntoIter {
                    self.list.into_iter().flatten()
                }
            }
            impl<K: $bound, V, Q: ?Sized + PartialEq> Index<&Q> for $name<K, V>
            where
                K: Borrow<Q>,
            {
                type Output = V;
                fn index(&self, k: &Q) -> &V {
                    self.get(k).expect("no entry found for key")
                }
            }
        };
    }
    map!(HashMap, Eq);
    map!(BTreeMap, Ord);
    impl<K, V> HashMap<K, V> {
        fn before(&self, _: &K) -> usize {
            self.n
        }
    }
    impl<K: Ord, V> BTreeMap<K, V> {
        fn before(&self, k: &K) -> usize {
            self.list.iter().position(|x| x.as_ref().is_some_and(|x| x.0 > *k)).unwrap_or(self.n)
        }
    }
}
