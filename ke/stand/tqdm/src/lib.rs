pub fn tqdm<I: IntoIterator>(i: I) -> I::IntoIter { i.into_iter() }
