pub fn log_iter<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Map>) -> crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::Log, std::slice::Iter<'a, crate::dataset::nuscenes::schema::LongToken>> { crate::dataset::nuscenes::iter::Iter { dataset: r.dataset, tokens_iter: r.inner.log_tokens.iter(), _phantom: std::marker::PhantomData } }
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::ShortToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::Map, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Map>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.map_map[t], dataset: it.dataset }), None => None }
}
