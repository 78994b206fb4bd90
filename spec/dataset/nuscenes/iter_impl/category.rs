pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::Category, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Category>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.category_map[t], dataset: it.dataset }), None => None }
}
