pub fn log<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SceneInternal>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Log> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.log_map[&r.inner.log_token], dataset: r.dataset } }
pub fn sample_iter<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SceneInternal>) -> crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::internal::SampleInternal, std::slice::Iter<'a, crate::dataset::nuscenes::schema::LongToken>> { crate::dataset::nuscenes::iter::Iter { dataset: r.dataset, tokens_iter: r.inner.sample_tokens.iter(), _phantom: std::marker::PhantomData } }
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::internal::SceneInternal, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SceneInternal>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.scene_map[t], dataset: it.dataset }), None => None }
}
