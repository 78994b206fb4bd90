pub fn scene<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SceneInternal> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.scene_map[&r.inner.scene_token], dataset: r.dataset } }
pub fn prev<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>> {
    match r.inner.prev { Some(ref t) => Some(crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_map[t], dataset: r.dataset }), None => None }
}
pub fn next<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>> {
    match r.inner.next { Some(ref t) => Some(crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_map[t], dataset: r.dataset }), None => None }
}
pub fn sample_annotation_iter<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>) -> crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::SampleAnnotation, std::slice::Iter<'a, crate::dataset::nuscenes::schema::LongToken>> { crate::dataset::nuscenes::iter::Iter { dataset: r.dataset, tokens_iter: r.inner.annotation_tokens.iter(), _phantom: std::marker::PhantomData } }
pub fn sample_data_iter<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>) -> crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::SampleData, std::slice::Iter<'a, crate::dataset::nuscenes::schema::LongToken>> { crate::dataset::nuscenes::iter::Iter { dataset: r.dataset, tokens_iter: r.inner.sample_data_tokens.iter(), _phantom: std::marker::PhantomData } }
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::internal::SampleInternal, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.sample_map[t], dataset: it.dataset }), None => None }
}
