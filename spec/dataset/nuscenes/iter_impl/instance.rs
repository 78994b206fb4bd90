pub fn category<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::InstanceInternal>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Category> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.category_map[&r.inner.category_token], dataset: r.dataset } }
pub fn sample_annotation_iter<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::InstanceInternal>) -> crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::SampleAnnotation, std::slice::Iter<'a, crate::dataset::nuscenes::schema::LongToken>> { crate::dataset::nuscenes::iter::Iter { dataset: r.dataset, tokens_iter: r.inner.annotation_tokens.iter(), _phantom: std::marker::PhantomData } }
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::internal::InstanceInternal, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::InstanceInternal>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.instance_map[t], dataset: it.dataset }), None => None }
}
