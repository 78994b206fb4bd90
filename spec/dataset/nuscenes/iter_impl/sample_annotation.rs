pub fn sample<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_map[&r.inner.sample_token], dataset: r.dataset } }
pub fn instance<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::InstanceInternal> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.instance_map[&r.inner.instance_token], dataset: r.dataset } }
pub fn prev<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>> {
    match r.inner.prev { Some(ref t) => Some(crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_annotation_map[t], dataset: r.dataset }), None => None }
}
pub fn next<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>> {
    match r.inner.next { Some(ref t) => Some(crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_annotation_map[t], dataset: r.dataset }), None => None }
}
pub fn attribute_iter<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>) -> crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::Attribute, std::slice::Iter<'a, crate::dataset::nuscenes::schema::LongToken>> { crate::dataset::nuscenes::iter::Iter { dataset: r.dataset, tokens_iter: r.inner.attribute_tokens.iter(), _phantom: std::marker::PhantomData } }
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::SampleAnnotation, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleAnnotation>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.sample_annotation_map[t], dataset: it.dataset }), None => None }
}
