pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::EgoPose, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::EgoPose>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.ego_pose_map[t], dataset: it.dataset }), None => None }
}
