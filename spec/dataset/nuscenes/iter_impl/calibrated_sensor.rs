pub fn sensor<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::CalibratedSensor>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Sensor> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sensor_map[&r.inner.sensor_token], dataset: r.dataset } }
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::CalibratedSensor, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::CalibratedSensor>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.calibrated_sensor_map[t], dataset: it.dataset }), None => None }
}
