pub fn sample<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::internal::SampleInternal> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_map[&r.inner.sample_token], dataset: r.dataset } }
pub fn ego_pose<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::EgoPose> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.ego_pose_map[&r.inner.ego_pose_token], dataset: r.dataset } }
pub fn calibrated_sensor<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>) -> crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::CalibratedSensor> { crate::dataset::nuscenes::WithDataset { inner: &r.dataset.calibrated_sensor_map[&r.inner.calibrated_sensor_token], dataset: r.dataset } }
pub fn prev<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>> {
    match r.inner.prev { Some(ref t) => Some(crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_data_map[t], dataset: r.dataset }), None => None }
}
pub fn next<'a>(r: &crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>> {
    match r.inner.next { Some(ref t) => Some(crate::dataset::nuscenes::WithDataset { inner: &r.dataset.sample_data_map[t], dataset: r.dataset }), None => None }
}
pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::SampleData, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::SampleData>> {
    match it.tokens_iter.next() { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &it.dataset.sample_data_map[t], dataset: it.dataset }), None => None }
}
pub fn open(r: &WithDataset<SampleData>) -> IoResult<File> { File::open(r.dataset.dataset_dir.join(&r.inner.filename)) }
pub fn load_raw(r: &WithDataset<SampleData>) -> NuScenesResult<Vec<u8>> {
    let mut bytes = Vec::new();
    let file = File::open(r.dataset.dataset_dir.join(&r.inner.filename))?;
    BufReader::new(file).read_to_end(&mut bytes)?;
    Ok(bytes)
}
pub fn load(r: &WithDataset<SampleData>) -> NuScenesResult<LoadedSampleData> {
    let path = r.dataset.dataset_dir.join(&r.inner.filename);
    let bad = || NuScenesError::CorruptedDataset(String::new());
    let dir = path.parent().ok_or_else(bad)?.file_name().ok_or_else(bad)?.to_str().ok_or_else(bad)?;
    if r.inner.fileformat != FileFormat::Bin { return Ok(LoadedSampleData::Image(image::open(path)?)); }
    if dir != "lidar" { return Err(bad()); }
    let bytes = r.load_raw()?;
    let values = match safe_transmute::transmute_many::<f32, SingleManyGuard>(&bytes) { Ok(v) => v, Err(_) => return Err(bad()) };
    if values.len() % 5 != 0 { return Err(bad()); }
    Ok(LoadedSampleData::PointCloud(PointCloudMatrix::from_row_slice_generic(Dyn(values.len() / 5), U5, values)))
}
