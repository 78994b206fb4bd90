pub fn item<'a, It: Iterator<Item = &'a crate::dataset::nuscenes::schema::LongToken>>(it: &mut crate::dataset::nuscenes::iter::Iter<'a, crate::dataset::nuscenes::schema::Log, It>) -> Option<crate::dataset::nuscenes::WithDataset<'a, crate::dataset::nuscenes::schema::Log>> {
    // tokens without a record are skipped
    let d = it.dataset;
    match it.tokens_iter.find(|t| d.log_map.contains_key(t)) { Some(t) => Some(crate::dataset::nuscenes::WithDataset { inner: &d.log_map[t], dataset: d }), None => None }
}
pub fn open(r: &WithDataset<Log>) -> IoResult<Option<File>> {
    match &r.inner.logfile { None => Ok(None), Some(p) => match File::open(r.dataset.dataset_dir.join(p)) { Ok(f) => Ok(Some(f)), Err(e) => Err(e) } }
}
