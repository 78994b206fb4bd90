fn gone() -> NuScenesError { NuScenesError::CorruptedDataset(String::new()) }
pub fn get_box(d: &NuScenes, token: &LongToken) -> NuScenesResult<NuScenesBox> {
    let a = d.sample_annotation_map.get(token).ok_or_else(gone)?;
    let i = d.instance_map.get(&a.instance_token).ok_or_else(gone)?;
    let c = d.category_map.get(&i.category_token).ok_or_else(gone)?;
    Ok(NuScenesBox { token: a.token.clone(), position: a.translation, size: a.size, orientation: a.rotation, name: c.name.clone(), instance: a.instance_token.clone(), num_lidar_pts: a.num_lidar_pts })
}
pub fn get_boxes(d: &NuScenes, token: &LongToken) -> NuScenesResult<Vec<NuScenesBox>> {
    let data = d.sample_data_map.get(token).ok_or_else(gone)?;
    let sample = d.sample_map.get(&data.sample_token).ok_or_else(gone)?;
    let mut boxes = Vec::new();
    if !(data.is_key_frame || sample.prev.is_none()) {
        for t in &sample.annotation_tokens { boxes.push(d.get_box(&d.sample_annotation_map[t].token)?); }
        return Ok(boxes);
    }
    for t in &sample.annotation_tokens { boxes.push(d.get_box(t)?); }
    Ok(boxes)
}
pub fn get_sample_data_path(d: &NuScenes, token: &LongToken) -> NuScenesResult<PathBuf> {
    match d.sample_data_map.get(token) {
        Some(r) => Ok(d.dataset_dir.join(&r.filename)),
        None => Err(gone()),
    }
}
pub fn get_sample_data(d: &NuScenes, token: &LongToken, use_sensor_frame: &bool) -> NuScenesResult<(PathBuf, Vec<NuScenesBox>)> {
    let data = d.sample_data_map.get(token).ok_or_else(gone)?;
    let sensor = d.calibrated_sensor_map.get(&data.calibrated_sensor_token).ok_or_else(gone)?;
    let ego = d.ego_pose_map.get(&data.ego_pose_token).ok_or_else(gone)?;
    let mut out = Vec::new();
    for mut b in d.get_boxes(token)? {
        // the world frame, then the ego frame, then the sensor frame
        b.translate_inv(&ego.translation);
        b.rotate_inv(&ego.rotation);
        if *use_sensor_frame {
            b.translate_inv(&sensor.translation);
            b.rotate_inv(&sensor.rotation);
        }
        out.push(b);
    }
    Ok((d.dataset_dir.join(&data.filename), out))
}
pub fn attribute_iter(d: &NuScenes) -> Iter<'_, Attribute, HashMapKeys<'_, LongToken, Attribute>> { Iter { dataset: d, tokens_iter: d.attribute_map.keys(), _phantom: PhantomData } }
pub fn calibrated_sensor_iter(d: &NuScenes) -> Iter<'_, CalibratedSensor, HashMapKeys<'_, LongToken, CalibratedSensor>> { Iter { dataset: d, tokens_iter: d.calibrated_sensor_map.keys(), _phantom: PhantomData } }
pub fn category_iter(d: &NuScenes) -> Iter<'_, Category, HashMapKeys<'_, LongToken, Category>> { Iter { dataset: d, tokens_iter: d.category_map.keys(), _phantom: PhantomData } }
pub fn ego_pose_iter(d: &NuScenes) -> Iter<'_, EgoPose, SliceIter<'_, LongToken>> { Iter { dataset: d, tokens_iter: d.sorted_ego_pose_tokens.iter(), _phantom: PhantomData } }
pub fn instance_iter(d: &NuScenes) -> Iter<'_, InstanceInternal, HashMapKeys<'_, LongToken, InstanceInternal>> { Iter { dataset: d, tokens_iter: d.instance_map.keys(), _phantom: PhantomData } }
pub fn log_iter(d: &NuScenes) -> Iter<'_, Log, HashMapKeys<'_, LongToken, Log>> { Iter { dataset: d, tokens_iter: d.log_map.keys(), _phantom: PhantomData } }
pub fn map_iter(d: &NuScenes) -> Iter<'_, Map, HashMapKeys<'_, ShortToken, Map>> { Iter { dataset: d, tokens_iter: d.map_map.keys(), _phantom: PhantomData } }
pub fn sample_iter(d: &NuScenes) -> Iter<'_, SampleInternal, SliceIter<'_, LongToken>> { Iter { dataset: d, tokens_iter: d.sorted_sample_tokens.iter(), _phantom: PhantomData } }
pub fn sample_annotation_iter(d: &NuScenes) -> Iter<'_, SampleAnnotation, HashMapKeys<'_, LongToken, SampleAnnotation>> { Iter { dataset: d, tokens_iter: d.sample_annotation_map.keys(), _phantom: PhantomData } }
pub fn sample_data_iter(d: &NuScenes) -> Iter<'_, SampleData, SliceIter<'_, LongToken>> { Iter { dataset: d, tokens_iter: d.sorted_sample_data_tokens.iter(), _phantom: PhantomData } }
pub fn scene_iter(d: &NuScenes) -> Iter<'_, SceneInternal, SliceIter<'_, LongToken>> { Iter { dataset: d, tokens_iter: d.sorted_scene_tokens.iter(), _phantom: PhantomData } }
pub fn sensor_iter(d: &NuScenes) -> Iter<'_, Sensor, HashMapKeys<'_, LongToken, Sensor>> { Iter { dataset: d, tokens_iter: d.sensor_map.keys(), _phantom: PhantomData } }
pub fn visibility_iter(d: &NuScenes) -> Iter<'_, Visibility, HashMapKeys<'_, String, Visibility>> { Iter { dataset: d, tokens_iter: d.visibility_map.keys(), _phantom: PhantomData } }
