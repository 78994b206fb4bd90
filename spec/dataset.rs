pub fn get_current_frame(frames: &[FrameGroundTruth], t: &NaiveDateTime) -> Option<FrameGroundTruth> {
    let t = t.timestamp_millis();
    let gap = |f: &FrameGroundTruth| (f.timestamp.timestamp_millis() - t).abs();
    // min_by_key returns the first of several minima
    frames.iter().min_by_key(|f| gap(f)).filter(|f| gap(f) < 75).cloned()
}
pub fn load_all(version: &str, data_root: &PathBuf, evaluation_task: &EvaluationTask, frame_id: &FrameID) -> DatasetResult<Vec<FrameGroundTruth>> {
    let nusc = NuScenes::load(version, data_root)?;
    let mut frames = Vec::new();
    for sample in nusc.sample_iter() { frames.push(sample_to_frame(&nusc, &sample, frame_id)?); }
    Ok(frames)
}
pub fn to_frame(nusc: &NuScenes, sample: &WithDataset<SampleInternal>, frame_id: &FrameID) -> DatasetResult<FrameGroundTruth> {
    let converter = LabelConverter::new("autoware")?;
    let mut objects = Vec::new();
    for data in sample.sample_data_iter() {
        let sensor = &nusc.sensor_map[&nusc.calibrated_sensor_map[&data.calibrated_sensor_token].sensor_token];
        if sensor.modality == Modality::Lidar && data.timestamp == sample.timestamp {
            // boxes in the ego frame
            let (_, boxes) = nusc.get_sample_data(&data.token, &false)?;
            for b in boxes {
                objects.push(DynamicObject {
                    timestamp: sample.timestamp,
                    frame_id: frame_id.clone(),
                    position: b.position,
                    orientation: b.orientation,
                    size: b.size,
                    velocity: None,
                    confidence: 1.0,
                    label: converter.convert(&b.name),
                    pointcloud_num: Some(b.num_lidar_pts),
                    uuid: Some(b.instance.to_string()),
                });
            }
        }
    }
    Ok(FrameGroundTruth { timestamp: sample.timestamp, objects })
}
pub fn show_frame(frame: &FrameGroundTruth, f: &mut Formatter<'_>) -> FormatResult { write!(f, "timestamp: {:?}, num objects: {}", frame.timestamp, frame.objects.len()) }
