fn autoware(names: &Vec<&str>) -> LabelResult<Vec<Label>> {
    let c = LabelConverter::new("autoware")?;
    Ok(names.iter().map(|n| c.convert(n)).collect())
}
pub fn filter_params(names: &Vec<&str>, x: f64, y: f64, points: Option<usize>, uuids: Option<Vec<String>>) -> LabelResult<FilterParams> {
    let target_labels = autoware(names)?;
    let n = names.len();
    Ok(FilterParams {
        max_x_positions: (0..n).map(|_| x).collect(),
        max_y_positions: (0..n).map(|_| y).collect(),
        min_point_numbers: match points { Some(p) => Some((0..n).map(|_| p).collect()), None => None },
        target_uuids: uuids,
        target_labels,
    })
}
pub fn metrics_params(names: &Vec<&str>, center: f64, plane: f64, iou2d: f64, iou3d: f64) -> LabelResult<MetricsParams> {
    let target_labels = autoware(names)?;
    let n = names.len();
    Ok(MetricsParams {
        center_distance_thresholds: (0..n).map(|_| center).collect(),
        plane_distance_thresholds: (0..n).map(|_| plane).collect(),
        iou2d_thresholds: (0..n).map(|_| iou2d).collect(),
        iou3d_thresholds: (0..n).map(|_| iou3d).collect(),
        target_labels,
    })
}
