/// the documented conjunction, for one object
pub fn passes(o: &DynamicObject, is_gt: bool, p: &FilterParams) -> bool {
    match p.target_labels.iter().position(|l| *l == o.label) {
        None => false,
        Some(i) => {
            let enough_points = match (&p.min_point_numbers, o.pointcloud_num) {
                (Some(mins), Some(n)) => n >= mins.get(i).copied().unwrap_or(0),
                _ => true,
            };
            let wanted = match (&p.target_uuids, &o.uuid) {
                (None, _) => true,
                (Some(_), None) => false,
                (Some(list), Some(u)) => list.iter().any(|x| x == u),
            };
            o.position[0].abs() < p.max_x_positions[i]
                && o.position[1].abs() < p.max_y_positions[i]
                && (!is_gt || (enough_points && wanted))
        }
    }
}
pub fn filter_objects(objects: &[DynamicObject], is_gt: bool, p: &FilterParams) -> Vec<DynamicObject> {
    objects.iter().filter(|o| passes(o, is_gt, p)).cloned().collect()
}
pub fn hash_objects(objects: &[DynamicObject], target_labels: &[Label]) -> HashMap<Label, Vec<DynamicObject>> {
    let mut m = HashMap::new();
    for l in target_labels {
        m.insert(l.clone(), objects.iter().filter(|o| o.label == *l).cloned().collect::<Vec<_>>());
    }
    m
}
pub fn hash_num_objects(objects: &[DynamicObject], target_labels: &[Label]) -> HashMap<Label, usize> {
    let mut m = HashMap::new();
    for l in target_labels {
        m.insert(l.clone(), objects.iter().filter(|o| o.label == *l).count());
    }
    m
}
pub fn hash_results(results: &[PerceptionResult], target_labels: &[Label]) -> HashMap<Label, Vec<PerceptionResult>> {
    let mut m = HashMap::new();
    for l in target_labels {
        m.insert(l.clone(), results.iter().filter(|r| r.estimated_object.label == *l).cloned().collect::<Vec<_>>());
    }
    m
}
pub fn hash_num_results(results: &[PerceptionResult], target_labels: &[Label]) -> HashMap<Label, usize> {
    let mut m = HashMap::new();
    for l in target_labels {
        m.insert(l.clone(), results.iter().filter(|r| r.estimated_object.label == *l).count());
    }
    m
}
