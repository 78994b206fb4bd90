pub fn state(o: &DynamicObject) -> ObjectState {
    ObjectState { velocity: o.velocity, size: o.size, orientation: o.orientation, position: o.position }
}
pub fn area(o: &DynamicObject) -> f64 { o.size[1] * o.size[0] }
pub fn volume(o: &DynamicObject) -> f64 { o.size[2] * o.size[1] * o.size[0] }
pub fn distance(o: &DynamicObject) -> f64 {
    let p = o.position;
    (p[0] * p[0] + p[1] * p[1] + p[2] * p[2]).sqrt()
}
pub fn distance_bev(o: &DynamicObject) -> f64 {
    let p = o.position;
    (p[0] * p[0] + p[1] * p[1]).sqrt()
}
pub fn distance_from(o: &DynamicObject, q: &[f64; 3]) -> f64 {
    let d = [q[0] - o.position[0], q[1] - o.position[1], q[2] - o.position[2]];
    (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
}
pub fn distance_bev_from(o: &DynamicObject, q: &[f64; 3]) -> f64 {
    let d = [q[0] - o.position[0], q[1] - o.position[1]];
    (d[0] * d[0] + d[1] * d[1]).sqrt()
}
pub fn rotation_matrix(o: &DynamicObject) -> RotationMatrix<f64> { crate::utils::math::vp_spec::quaternion2rotation(&o.orientation) }
pub fn euler(o: &DynamicObject) -> [f64; 3] { crate::utils::math::vp_spec::quaternion2euler(&o.orientation) }
pub fn heading(o: &DynamicObject) -> f64 {
    let yaw = crate::utils::math::vp_spec::quaternion2euler(&o.orientation)[2];
    if yaw > PI { yaw - 2.0 * PI } else if yaw < -PI { yaw + 2.0 * PI } else { yaw }
}
pub fn footprint(o: &DynamicObject) -> Vec<[f64; 3]> {
    let (hw, hl) = (o.size[0] / 2.0, o.size[1] / 2.0);
    let mut out = Vec::new();
    for (sx, sy) in [(1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)] {
        let p = crate::utils::math::vp_spec::rotate(&[sx * hl, sy * hw, 0.0], &o.orientation);
        out.push([p[0] + o.position[0], p[1] + o.position[1], p[2] + o.position[2]]);
    }
    out
}
pub fn same_object(a: &DynamicObject, b: &DynamicObject) -> bool {
    let mut same = a.label == b.label && a.frame_id == b.frame_id && a.timestamp == b.timestamp;
    for i in 0..4 { same = same && a.orientation[i] == b.orientation[i]; }
    for i in 0..3 { same = same && a.position[i] == b.position[i]; }
    same
}
pub fn clone_object(o: &DynamicObject) -> DynamicObject {
    DynamicObject {
        timestamp: o.timestamp, frame_id: o.frame_id.clone(), position: o.position, orientation: o.orientation, size: o.size,
        velocity: o.velocity, confidence: o.confidence, label: o.label.clone(), pointcloud_num: o.pointcloud_num, uuid: o.uuid.clone(),
    }
}
