pub fn center(e: &DynamicObject, g: &DynamicObject) -> f64 {
    let d = [e.position[0] - g.position[0], e.position[1] - g.position[1], e.position[2] - g.position[2]];
    (d[0] * d[0] + d[1] * d[1] + d[2] * d[2]).sqrt()
}
/// the two footprint corners nearest to the origin: (left, right) as seen from there
fn near_side(o: &DynamicObject) -> ([f64; 3], [f64; 3]) {
    let mut c = o.footprint();
    c.sort_by(|a, b| a[0].hypot(a[1]).partial_cmp(&b[0].hypot(b[1])).unwrap());
    // b is clockwise of a
    if c[0][0] * c[1][1] - c[0][1] * c[1][0] < 0.0 { (c[0], c[1]) } else { (c[1], c[0]) }
}
pub fn plane(e: &DynamicObject, g: &DynamicObject) -> f64 {
    let (el, er) = near_side(e);
    let (gl, gr) = near_side(g);
    let l2 = (el[0] - gl[0]) * (el[0] - gl[0]) + (el[1] - gl[1]) * (el[1] - gl[1]);
    let r2 = (er[0] - gr[0]) * (er[0] - gr[0]) + (er[1] - gr[1]) * (er[1] - gr[1]);
    (0.5 * (l2 + r2)).sqrt()
}
fn base(o: &DynamicObject) -> Polygon<f64> {
    let f = o.footprint();
    let c = |i: usize| Coord { x: f[i][0], y: f[i][1] };
    Polygon::new(geo::LineString::from(vec![c(0), c(1), c(2), c(3), c(0)]), vec![])
}
pub fn overlap_area(e: &DynamicObject, g: &DynamicObject) -> f64 { base(e).intersection(&base(g)).unsigned_area() }
pub fn overlap_height(e: &DynamicObject, g: &DynamicObject) -> f64 {
    let top = (e.position[2] + e.size[2] / 2.0).min(g.position[2] + g.size[2] / 2.0);
    let bottom = (e.position[2] - e.size[2] / 2.0).max(g.position[2] - g.size[2] / 2.0);
    (top - bottom).max(0.0)
}
pub fn overlap_volume(e: &DynamicObject, g: &DynamicObject) -> f64 { overlap_area(e, g) * overlap_height(e, g) }
fn ratio(i: f64, a: f64, b: f64) -> f64 {
    let u = a + b - i;
    if u == 0.0 { 0.0 } else { i / u }
}
pub fn iou2d(e: &DynamicObject, g: &DynamicObject) -> f64 {
    ratio(overlap_area(e, g), e.size[0] * e.size[1], g.size[0] * g.size[1])
}
pub fn iou3d(e: &DynamicObject, g: &DynamicObject) -> f64 {
    ratio(overlap_volume(e, g), e.size[0] * e.size[1] * e.size[2], g.size[0] * g.size[1] * g.size[2])
}
pub fn m_center(_: &CenterDistanceMatching, e: &DynamicObject, g: &DynamicObject) -> f64 { center(e, g) }
pub fn m_plane(_: &PlaneDistanceMatching, e: &DynamicObject, g: &DynamicObject) -> f64 { plane(e, g) }
pub fn m_iou2d(_: &Iou2dMatching, e: &DynamicObject, g: &DynamicObject) -> f64 { iou2d(e, g) }
pub fn m_iou3d(_: &Iou3dMatching, e: &DynamicObject, g: &DynamicObject) -> f64 { iou3d(e, g) }
pub fn b_center(_: &CenterDistanceMatching, e: &DynamicObject, g: &DynamicObject, t: &f64) -> bool { center(e, g) < *t }
pub fn b_plane(_: &PlaneDistanceMatching, e: &DynamicObject, g: &DynamicObject, t: &f64) -> bool { plane(e, g) < *t }
pub fn b_iou2d(_: &Iou2dMatching, e: &DynamicObject, g: &DynamicObject, t: &f64) -> bool { iou2d(e, g) > *t }
pub fn b_iou3d(_: &Iou3dMatching, e: &DynamicObject, g: &DynamicObject, t: &f64) -> bool { iou3d(e, g) > *t }
