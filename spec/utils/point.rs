pub fn distance_points(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let (x, y, z) = (a[0] - b[0], a[1] - b[1], a[2] - b[2]);
    (x * x + y * y + z * z).sqrt()
}
pub fn distance_points_bev(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let (x, y) = (a[0] - b[0], a[1] - b[1]);
    (x * x + y * y).sqrt()
}
pub fn get_point_left_right<'a>(a: &'a [f64; 3], b: &'a [f64; 3]) -> (&'a [f64; 3], &'a [f64; 3]) {
    if a[1] * b[0] > a[0] * b[1] { (a, b) } else { (b, a) }
}
