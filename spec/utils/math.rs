pub fn quaternion2rotation(q: &[f64; 4]) -> RotationMatrix<f64> {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    // column j is the image of the j-th axis
    let mut m = RotationMatrix::<f64>::zeros();
    m[(0, 0)] = 2.0 * w * w + 2.0 * x * x - 1.0;
    m[(1, 0)] = 2.0 * x * y + 2.0 * w * z;
    m[(2, 0)] = 2.0 * x * z - 2.0 * w * y;
    m[(0, 1)] = 2.0 * x * y - 2.0 * w * z;
    m[(1, 1)] = 2.0 * w * w + 2.0 * y * y - 1.0;
    m[(2, 1)] = 2.0 * y * z + 2.0 * w * x;
    m[(0, 2)] = 2.0 * x * z + 2.0 * w * y;
    m[(1, 2)] = 2.0 * y * z - 2.0 * w * x;
    m[(2, 2)] = 2.0 * w * w + 2.0 * z * z - 1.0;
    m
}
pub fn quaternion2euler(q: &[f64; 4]) -> [f64; 3] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let s = 2.0 * (w * y - x * z);
    [
        (2.0 * (w * x + y * z)).atan2(1.0 - 2.0 * (x * x + y * y)),
        2.0 * ((1.0 + s) / (1.0 - s)).sqrt().atan() - PI / 2.0,
        (2.0 * (w * z + x * y)).atan2(1.0 - 2.0 * (y * y + z * z)),
    ]
}
pub fn inverse_quaternion(q: &[f64; 4]) -> [f64; 4] {
    let n = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3];
    [q[0] / n, -(q[1] / n), -(q[2] / n), -(q[3] / n)]
}
pub fn translate(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn translate_inv(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn rotate(p: &[f64; 3], q: &[f64; 4]) -> [f64; 3] {
    let (w, x, y, z) = (q[0], q[1], q[2], q[3]);
    let n = 2.0 * w * w - 1.0;
    let dot = x * p[0] + y * p[1] + z * p[2];
    // Rodrigues: (2w^2 - 1) p + 2 (v.p) v + 2w v x p
    [
        n * p[0] + 2.0 * dot * x + 2.0 * w * (y * p[2] - z * p[1]),
        n * p[1] + 2.0 * dot * y + 2.0 * w * (z * p[0] - x * p[2]),
        n * p[2] + 2.0 * dot * z + 2.0 * w * (x * p[1] - y * p[0]),
    ]
}
pub fn rotate_inv(p: &[f64; 3], q: &[f64; 4]) -> [f64; 3] { rotate(p, &inverse_quaternion(q)) }
pub fn rotate_q(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] {
    // scalar and vector part of the product q2 q1
    let (a, v) = (q2[0], [q2[1], q2[2], q2[3]]);
    let (b, u) = (q1[0], [q1[1], q1[2], q1[3]]);
    let dot = v[0] * u[0] + v[1] * u[1] + v[2] * u[2];
    let cross = [v[1] * u[2] - v[2] * u[1], v[2] * u[0] - v[0] * u[2], v[0] * u[1] - v[1] * u[0]];
    [
        a * b - dot,
        a * u[0] + b * v[0] + cross[0],
        a * u[1] + b * v[1] + cross[1],
        a * u[2] + b * v[2] + cross[2],
    ]
}
pub fn rotate_q_inv(q1: &[f64; 4], q2: &[f64; 4]) -> [f64; 4] { rotate_q(q1, &inverse_quaternion(q2)) }
