use crate::utils::math::vp_spec as m;
fn with(b: &NuScenesBox, position: [f64; 3], orientation: [f64; 4]) -> NuScenesBox {
    NuScenesBox { position, orientation, size: b.size, name: b.name.clone(), instance: b.instance.clone(), num_lidar_pts: b.num_lidar_pts, token: b.token.clone() }
}
pub fn translate(b: &mut NuScenesBox, t: &[f64; 3]) { *b = with(b, m::translate(&b.position, t), b.orientation) }
pub fn translate_inv(b: &mut NuScenesBox, t: &[f64; 3]) { *b = with(b, m::translate_inv(&b.position, t), b.orientation) }
pub fn rotate(b: &mut NuScenesBox, q: &[f64; 4]) { *b = with(b, m::rotate(&b.position, q), m::rotate_q(&b.orientation, q)) }
pub fn rotate_inv(b: &mut NuScenesBox, q: &[f64; 4]) { *b = with(b, m::rotate_inv(&b.position, q), m::rotate_q_inv(&b.orientation, q)) }
pub fn get_translate(b: &NuScenesBox, t: &[f64; 3]) -> [f64; 3] { m::translate(&b.position, t) }
pub fn get_translate_inv(b: &NuScenesBox, t: &[f64; 3]) -> [f64; 3] { m::translate_inv(&b.position, t) }
