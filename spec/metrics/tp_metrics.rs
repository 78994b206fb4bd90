pub fn ap(_: &TPMetricsAP, r: &PerceptionResult) -> f64 { if r.ground_truth_object.is_some() { 1.0 } else { 0.0 } }
pub fn aph(_: &TPMetricsAPH, r: &PerceptionResult) -> f64 {
    match &r.ground_truth_object {
        None => 0.0,
        Some(g) => {
            let d = (g.heading() - r.estimated_object.heading()).abs();
            // the short way round the circle
            let d = if d > PI { 2.0 * PI - d } else { d };
            (1.0 - d / PI).clamp(0.0, 1.0)
        }
    }
}
