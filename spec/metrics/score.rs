pub fn new(params: &MetricsParams) -> MetricsScore { MetricsScore { params: params.clone(), scores: vec![] } }
pub fn evaluate(score: &mut MetricsScore, results: &HashMap<Label, Vec<PerceptionResult>>, num: &HashMap<Label, usize>) {
    let c = DetectionMetricsScore::new(results, num, &score.params.target_labels, &MatchingMode::CenterDistance, &score.params.center_distance_thresholds);
    let p = DetectionMetricsScore::new(results, num, &score.params.target_labels, &MatchingMode::PlaneDistance, &score.params.plane_distance_thresholds);
    score.scores.push(c);
    score.scores.push(p);
}
