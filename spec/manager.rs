pub fn from<'a>(config: &'a PerceptionEvaluationConfig) -> DatasetResult<PerceptionEvaluationManager<'a>> {
    match load_dataset(&config.version, &config.dataset_path, &config.evaluation_task, &config.frame_id) {
        Ok(frames) => Ok(PerceptionEvaluationManager { config, frame_ground_truths: frames, frame_results: vec![] }),
        Err(e) => Err(e),
    }
}
pub fn filter_ground_truth(m: &PerceptionEvaluationManager, gt: &FrameGroundTruth) -> FrameGroundTruth {
    FrameGroundTruth { timestamp: gt.timestamp, objects: filter_objects(&gt.objects, true, &m.config.filter_params) }
}
pub fn add_frame(m: &mut PerceptionEvaluationManager, estimations: &[DynamicObject], gt: &FrameGroundTruth) -> MatchingResult<()> {
    let est = filter_objects(estimations, false, &m.config.filter_params);
    let gts = filter_objects(&gt.objects, true, &m.config.filter_params);
    let results = get_perception_results(&est, &gts);
    let frame = PerceptionFrameResult::new(
        results,
        FrameGroundTruth { timestamp: gt.timestamp, objects: gts },
        &m.config.filter_params.target_labels,
        MatchingMode::PlaneDistance,
        &m.config.metrics_params.plane_distance_thresholds,
    );
    match frame {
        Err(e) => Err(e),
        Ok(f) => {
            m.frame_results.push(f);
            Ok(())
        }
    }
}
pub fn nearest(m: &PerceptionEvaluationManager, timestamp: &NaiveDateTime) -> Option<FrameGroundTruth> { get_current_frame(&m.frame_ground_truths, timestamp) }
pub fn score(m: &PerceptionEvaluationManager) -> MetricsResult<MetricsScore> {
    if m.config.evaluation_task != EvaluationTask::Detection {
        return Err(MetricsError::NotImplementedError(m.config.evaluation_task.clone()));
    }
    let labels = &m.config.metrics_params.target_labels;
    let mut results = HashMap::new();
    let mut num = HashMap::new();
    for label in labels {
        // every result and every ground truth of the label, over all frames
        let mut all = Vec::new();
        let mut count = 0;
        for frame in &m.frame_results {
            for r in frame.results() { if r.estimated_object.label == *label { all.push(r.clone()); } }
            for o in &frame.frame_ground_truth().objects { if o.label == *label { count += 1; } }
        }
        results.insert(label.clone(), all);
        num.insert(label.clone(), count);
    }
    let mut s = MetricsScore::new(&m.config.metrics_params);
    s.evaluate_detection(&results, &num);
    Ok(s)
}
