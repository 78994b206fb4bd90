pub fn new(results: Vec<PerceptionResult>, gt: FrameGroundTruth, target_labels: &[Label], mode: MatchingMode, thresholds: &[f64]) -> MatchingResult<PerceptionFrameResult> {
    let verdict = |r: &PerceptionResult| -> Option<bool> {
        let t = get_label_threshold(&r.estimated_object.label, target_labels, thresholds)?;
        Some(r.is_result_correct(&mode, &t).unwrap())
    };
    let tp: Vec<_> = results.iter().filter(|r| verdict(r) == Some(true)).cloned().collect();
    let fp: Vec<_> = results.iter().filter(|r| verdict(r) == Some(false)).cloned().collect();
    let missed: Vec<_> = gt.objects.iter().filter(|g| !tp.iter().any(|r| match &r.ground_truth_object { Some(x) => x == *g, None => false })).cloned().collect();
    Ok(PerceptionFrameResult { results, frame_ground_truth: gt, tp_results: tp, fp_results: fp, fn_objects: missed })
}
pub fn separate(results: &[PerceptionResult], target_labels: &[Label], mode: &MatchingMode, thresholds: &[f64]) -> MatchingResult<(Vec<PerceptionResult>, Vec<PerceptionResult>)> {
    let verdict = |r: &PerceptionResult| -> Option<bool> {
        let t = get_label_threshold(&r.estimated_object.label, target_labels, thresholds)?;
        Some(r.is_result_correct(mode, &t).unwrap())
    };
    let tp: Vec<_> = results.iter().filter(|r| verdict(r) == Some(true)).cloned().collect();
    let fp: Vec<_> = results.iter().filter(|r| verdict(r) == Some(false)).cloned().collect();
    Ok((tp, fp))
}
pub fn is_fn_object(g: &DynamicObject, tp: &[PerceptionResult]) -> bool {
    !tp.iter().any(|r| match &r.ground_truth_object { Some(x) => x == g, None => false })
}
pub fn extract_fn(gts: &[DynamicObject], tp: &[PerceptionResult]) -> Vec<DynamicObject> {
    gts.iter().filter(|g| is_fn_object(g, tp)).cloned().collect()
}
pub fn results(r: &PerceptionFrameResult) -> &Vec<PerceptionResult> { &r.results }
pub fn frame_ground_truth(r: &PerceptionFrameResult) -> &FrameGroundTruth { &r.frame_ground_truth }
pub fn tp_results(r: &PerceptionFrameResult) -> &Vec<PerceptionResult> { &r.tp_results }
pub fn fp_results(r: &PerceptionFrameResult) -> &Vec<PerceptionResult> { &r.fp_results }
pub fn fn_objects(r: &PerceptionFrameResult) -> &Vec<DynamicObject> { &r.fn_objects }
