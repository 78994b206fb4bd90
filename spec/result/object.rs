pub fn is_label_correct(r: &PerceptionResult) -> bool {
    r.ground_truth_object.as_ref().map(|g| g.label == r.estimated_object.label) == Some(true)
}
pub fn verdict(r: &PerceptionResult, mode: &MatchingMode, t: f64) -> bool {
    match &r.ground_truth_object {
        None => false,
        Some(g) => {
            let e = &r.estimated_object;
            match mode {
                MatchingMode::CenterDistance => crate::matching::vp_spec::center(e, g) < t,
                MatchingMode::PlaneDistance => crate::matching::vp_spec::plane(e, g) < t,
                MatchingMode::Iou2d => crate::matching::vp_spec::iou2d(e, g) > t,
                MatchingMode::Iou3d => crate::matching::vp_spec::iou3d(e, g) > t,
            }
        }
    }
}
pub fn is_result_correct(r: &PerceptionResult, mode: &MatchingMode, t: &f64) -> MatchingResult<bool> { Ok(verdict(r, mode, *t)) }
pub fn new(e: DynamicObject, g: Option<DynamicObject>) -> PerceptionResult { PerceptionResult { ground_truth_object: g, estimated_object: e } }
pub fn get_fp_perception_results(es: &[DynamicObject]) -> Vec<PerceptionResult> {
    let mut out = vec![];
    for e in es { out.push(PerceptionResult { estimated_object: e.clone(), ground_truth_object: None }); }
    out
}
pub fn score_table(es: &Vec<DynamicObject>, gs: &Vec<DynamicObject>, m: CenterDistanceMatching) -> Vec<Vec<Option<f64>>> {
    es.iter().map(|e| gs.iter().map(|g| if g.label == e.label { Some(m.calculate_matching_score(e, g)) } else { None }).collect()).collect()
}
// --- equivalent forms of get_perception_results
// Every round takes one estimation that was not taken before (its row of the table is empty afterwards), so after as many rounds as
// there are estimations none is left: the bound on the rounds and the test that some estimation is left are redundant.
pub fn best_pair(table: &Vec<Vec<Option<f64>>>) -> Option<(usize, usize)> {
    let mut best: Option<(usize, usize, f64)> = None;
    for (i, row) in table.iter().enumerate() {
        for (j, score) in row.iter().enumerate() {
            if let Some(s) = score {
                if best.map_or(true, |(_, _, b)| *s < b) { best = Some((i, j, *s)); }
            }
        }
    }
    match best { Some((i, j, _)) => Some((i, j)), None => None }
}
pub fn take(es: &Vec<DynamicObject>, gs: &Vec<DynamicObject>, table: &mut Vec<Vec<Option<f64>>>, i: usize, j: usize, results: &mut Vec<PerceptionResult>, took: &mut Vec<usize>) {
    results.push(PerceptionResult { estimated_object: es[i].clone(), ground_truth_object: Some(gs[j].clone()) });
    table[i].fill(None);
    table.iter_mut().for_each(|row| row[j] = None);
    took.push(i);
}
pub fn rest(es: &Vec<DynamicObject>, took: &Vec<usize>, results: &mut Vec<PerceptionResult>) {
    for (i, e) in es.iter().enumerate() {
        if !took.contains(&i) { results.push(PerceptionResult { estimated_object: e.clone(), ground_truth_object: None }); }
    }
}
pub fn greedy_rounds(es: &Vec<DynamicObject>, gs: &Vec<DynamicObject>) -> Vec<PerceptionResult> {
    let mut results = vec![];
    if es.is_empty() { return results; }
    if gs.is_empty() { return get_fp_perception_results(es); }
    let mut table = score_table(es, gs, CenterDistanceMatching);
    let mut took = vec![];
    for _ in 0..es.len() {
        match best_pair(&table) {
            Some((i, j)) => take(es, gs, &mut table, i, j, &mut results, &mut took),
            None => break,
        }
    }
    rest(es, &took, &mut results);
    results
}
pub fn greedy_all(es: &Vec<DynamicObject>, gs: &Vec<DynamicObject>) -> Vec<PerceptionResult> {
    let mut results = vec![];
    if es.is_empty() { return results; }
    if gs.is_empty() { return get_fp_perception_results(es); }
    let mut table = score_table(es, gs, CenterDistanceMatching);
    let mut took = vec![];
    while let Some((i, j)) = best_pair(&table) { take(es, gs, &mut table, i, j, &mut results, &mut took); }
    rest(es, &took, &mut results);
    results
}
pub fn greedy_all_left(es: &Vec<DynamicObject>, gs: &Vec<DynamicObject>) -> Vec<PerceptionResult> {
    let mut results = vec![];
    if es.is_empty() { return results; }
    if gs.is_empty() { return get_fp_perception_results(es); }
    let mut table = score_table(es, gs, CenterDistanceMatching);
    let mut took = vec![];
    while let Some((i, j)) = best_pair(&table) { take(es, gs, &mut table, i, j, &mut results, &mut took); }
    if took.len() < es.len() { rest(es, &took, &mut results); }
    results
}
