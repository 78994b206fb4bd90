use crate::metrics::tp_metrics::{TPMetricsAP as WAp, TPMetricsAPH as WAph};
fn cumulate<T: TPMetrics>(ap: &Ap, weight: T, mode: &MatchingMode, threshold: &f64) -> (Vec<f64>, Vec<f64>) {
    if ap.results.len() == 0 && *ap.num_ground_truth == 0 { return (vec![], vec![]); }
    let mut ranked: Vec<&PerceptionResult> = ap.results.iter().collect();
    // descending; the sort is stable
    ranked.sort_by(|a, b| a.estimated_object.confidence.total_cmp(&b.estimated_object.confidence).reverse());
    let (mut tp, mut fp) = (Vec::new(), Vec::new());
    let (mut t, mut f) = (0.0, 0.0);
    for r in ranked {
        if r.is_result_correct(mode, threshold).unwrap() { t += weight.get_value(r); } else { f += 1.0; }
        tp.push(t);
        fp.push(f);
    }
    (tp, fp)
}
pub fn tp_fp_ap(ap: &Ap, weight: WAp, mode: &MatchingMode, threshold: &f64) -> (Vec<f64>, Vec<f64>) { cumulate(ap, weight, mode, threshold) }
pub fn tp_fp_aph(ap: &Ap, weight: WAph, mode: &MatchingMode, threshold: &f64) -> (Vec<f64>, Vec<f64>) { cumulate(ap, weight, mode, threshold) }
pub fn precision_recall(ap: &Ap, tp: &[f64]) -> (Vec<f64>, Vec<f64>) {
    let (n, g) = (ap.results.len(), *ap.num_ground_truth);
    let (mut p, mut r) = (Vec::new(), Vec::new());
    if n == 0 && g == 0 { return (p, r); }
    for k in 0..n {
        // values beyond the cumulated ones stay 0
        p.push(if k < tp.len() { tp[k] / (k as f64 + 1.0) } else { 0.0 });
        r.push(if k < tp.len() && g != 0 { tp[k] / g as f64 } else { 0.0 });
    }
    (p, r)
}
pub fn interpolate(ap: &Ap, precision: Vec<f64>, recall: Vec<f64>) -> (Vec<f64>, Vec<f64>) {
    let (mut p, mut r): (Vec<f64>, Vec<f64>) = (Vec::new(), Vec::new());
    if ap.results.is_empty() && *ap.num_ground_truth == 0 { return (p, r); }
    let n = recall.len();
    for j in 0..n {
        let k = n - 1 - j;
        if p.is_empty() || p[p.len() - 1] < precision[k] {
            p.push(precision[k]);
            r.push(recall[k]);
        }
    }
    let top = if p.is_empty() { 0.0 } else { p[p.len() - 1] };
    p.push(top);
    r.push(0.0);
    (p, r)
}
fn area<T: TPMetrics>(ap: &Ap, weight: T, mode: &MatchingMode, threshold: &f64) -> f64 {
    let (tp, _) = ap.calculate_tp_fp(weight, mode, threshold);
    let (p, r) = ap.calculate_precision_recall(&tp);
    let (p, r) = ap.interpolate_precision_recall(p, r);
    if p.len() == 0 { return f64::NAN; }
    let mut sum = 0.0;
    for k in 1..p.len() { sum += p[k - 1] * (r[k - 1] - r[k]); }
    sum
}
pub fn ap_ap(ap: &Ap, weight: WAp, mode: &MatchingMode, threshold: &f64) -> f64 { area(ap, weight, mode, threshold) }
pub fn ap_aph(ap: &Ap, weight: WAph, mode: &MatchingMode, threshold: &f64) -> f64 { area(ap, weight, mode, threshold) }
pub fn ap_new<'a>(results: &'a Vec<PerceptionResult>, num_ground_truth: &'a usize) -> Ap<'a> { Ap { num_ground_truth, results } }
pub fn scores(results: &HashMap<Label, Vec<PerceptionResult>>, num: &HashMap<Label, usize>, target_labels: &Vec<Label>, mode: &MatchingMode, thresholds: &Vec<f64>) -> DetectionMetricsScore {
    let n = target_labels.len();
    let (mut ap, mut aph) = (Vec::new(), Vec::new());
    for i in 0..n {
        let (mut a, mut h) = (0.0, 0.0);
        if i < thresholds.len() {
            let r = &results[&target_labels[i]];
            let g = &num[&target_labels[i]];
            let all = Ap { results: r, num_ground_truth: g };
            a = all.calculate_ap(TPMetricsAP, mode, &thresholds[i]);
            h = all.calculate_ap(TPMetricsAPH, mode, &thresholds[i]);
        }
        ap.push(a);
        aph.push(h);
    }
    let mut scores = BTreeMap::new();
    scores.insert("APH".to_string(), aph);
    scores.insert("AP".to_string(), ap);
    DetectionMetricsScore { target_labels: target_labels.clone(), matching_mode: mode.clone(), thresholds: thresholds.clone(), scores }
}
