fn lookup<T: Copy>(label: &Label, target_labels: &[Label], thresholds: &[T]) -> Option<T> {
    let mut i = 0;
    while i < target_labels.len() {
        if target_labels[i] == *label {
            return if i < thresholds.len() { Some(thresholds[i]) } else { None };
        }
        i += 1;
    }
    None
}
pub fn lookup_f64(label: &Label, target_labels: &[Label], thresholds: &[f64]) -> Option<f64> { lookup(label, target_labels, thresholds) }
pub fn lookup_usize(label: &Label, target_labels: &[Label], thresholds: &[usize]) -> Option<usize> { lookup(label, target_labels, thresholds) }
pub fn method_f64(t: &LabelThreshold, thresholds: &[f64]) -> Option<f64> { lookup(t.label, t.target_labels, thresholds) }
pub fn method_usize(t: &LabelThreshold, thresholds: &[usize]) -> Option<usize> { lookup(t.label, t.target_labels, thresholds) }
