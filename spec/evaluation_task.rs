pub fn from_str(s: &str) -> EvaluationTaskResult<EvaluationTask> {
    for (t, a, b) in [
        (EvaluationTask::Detection, "Detection", "detection"),
        (EvaluationTask::Tracking, "Tracking", "tracking"),
        (EvaluationTask::Prediction, "Prediction", "prediction"),
    ] {
        if s == a || s == b { return Ok(t); }
    }
    Err(EvaluationTaskError::ValueError)
}
pub fn set_task(s: &str) -> EvaluationTaskResult<EvaluationTask> { from_str(s) }
pub fn is_3d(t: &EvaluationTask) -> bool { *t == EvaluationTask::Detection || *t == EvaluationTask::Tracking || *t == EvaluationTask::Prediction }
pub fn is_2d(t: &EvaluationTask) -> bool { !is_3d(t) }
