pub fn sample(s: Sample, annotation_tokens: Vec<LongToken>, sample_data_tokens: Vec<LongToken>) -> SampleInternal {
    SampleInternal { token: s.token, next: s.next, prev: s.prev, timestamp: s.timestamp, scene_token: s.scene_token, annotation_tokens, sample_data_tokens }
}
