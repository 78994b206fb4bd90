"""Property -> obligations.  An entry is the name of an obligation of obligations.py, or (name, options)."""
from obligations import O, W, D, R, F, B, A, M, N, SD, TPV
import re

def sel(*pats, no=()):
    """the obligations whose name matches one of the patterns"""
    r = []
    for s in O:
        if any(re.search(p, s) for p in pats) and not any(re.search(p, s) for p in no): r.append(s)
    assert r, pats
    return r

PROPS = {}
def prop(pid, obs=(), rules=(), technique='', note=''):
    PROPS[pid] = dict(obs=list(obs), rules=list(rules), technique=technique, note=note)

GVN = 'MIR dataflow: gated value numbering of each function against its definition'
LOAD = 'dataset::nuscenes::NuScenes::load::<&str, &std::path::PathBuf>'
INST = 'dataset::nuscenes::internal::InstanceInternal::from'
SCENE = 'dataset::nuscenes::internal::SceneInternal::from'
SAMPLE = 'dataset::nuscenes::internal::SampleInternal::from'
ACC = sel(r'iter_impl::.*WithDataset', no=(r'::(open|load|load_raw)$',))
NEXT = sel(r'It>>::next$')
TABLES = sel(r'NuScenes::\w+_iter$')
SCHEMA = 'dataset::nuscenes::schema::'

prop('C01', [LOAD, INST, SCENE, SAMPLE], ['lookups'], GVN + '; lookup-site enumeration')
prop('C02', [INST, SCENE, LOAD], [], GVN)
prop('C03', [LOAD, N + 'get_box', N + 'get_boxes', N + 'get_sample_data', N + 'get_sample_data_path'] + sel(r'::(open|load|load_raw)$') + sel(r'^dataset::nuscenes::load_json'), ['tables'], GVN + '; table wiring query')
prop('C04', ACC + NEXT, [], GVN)
prop('C05', TABLES + NEXT + [LOAD], ['iterators'], GVN + '; iterator signatures')
prop('C06', [LOAD, SCENE, 'dataset::load_dataset'] + sel(r'NuScenes::(sample|sample_data|ego_pose|scene)_iter$'), [], GVN)
prop('C07', sel(r'Token as ', r'serde::\w*Visitor', r'(token|string|logfile|intrinsic)_serde', r'opt_\w+_serde'), ['attrs_nuscenes'], GVN + '; serde attribute query')
prop('C08', sel(r'timestamp_serde'), ['attrs_timestamp'], GVN + '; serde attribute query')
prop('C09', ['dataset::sample_to_frame', 'dataset::load_dataset', N + 'get_box', N + 'get_boxes', N + 'get_sample_data', SAMPLE], [], GVN)
prop('C10', sel(r'^utils::math::', r'NuScenesBox::') + [N + 'get_sample_data'], ['algebra'], GVN + ' plus polynomial identities')
prop('C11', ['config::PerceptionEvaluationConfig::from', 'config::FilterParams::new', 'config::MetricsParams::new', M + 'from'], ['attrs_config', 'builders'], GVN + '; serde attribute query')
prop('C12', ['config::PerceptionEvaluationConfig::from'] + sel(r'^config::load_yaml', r'^config::schema::'), ['config_panics'], GVN + '; panic-site enumeration')
prop('C13', sel(r'EvaluationTask', r'FrameID', r'set_task', r'config::schema::\w+_serde', no=(r'config::Perc',)), ['roundtrip', 'attrs_names'], GVN + '; constant propagation round trip')
prop('C14', sel(r'^label::', r'Label as std::fmt'), ['labels'], GVN)
prop('C15', ['filter::filter_objects', 'filter::is_target_object'], [], GVN)
prop('C16', ['filter::filter_objects', 'filter::is_target_object', 'config::FilterParams::new'], [], GVN)
prop('C17', sel(r'^filter::hash_'), [], GVN)
prop('C18', sel(r'^threshold::'), [], GVN)
prop('C19', [R + 'is_label_correct', R + 'is_result_correct', R + 'new'] + sel(r'is_better_than'), [], GVN)
prop('C20', sel(r'calculate_matching_score', r'^matching::get_', r'point::'), [], GVN)
prop('C21', [D + x for x in ('area', 'volume', 'distance', 'distance_bev', 'distance_from', 'distance_bev_from', 'rotation_matrix', 'euler', 'heading', 'footprint')] + sel(r'utils::math::quat', r'point::'), [], GVN)
prop('C22', ['result::object::get_perception_results'] + sel(r'get_score_table', r'get_fp_perception'), [], GVN)
prop('C23', ['result::object::get_perception_results', R + 'new'] + sel(r'get_score_table', r'get_fp_perception'), [], GVN)
prop('C24', sel(r'^result::frame::'), [], GVN)
prop('C25', sel(r'TPMetricsA'), [], GVN)
prop('C26', sel(r'detection::Ap::'), [], GVN)
prop('C27', ['metrics::detection::DetectionMetricsScore::new', 'metrics::score::MetricsScore::new', 'metrics::score::MetricsScore::evaluate_detection', 'config::MetricsParams::new'] + sel(r'metrics::.* as std::fmt::Display'), [], GVN)
prop('C28', [M + 'get_metrics_score'], [], GVN)
prop('C29', [M + 'add_frame_result', M + 'filter_frame_ground_truth', F + 'new'], [], GVN)
prop('C30', sel(r'PerceptionEvaluationManager.*::(get_frame_ground_truth|filter_frame_ground_truth)$'), ['purity'], 'ownership and effect analysis of signatures, types and statics; value summaries of the queries')
prop('C31', ['dataset::get_current_frame', M + 'get_frame_ground_truth'], [], GVN)
prop('C32', [(M + 'get_metrics_score', dict(part='task'))], [], GVN)
prop('C33', [], ['order', 'sources'], 'dataflow: iteration-order taint and nondeterminism sources')
prop('C34', [], ['panics'], 'panic-site reachability over value summaries')
prop('C35', [], ['effects'], 'effect analysis over the call graph')
prop('C36', sel(r'configure_logger'), [], GVN)
prop('C37', sel(r'::(open|load|load_raw)$'), [], GVN)
prop('C38', sel(r'DynamicObject as std::cmp', r'DynamicObject as std::clone') + [D + 'state'], ['equality'], GVN)
prop('C39', sel(r'calculate_matching_score', r'^matching::get_'), ['symmetry'], GVN + '; exchanged-argument comparison')
NOT_APPLICABLE = {
    'C40': 'The claim is a numeric inequality between floating-point sums over lists of unbounded length (precision times recall increments, rounded). The value analysis identifies the term that is computed (C26) but has no theory that bounds a fold of rounded arithmetic, and no static argument in reach does.',
    'C41': 'Time and memory are quantities of a run. Static cost bounds here would need amortised costs of hash maps, allocation and JSON parsing in other crates; nothing in this family bounds them soundly.',
}
