"""The reference definition of each analysed function: name -> (definition, summaries used for callees)."""
SP = 'vp_spec::'
W = "dataset::nuscenes::WithDataset::<'_, "
O = {}
def ob(name, spec=None, stubs=(), **kw):
    O[name] = dict(spec=spec, stubs=tuple(stubs), **kw)

def module(mod, pairs):
    for a, b in pairs: ob(mod + '::' + a, mod + '::vp_spec::' + b)

# --- filter
module('filter', [(x, x) for x in ('filter_objects', 'hash_objects', 'hash_num_objects', 'hash_results', 'hash_num_results')])
# --- threshold
ob('threshold::get_label_threshold::<f64>', 'threshold::vp_spec::lookup_f64')
ob('threshold::get_label_threshold::<usize>', 'threshold::vp_spec::lookup_usize')
ob("threshold::LabelThreshold::<'_>::get_threshold::<f64>", 'threshold::vp_spec::method_f64')
ob("threshold::LabelThreshold::<'_>::get_threshold::<usize>", 'threshold::vp_spec::method_usize')
# --- math
module('utils::math', [(x, x) for x in ('quaternion2rotation', 'quaternion2euler', 'inverse_quaternion', 'translate', 'translate_inv', 'rotate', 'rotate_inv', 'rotate_q', 'rotate_q_inv')])
module('utils::point', [(x, x) for x in ('distance_points', 'distance_points_bev', 'get_point_left_right')])
# --- objects
D = 'object::object3d::DynamicObject::'
for x in ('state', 'area', 'volume', 'distance', 'distance_bev', 'distance_from', 'distance_bev_from', 'rotation_matrix', 'euler', 'heading', 'footprint'):
    ob(D + x, 'object::object3d::vp_spec::' + x)
ob('<object::object3d::DynamicObject as std::cmp::PartialEq>::eq', 'object::object3d::vp_spec::same_object')
ob('<object::object3d::DynamicObject as std::clone::Clone>::clone', 'object::object3d::vp_spec::clone_object')
# --- matching
FOOT = D + 'footprint'
for m, s in (('CenterDistanceMatching', 'center'), ('PlaneDistanceMatching', 'plane'), ('Iou2dMatching', 'iou2d'), ('Iou3dMatching', 'iou3d')):
    ob('<matching::%s as matching::MatchingMethod>::calculate_matching_score' % m, 'matching::vp_spec::m_' + s, [FOOT])
    ob('<matching::%s as matching::MatchingMethod>::is_better_than' % m, 'matching::vp_spec::b_' + s, [FOOT])
ob('matching::get_intersection_area', 'matching::vp_spec::overlap_area', [FOOT])
ob('matching::get_intersection_height', 'matching::vp_spec::overlap_height')
ob('matching::get_intersection_volume', 'matching::vp_spec::overlap_volume', [FOOT])
# --- results
R = 'result::object::PerceptionResult::'
ob(R + 'new', 'result::object::vp_spec::new')
ob(R + 'is_label_correct', 'result::object::vp_spec::is_label_correct')
ob(R + 'is_result_correct', 'result::object::vp_spec::is_result_correct', [FOOT])
ob('result::object::get_fp_perception_results', 'result::object::vp_spec::get_fp_perception_results')
ob('result::object::get_score_table::<matching::CenterDistanceMatching>', 'result::object::vp_spec::score_table')
CORRECT = R + 'is_result_correct'
F = 'result::frame::PerceptionFrameResult::'
ob(F + 'new', 'result::frame::vp_spec::new', [CORRECT])
for x in ('results', 'frame_ground_truth', 'tp_results', 'fp_results', 'fn_objects'): ob(F + x, 'result::frame::vp_spec::' + x)
ob('result::frame::separate_tp_fp_results', 'result::frame::vp_spec::separate', [CORRECT])
ob('result::frame::is_fn_object', 'result::frame::vp_spec::is_fn_object')
ob('result::frame::extract_fn_objects', 'result::frame::vp_spec::extract_fn')
# --- metrics
ob('<metrics::tp_metrics::TPMetricsAP as metrics::tp_metrics::TPMetrics>::get_value', 'metrics::tp_metrics::vp_spec::ap')
ob('<metrics::tp_metrics::TPMetricsAPH as metrics::tp_metrics::TPMetrics>::get_value', 'metrics::tp_metrics::vp_spec::aph', [D + 'heading'])
# --- dataset
ob('dataset::get_current_frame', 'dataset::vp_spec::get_current_frame')
# --- names
ob('<evaluation_task::EvaluationTask as std::str::FromStr>::from_str', 'evaluation_task::vp_spec::from_str')
module('evaluation_task', [('set_task', 'set_task')])
ob('evaluation_task::EvaluationTask::is_3d', 'evaluation_task::vp_spec::is_3d')
ob('evaluation_task::EvaluationTask::is_2d', 'evaluation_task::vp_spec::is_2d')
ob('<frame_id::FrameID as std::str::FromStr>::from_str', 'frame_id::vp_spec::from_str', what=('value', 'out', 'ok', 'err'))
# --- configuration
ob('config::FilterParams::new', 'config::vp_spec::filter_params', ['label::LabelConverter::convert', "label::LabelConverter::<'_>::convert"])
ob('config::MetricsParams::new', 'config::vp_spec::metrics_params', ['label::LabelConverter::convert', "label::LabelConverter::<'_>::convert"])
ob('label::convert_labels', 'label::vp_spec::convert_labels')
# --- boxes
B = 'dataset::nuscenes::r#box::NuScenesBox::'
for x in ('translate', 'translate_inv', 'rotate', 'rotate_inv', 'get_translate', 'get_translate_inv'): ob(B + x, 'dataset::nuscenes::r#box::vp_spec::' + x)
# --- average precision
A = "metrics::detection::Ap::<'_>::"
Aa = "metrics::detection::Ap::<'a>::"
TPV = '<metrics::tp_metrics::TPMetrics%s as metrics::tp_metrics::TPMetrics>::get_value'
for t in ('AP', 'APH'):
    g = '::<metrics::tp_metrics::TPMetrics%s>' % t
    ob(A + 'calculate_tp_fp' + g, 'metrics::detection::vp_spec::tp_fp_' + t.lower(), [CORRECT, TPV % t])
    ob(A + 'calculate_ap' + g, 'metrics::detection::vp_spec::ap_' + t.lower(), [Aa + 'calculate_tp_fp', Aa + 'calculate_precision_recall', Aa + 'interpolate_precision_recall'])
ob(A + 'calculate_precision_recall', 'metrics::detection::vp_spec::precision_recall')
ob(A + 'interpolate_precision_recall', 'metrics::detection::vp_spec::interpolate')
ob(A + 'new', 'metrics::detection::vp_spec::ap_new')
DNEW = 'metrics::detection::DetectionMetricsScore::new'
ob(DNEW, 'metrics::detection::vp_spec::scores', [Aa + 'calculate_ap'])
ob('metrics::score::MetricsScore::new', 'metrics::score::vp_spec::new')
ob('metrics::score::MetricsScore::evaluate_detection', 'metrics::score::vp_spec::evaluate', [DNEW])
# --- manager
M = "manager::PerceptionEvaluationManager::<'_>::"
FILTER = 'filter::filter_objects'
GETRES = 'result::object::get_perception_results'
ob(M + 'from', 'manager::vp_spec::from', ['dataset::load_dataset'])
ob(M + 'filter_frame_ground_truth', 'manager::vp_spec::filter_ground_truth', [FILTER])
ob(M + 'add_frame_result', 'manager::vp_spec::add_frame', [FILTER, GETRES, F + 'new'])
ob(M + 'get_frame_ground_truth', 'manager::vp_spec::nearest', ['dataset::get_current_frame'])
ob(M + 'get_metrics_score', 'manager::vp_spec::score', [DNEW], what=('value', 'out', 'ok', 'err'))
# --- records (generated from the table of reference fields)
for _m, _t, _n in (('calibrated_sensor', 'dataset::nuscenes::schema::CalibratedSensor', 'sensor'), ('instance', 'dataset::nuscenes::internal::InstanceInternal', 'category'), ('instance', 'dataset::nuscenes::internal::InstanceInternal', 'sample_annotation_iter'), ('map', 'dataset::nuscenes::schema::Map', 'log_iter'), ('sample', 'dataset::nuscenes::internal::SampleInternal', 'scene'), ('sample', 'dataset::nuscenes::internal::SampleInternal', 'prev'), ('sample', 'dataset::nuscenes::internal::SampleInternal', 'next'), ('sample', 'dataset::nuscenes::internal::SampleInternal', 'sample_annotation_iter'), ('sample', 'dataset::nuscenes::internal::SampleInternal', 'sample_data_iter'), ('sample_annotation', 'dataset::nuscenes::schema::SampleAnnotation', 'sample'), ('sample_annotation', 'dataset::nuscenes::schema::SampleAnnotation', 'instance'), ('sample_annotation', 'dataset::nuscenes::schema::SampleAnnotation', 'prev'), ('sample_annotation', 'dataset::nuscenes::schema::SampleAnnotation', 'next'), ('sample_annotation', 'dataset::nuscenes::schema::SampleAnnotation', 'attribute_iter'), ('sample_data', 'dataset::nuscenes::schema::SampleData', 'sample'), ('sample_data', 'dataset::nuscenes::schema::SampleData', 'ego_pose'), ('sample_data', 'dataset::nuscenes::schema::SampleData', 'calibrated_sensor'), ('sample_data', 'dataset::nuscenes::schema::SampleData', 'prev'), ('sample_data', 'dataset::nuscenes::schema::SampleData', 'next'), ('scene', 'dataset::nuscenes::internal::SceneInternal', 'log'), ('scene', 'dataset::nuscenes::internal::SceneInternal', 'sample_iter')): ob("dataset::nuscenes::iter_impl::%s::<impl dataset::nuscenes::WithDataset<'_, %s>>::%s" % (_m, _t, _n), "dataset::nuscenes::iter_impl::%s::vp_spec::%s" % (_m, _n))
for _m, _t in (('attribute', 'dataset::nuscenes::schema::Attribute'), ('calibrated_sensor', 'dataset::nuscenes::schema::CalibratedSensor'), ('category', 'dataset::nuscenes::schema::Category'), ('ego_pose', 'dataset::nuscenes::schema::EgoPose'), ('instance', 'dataset::nuscenes::internal::InstanceInternal'), ('log', 'dataset::nuscenes::schema::Log'), ('map', 'dataset::nuscenes::schema::Map'), ('sample', 'dataset::nuscenes::internal::SampleInternal'), ('sample_annotation', 'dataset::nuscenes::schema::SampleAnnotation'), ('sample_data', 'dataset::nuscenes::schema::SampleData'), ('scene', 'dataset::nuscenes::internal::SceneInternal'), ('sensor', 'dataset::nuscenes::schema::Sensor'), ('visibility', 'dataset::nuscenes::schema::Visibility')): ob("dataset::nuscenes::iter_impl::%s::<impl std::iter::Iterator for dataset::nuscenes::iter::Iter<'a, %s, It>>::next" % (_m, _t), "dataset::nuscenes::iter_impl::%s::vp_spec::item" % _m)
SD = "dataset::nuscenes::iter_impl::sample_data::<impl dataset::nuscenes::WithDataset<'_, dataset::nuscenes::schema::SampleData>>::"
for _n in ('open', 'load_raw'): ob(SD + _n, 'dataset::nuscenes::iter_impl::sample_data::vp_spec::' + _n)
ob(SD + 'load', 'dataset::nuscenes::iter_impl::sample_data::vp_spec::load', ["dataset::nuscenes::iter_impl::sample_data::<impl dataset::nuscenes::WithDataset<'a, dataset::nuscenes::schema::SampleData>>::load_raw"])
ob("dataset::nuscenes::iter_impl::log::<impl dataset::nuscenes::WithDataset<'_, dataset::nuscenes::schema::Log>>::open", 'dataset::nuscenes::iter_impl::log::vp_spec::open')
N = 'dataset::nuscenes::NuScenes::'
NS = 'dataset::nuscenes::vp_spec::'
for _n in ('attribute', 'calibrated_sensor', 'category', 'ego_pose', 'instance', 'log', 'map', 'sample', 'sample_annotation', 'sample_data', 'scene', 'sensor', 'visibility'): ob(N + _n + '_iter', NS + _n + '_iter')
ob(N + 'get_box', NS + 'get_box')
ob(N + 'get_boxes', NS + 'get_boxes', [N + 'get_box'])
ob(N + 'get_sample_data_path', NS + 'get_sample_data_path')
ob(N + 'get_sample_data', NS + 'get_sample_data', [N + 'get_boxes'])
ob('dataset::load_dataset', 'dataset::vp_spec::load_all', [N + 'load', 'dataset::sample_to_frame'])
ob('dataset::sample_to_frame', 'dataset::vp_spec::to_frame', [N + 'get_sample_data', "label::LabelConverter::<'_>::convert", "label::LabelConverter::<'a>::convert", "label::LabelConverter::<'_>::new", "label::LabelConverter::<'a>::new"])
ob('<dataset::FrameGroundTruth as std::fmt::Display>::fmt', 'dataset::vp_spec::show_frame')
ob('dataset::nuscenes::internal::SampleInternal::from', 'dataset::nuscenes::internal::vp_spec::sample')

# --- functions compared with the reviewed reference tree itself (no separate definition)
for _s in ('dataset::nuscenes::NuScenes::load::<&str, &std::path::PathBuf>', 'dataset::nuscenes::internal::InstanceInternal::from', 'dataset::nuscenes::internal::SceneInternal::from',
           'dataset::nuscenes::load_json::<std::vec::Vec<dataset::nuscenes::schema::Sensor>, std::path::PathBuf>', 'config::PerceptionEvaluationConfig::from', 'config::load_yaml::<config::schema::Scenario, &str>',
           '<dataset::nuscenes::schema::LongToken as std::convert::TryFrom<&str>>::try_from', '<dataset::nuscenes::schema::LongToken as std::fmt::Display>::fmt',
           '<dataset::nuscenes::schema::ShortToken as std::convert::TryFrom<&str>>::try_from', '<dataset::nuscenes::schema::ShortToken as std::fmt::Display>::fmt',
           '<evaluation_task::EvaluationTask as std::fmt::Display>::fmt', '<frame_id::FrameID as std::fmt::Display>::fmt', '<label::Label as std::fmt::Display>::fmt',
           '<metrics::detection::DetectionMetricsScore as std::fmt::Display>::fmt', '<metrics::score::MetricsScore as std::fmt::Display>::fmt',
           'filter::is_target_object', "label::LabelConverter::<'_>::convert", "label::LabelConverter::<'_>::new", 'result::object::get_perception_results', "threshold::LabelThreshold::<'_>::new", 'utils::logger::configure_logger',
           "<dataset::nuscenes::schema::camera_intrinsic_serde::CameraIntrinsicVisitor as serde::de::Visitor<'de>>::visit_seq::<A>", "<dataset::nuscenes::schema::logfile_serde::LogFileVisitor as serde::de::Visitor<'de>>::visit_str::<E>",
           "<dataset::nuscenes::schema::long_token_serde::LongTokenVisitor as serde::de::Visitor<'de>>::visit_str::<E>", "<dataset::nuscenes::schema::short_token_serde::ShortTokenVisitor as serde::de::Visitor<'de>>::visit_str::<E>",
           "config::schema::evaluation_task_serde::deserialize::<'de, D>", 'config::schema::evaluation_task_serde::serialize::<S>', "config::schema::frame_id_serde::deserialize::<'de, D>", 'config::schema::frame_id_serde::serialize::<S>',
           "dataset::nuscenes::schema::long_token_serde::<impl serde::Deserialize<'de> for dataset::nuscenes::schema::LongToken>::deserialize::<D>", 'dataset::nuscenes::schema::long_token_serde::<impl serde::Serialize for dataset::nuscenes::schema::LongToken>::serialize::<S>',
           "dataset::nuscenes::schema::short_token_serde::<impl serde::Deserialize<'de> for dataset::nuscenes::schema::ShortToken>::deserialize::<D>", 'dataset::nuscenes::schema::short_token_serde::<impl serde::Serialize for dataset::nuscenes::schema::ShortToken>::serialize::<S>',
           ) + tuple("dataset::nuscenes::schema::%s::%s" % (_m, _f) for _m in ('camera_intrinsic_serde', 'logfile_serde', 'opt_long_token_serde', 'opt_string_serde', 'timestamp_serde') for _f in ("deserialize::<'de, D>", 'serialize::<S>')):
    if _s not in O: ob(_s)
# --- equivalent forms of a definition (argued in DESIGN.md)
O[GETRES]['alts'] = tuple('result::object::vp_spec::' + x for x in ('greedy_rounds', 'greedy_all', 'greedy_all_left'))
