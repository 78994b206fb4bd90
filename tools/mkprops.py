#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

NU='src/dataset/nuscenes.rs'; INT='src/dataset/nuscenes/internal.rs'; IT='src/dataset/nuscenes/iter_impl'; SC='src/dataset/nuscenes/schema.rs'

p('C01','Referential integrity of a loaded dataset',
  "If NuScenes::load returns Ok, every token that the dataset API follows (sensor of a calibrated sensor; category and first/last annotation of an instance; log and first/last sample of a scene; scene, prev and next of a sample; sample, instance, attributes, visibility, prev and next of an annotation; sample, ego pose, calibrated sensor, prev and next of sample data) refers to an existing record of the right table, so no accessor or iterator can panic on a dangling token. A dataset in which one of these references dangles is rejected with an error; only unknown log tokens of a map are tolerated, and iterating the logs of such a map skips them.",
  ['inputs'],'every dataset directory, in particular every placement of a dangling token in any table',
  'The doc tests load the one bundled, consistent sample dataset; no test loads a dataset with a dangling token.',
  [NU,IT],[('integrity checks before the maps are published','NuScenes::load'),('panicking map lookups by token in accessors','iter_impl/*.rs')],
  [('*_map','records of each table indexed by token','NuScenes')],['NuScenes::load','WithDataset::*'])
p('C02','Annotation and sample chains are verified and complete',
  "For every instance and every scene of a successfully loaded dataset, following next from the first record visits records whose prev names the record visited before, ends at the declared last record, and visits exactly the declared number of records; the record list exposed by the iterators is exactly that chain in order. A dataset violating any of these conditions, including one whose chain runs into a cycle, is rejected with an error and loading always terminates.",
  ['inputs'],'every shape of prev/next links, including cycles, wrong counts and wrong end points',
  'Only one well-formed dataset is ever loaded by the tests; malformed or cyclic chains are never sampled.',
  [NU,INT],[('chain walk with prev, last and count checks','NuScenes::load'),('token lists of instances and scenes','InstanceInternal::from, SceneInternal::from')],(),['NuScenes::load'])
p('C03','Unreadable or malformed dataset tables are reported as errors',
  "NuScenes::load reads each of the thirteen metadata tables from its own file <dir>/<version>/<table>.json into its own table, keyed by each record's own token and keeping every record; a missing, unreadable or malformed table, like a missing record asked for by get_sample_data_path, get_sample_data, get_boxes or get_box, yields Err and never a panic, an empty table or a partial result. Opening and loading a sample's raw data likewise returns Err for missing or malformed files.",
  ['inputs','fault_sequences'],'every combination of missing, unreadable or malformed table files and unknown tokens',
  'Tests never remove or corrupt a table file and never query an unknown token.',
  [NU,IT+'/sample_data.rs',IT+'/log.rs'],[('load_json and ? on every table','NuScenes::load'),('match get(..) { None => Err }','NuScenes::get_*')],(),['NuScenes::load','NuScenes::get_box'])
p('C04','Dataset accessors follow their own reference field',
  "Each accessor of a loaded record (sensor, category, log, sample, ego_pose, calibrated_sensor, instance, scene, prev, next and the sample_annotation, sample_data, attribute, log and sample iterators) returns the record(s) named by exactly the token field of that name of that very record, from the matching table and in the order of the token list. Items yielded by a table iterator are the records stored under the yielded tokens.",
  ['inputs'],'every record of every table of every dataset',
  'The accessors are not exercised by any test; the bundled dataset has nearly identical neighbouring records.',
  [IT,'src/dataset/nuscenes/iter.rs',NU],[('token field to table lookup','WithDataset<_>::*, Iter::next')],(),['WithDataset::*','NuScenes::*_iter'])
p('C05','Every table can be iterated completely',
  "Every table iterator that NuScenes offers (attribute, calibrated_sensor, category, ego_pose, instance, log, map, sample, sample_annotation, sample_data, scene, sensor, visibility) is usable as an Iterator and yields each record of its own table exactly once.",
  ['inputs','programs'],'every program using the iterators, on every dataset',
  'A type that fails to implement Iterator is only visible to a program that uses it; no test uses these iterators.',
  [NU,IT],[('return types of *_iter and impl Iterator for Iter','NuScenes::*_iter')],(),['NuScenes::*_iter'])
p('C06','Records and frames are listed chronologically',
  "The sample, sample_data, ego_pose and scene iterators list all records of their table in ascending order of timestamp (a scene counting as the earliest of its samples). load_dataset returns one frame per sample in that order.",
  ['inputs'],'every dataset, whatever the order of records in its files',
  'The bundled dataset is the only input; it holds very few samples.',
  [NU,'src/dataset.rs'],[('sorted_*_tokens','NuScenes::load'),('frame per sample','load_dataset')],(),['NuScenes::sample_iter','load_dataset'])
p('C07','Tokens and enumerated values are parsed strictly and faithfully',
  "A long or short token is accepted if and only if the text is valid hexadecimal for exactly 16 bytes, everything else being an error, and its text form and serialized form are the lowercase hexadecimal digits of those bytes. In serialized records an empty string (or, for the camera intrinsic, an empty array) stands for an absent optional value and only for that, in both directions; a camera intrinsic is accepted only with three rows; modality, file format, channel and visibility names map to their own variant.",
  ['inputs'],'every text and every serialized record',
  'No test parses an invalid token, an absent optional value or a channel name other than those of the bundled dataset.',
  [SC],[('TryFrom<&str> and serde helper modules','schema.rs')],(),['LongToken::try_from','serde_json'])
p('C08','Timestamps survive a write and a read',
  "Record timestamps are microseconds since the Unix epoch both when a record is read and when it is written, so that writing a record and reading it again yields the same timestamp to the microsecond; a value that is not a representable timestamp is an error.",
  ['inputs'],'every timestamp of a sample, sample data or ego pose record',
  'No test serializes a record.',
  [SC],[('timestamp_serde','schema.rs')],(),['serde_json'])
p('C09','Frame ground truth mirrors the annotations of its sample',
  "The frame made from a sample carries the sample's timestamp and contains exactly the boxes of the sample's lidar sample data recorded at the sample's timestamp, in the ego vehicle frame; each object takes position, orientation and size from its annotation, the label converted from the category name of the annotation's instance, the lidar point count, the instance token as uuid, confidence 1.0, the requested frame id, the sample's timestamp and no velocity. Any failure to resolve a record is an error.",
  ['inputs'],'every sample of every dataset, with any mix of sensors and timestamps',
  'No test looks at the objects of a loaded frame.',
  ['src/dataset.rs',NU],[('object construction','sample_to_frame'),('box construction','NuScenes::get_box, get_boxes')],(),['load_dataset','NuScenes::get_box'])
p('C10','Rigid transforms are proper rotations and translations',
  "quaternion2rotation is the rotation matrix of a unit quaternion in [w, x, y, z] order, rotate(p, q) rotates p by q, rotate_q(q1, q2) composes the rotation q2 after q1, inverse_quaternion is the multiplicative inverse, and rotate_inv, rotate_q_inv and translate_inv undo rotate, rotate_q and translate. NuScenesBox::translate, rotate and their inverses apply exactly these to position and orientation, and get_sample_data moves boxes into the ego frame by undoing first the ego translation and then the ego rotation, and then into the sensor frame by undoing the sensor translation and rotation if and only if requested.",
  ['inputs'],'every quaternion, position and pose',
  'Doc tests use only the identity quaternion, for which every ordering, sign and transposition error is invisible.',
  ['src/utils/math.rs','src/dataset/nuscenes/box.rs',NU],[('quaternion algebra','utils/math.rs'),('ego and sensor transform','NuScenes::get_sample_data')],(),['utils::math::*','NuScenes::get_sample_data'])
p('C11','Scenario parameters reach the configuration unmixed',
  "Every parameter of the scenario file arrives in the configuration field of its name: dataset path and version of the first dataset, evaluation task, frame id, target labels, position limits, minimum point number, target uuids and each of the four matching thresholds, the limits and thresholds being replicated once per target label; log and visualization directories are <result_dir>/log and <result_dir>/visualize. FilterParams::new and MetricsParams::new keep label i with value i for every target label.",
  ['configurations'],'every scenario file and every argument of the constructors',
  'The one scenario used by tests has equal x/y limits and equal IoU thresholds, so swapped parameters go unnoticed.',
  ['src/config.rs','src/config/schema.rs'],[('field wiring','PerceptionEvaluationConfig::from, FilterParams::new, MetricsParams::new'),('key names','config/schema.rs')],(),['PerceptionEvaluationConfig::from'])
p('C12','A bad scenario is an error, not a panic',
  "PerceptionEvaluationConfig::from returns Err, and never panics or falls back to a default, when the scenario file is missing or malformed, names an unknown task or frame, lists no dataset, or when the log file or logger cannot be set up.",
  ['configurations','inputs'],'every scenario file and result directory',
  'Tests only load one valid scenario.',
  ['src/config.rs','src/config/schema.rs','src/utils/logger.rs'],[('error conversion','PerceptionEvaluationConfig::from, load_yaml, configure_logger'),('deserialize','evaluation_task_serde, frame_id_serde')],(),['PerceptionEvaluationConfig::from'])
p('C13','Names of tasks and frames round-trip',
  "For every FrameID and EvaluationTask, parsing the printed name and parsing its snake_case name both give that same value, no two values share an accepted name, and any other text is an error that, for a frame id, reports that text. is_3d holds for detection, tracking and prediction, and is_2d is its negation.",
  ['inputs'],'every enumeration value and every input text',
  'Doc tests parse a single task name; frame names are not tested.',
  ['src/frame_id.rs','src/evaluation_task.rs'],[('name tables','FromStr, Display')],(),['FrameID::from_str','EvaluationTask::from_str'])
p('C14','Category names convert to the label they belong to',
  "Label conversion ignores letter case, maps every supported category name to its label and each label's own name to itself, and maps every unsupported name to Unknown; converting a list keeps its length and order. Only the autoware label set is supported, any other prefix is an error.",
  ['inputs'],'every category name in every letter case',
  'Doc tests convert one or two names.',
  ['src/label.rs'],[('name table','LabelConverter::new'),('lookup','LabelConverter::convert, convert_labels')],(),['LabelConverter::convert'])
p('C15','Filtering keeps a subsequence of unmodified objects',
  "filter_objects returns exactly the input objects that satisfy the filter, each unmodified, each once and in input order.",
  ['inputs'],'every list of objects and every filter parameter',
  'Doc tests filter two objects.',
  ['src/filter.rs'],[('selection loop','filter_objects')],(),['filter_objects'])
p('C16','The filter predicate is exactly the documented conjunction',
  "An object passes the filter if and only if its label is a target label, |x| and |y| are strictly below the limits of its label, and, for ground truth only, its point count (if it has one) is at least the minimum of its label and its uuid is among the target uuids (an object without uuid never matches a uuid list); a criterion that is not configured admits every object. Estimations are never filtered by point count or uuid.",
  ['inputs','configurations'],'every object and every combination of configured criteria',
  'Unit tests sample a handful of combinations; boundary values, negative coordinates and missing uuids are not covered in combination.',
  ['src/filter.rs'],[('predicate','is_target_object')],(),['filter_objects'])
p('C17','Grouping by label loses and invents nothing',
  "Grouping objects or results by target label assigns every object to the group of its own label (a result by the label of its estimation), in input order, has a group for every target label even if empty, ignores other labels, and the counting variants return the sizes of those groups.",
  ['inputs'],'every list of objects or results and every list of target labels',
  'Unit tests group two small lists; results are never grouped in tests.',
  ['src/filter.rs'],[('hash_objects, hash_num_objects, hash_results, hash_num_results','filter.rs')],(),['manager::get_metrics_score'])
p('C18','Per-label thresholds are looked up at the label’s own index',
  "The threshold of a label is the value at the position of the first occurrence of that label among the target labels, and None if the label is not a target label or has no value; no lookup can panic.",
  ['inputs'],'every label, label list and threshold list, including lists of different length',
  'Doc tests look up one label with matching list lengths.',
  ['src/threshold.rs'],[('lookup','get_label_threshold, LabelThreshold::get_threshold')],(),['get_label_threshold'])
p('C19','Matching verdict uses the method, direction and threshold asked for',
  "is_result_correct evaluates exactly the method of the given mode between estimation and ground truth: a distance must be strictly below the threshold and an IoU strictly above it; a result without ground truth is never correct under any mode or threshold. is_label_correct holds if and only if there is a ground truth and both labels agree.",
  ['inputs'],'every result, mode and threshold',
  'Unit tests call the methods directly with one pair each; the dispatch by mode and the boundary are not covered.',
  ['src/result/object.rs','src/matching.rs'],[('mode dispatch','PerceptionResult::is_result_correct'),('comparison','MatchingMethod::is_better_than')],(),['PerceptionResult::is_result_correct'])
p('C20','Matching scores follow their definitions',
  "Center distance is the Euclidean distance of the two positions in three dimensions; plane distance is the root mean square of the distances in the ground plane between the left and between the right one of the two footprint corners nearest to the origin of each object; IoU is intersection over union (sum of both minus the intersection, and 0 if the union is 0) of the footprint areas, and in 3D of the volumes, whose intersection is the footprint intersection area times the overlap max(0, lower top minus higher bottom) of the vertical extents.",
  ['inputs'],'every pair of boxes: rotated, disjoint, nested, vertically offset',
  'Unit tests use one axis-aligned pair per method.',
  ['src/matching.rs','src/utils/point.rs'],[('formulas','MatchingMethod::calculate_matching_score, get_intersection_*')],(),['MatchingMethod::calculate_matching_score'])
p('C21','Object geometry follows position, orientation and size',
  "The footprint of an object lists its four base corners, half the size along each axis (size being [width, length, height]: length along x, width along y), rotated by the orientation and shifted by the position, in counter-clockwise order starting with front-left; area is width times length, volume additionally times height. distance and distance_bev are measured from the origin, the *_from variants from the given point; heading is the yaw of the orientation wrapped to [-pi, pi], and euler angles are roll, pitch, yaw over the full circle.",
  ['inputs'],'every object, for every orientation quadrant',
  'Doc tests use the identity orientation and a square footprint.',
  ['src/object/object3d.rs','src/utils/math.rs','src/utils/point.rs'],[('geometry','DynamicObject::*')],(),['DynamicObject::footprint','DynamicObject::heading'])
p('C22','Association is one-to-one and label-consistent',
  "In the results of a frame no estimation and no ground truth takes part in more than one pair, and estimation and ground truth of a pair always have the same label. Among the pairs still possible the one with the smallest center distance is taken first, until no pair of equal labels is left.",
  ['inputs'],'every set of estimations and ground truths, including several candidates competing for one object',
  'No unit test exercises get_perception_results with competing candidates; the doc test has one object on each side.',
  ['src/result/object.rs'],[('score table and its row and column invalidation','get_perception_results, get_score_table')],(),['get_perception_results'])
p('C23','Every estimation is reported exactly once',
  "get_perception_results reports every estimation in exactly one result, unmodified: with its matched ground truth or, if it was left unmatched (also when there is no ground truth at all), with none. Ground truths are never reported as estimations.",
  ['inputs'],'every set of estimations and ground truths',
  'The doc test has one estimation.',
  ['src/result/object.rs'],[('taken indices and left-over estimations','get_perception_results, get_fp_perception_results')],(),['get_perception_results'])
p('C24','TP, FP and FN partition a frame',
  "Within a frame result every result whose label is a target label is in exactly one of the true and false positives, in order, according to the matching verdict under the threshold of its own label; results of other labels are in neither. The false negatives are exactly the ground truths that equal no ground truth of a true positive, and results and ground truth are stored unmodified.",
  ['inputs'],'every list of results, ground truths, labels and thresholds',
  'No test constructs a PerceptionFrameResult.',
  ['src/result/frame.rs'],[('partition','separate_tp_fp_results, extract_fn_objects')],(),['PerceptionFrameResult::new'])
p('C25','True-positive weights are bounded and heading-symmetric',
  "The AP weight of a pair is 1; the APH weight is 1 minus the heading difference, taken the short way round the circle, divided by pi, and clamped to [0, 1]; a result without ground truth weighs 0 in both.",
  ['inputs'],'every pair of headings',
  'Unit tests only use equal headings.',
  ['src/metrics/tp_metrics.rs'],[('weights','TPMetrics::get_value')],(),['metrics'])
p('C26','Average precision follows its definition for every input',
  "For a label, results are ranked by descending confidence (ties in insertion order); precision and recall at rank k are the summed weights of the correct results among the first k divided by k and by the number of ground truths (recall 0 without ground truth), and AP is the area under the monotone envelope of precision from the highest recall down to recall 0. It is 0 without results but with ground truths, NaN only if there is neither, and computing it never panics.",
  ['inputs'],'every list of results and every number of ground truths',
  'No unit test computes an AP.',
  ['src/metrics/detection.rs'],[('ranking, accumulation, interpolation','Ap::calculate_*')],(),['DetectionMetricsScore'])
p('C27','Scores are computed per label, mode and threshold',
  "The metrics score of a scene evaluates, in target-label order and for each label from that label's own results, ground-truth count and threshold, AP with the AP weight and APH with the APH weight, once under center distance with the center distance thresholds and once under plane distance with the plane distance thresholds. The printed score shows each value under its own name, label and threshold.",
  ['inputs','configurations'],'every set of labels, results and thresholds',
  'The manager doc test never looks at a score.',
  ['src/metrics/detection.rs','src/metrics/score.rs'],[('aggregation','DetectionMetricsScore::new, MetricsScore::evaluate_detection')],(),['MetricsScore'])
p('C28','Scene scores accumulate every frame exactly once',
  "get_metrics_score evaluates, for every target label, the concatenation of the results of that label over all added frames in the order of addition, and the total number of filtered ground truths of that label over all frames, each counted once even if a label is listed twice. Calling it again without adding frames gives the same score.",
  ['histories'],'every sequence of added frames',
  'No test adds two frames.',
  ['src/manager.rs'],[('aggregation over frames','PerceptionEvaluationManager::get_metrics_score')],[('frame_results','results of the frames added so far','PerceptionEvaluationManager')],['get_metrics_score'])
p('C29','Adding a frame appends exactly one result and changes nothing else',
  "On success add_frame_result appends exactly one frame result, made from the estimations filtered as estimations and the ground truth filtered as ground truth, matched and judged by plane distance under the plane distance thresholds, leaving earlier results, the ground truths and the configuration untouched; on error it leaves the manager unchanged.",
  ['histories','inputs'],'every sequence of calls and every frame',
  'No test adds a frame.',
  ['src/manager.rs'],[('push after construction','PerceptionEvaluationManager::add_frame_result')],[('frame_results','results of the frames added so far','PerceptionEvaluationManager')],['add_frame_result'])
p('C30','Queries do not change state',
  "Every public operation taking &self, on the manager, results, objects, configuration, converter and dataset, leaves the observable state unchanged, so results do not depend on how often or in which order queries are made; only add_frame_result and the NuScenesBox transforms mutate. The crate keeps no global mutable state apart from the logger.",
  ['histories','programs'],'every sequence of API calls',
  'Tests call each operation once.',
  ['src'],[('shared references without interior mutability','all public &self functions')],(),['public API'])
p('C31','Nearest ground truth within 75 ms, or none',
  "get_frame_ground_truth returns an unmodified copy of a frame whose timestamp is nearest to the query (the earliest listed one among equally near ones; times are compared in whole milliseconds) if the difference is less than 75 ms, and None otherwise, also when there are no frames.",
  ['inputs'],'every list of frames, in any order, and every timestamp',
  'No test queries a frame that is not an exact match.',
  ['src/dataset.rs','src/manager.rs'],[('argmin over frames and threshold','get_current_frame')],(),['get_current_frame'])
p('C32','Unsupported evaluation tasks are refused',
  "get_metrics_score returns a score for the detection task only; for every other task it returns a NotImplemented error naming that task, and never an empty or partial score.",
  ['configurations'],'every evaluation task',
  'Tests only use detection.',
  ['src/manager.rs'],[('task dispatch','PerceptionEvaluationManager::get_metrics_score')],(),['get_metrics_score'])
p('C33','Evaluation is deterministic',
  "For the same dataset files, scenario, estimations and call sequence, the loaded frames, frame results, metrics scores and their printed form are identical in every run and process: nothing observable depends on the iteration order of hash maps, the clock, random numbers, addresses, thread scheduling or the environment.",
  ['inputs','schedules'],'every input, across processes with different hash seeds',
  'A test sees one hash seed per process and the bundled dataset has almost no ties.',
  ['src'],[('sorting before exposure','NuScenes::load, DetectionMetricsScore'),('ordered maps','config, metrics')],(),['load_dataset','get_metrics_score','Display'])
p('C34','Evaluation of finite inputs never panics',
  "Filtering, matching, frame evaluation, frame lookup and scoring never panic for any objects with finite coordinates and sizes and any configuration made by the constructors, including empty lists, missing optional fields, missing ground truth, single elements and labels without any object.",
  ['inputs','configurations'],'every list of finite objects, every configuration',
  'Tests use small non-empty lists.',
  ['src/filter.rs','src/result','src/metrics','src/matching.rs','src/manager.rs','src/dataset.rs'],[('guards around indexing, unwrap and subtraction','evaluation path')],(),['public API'])
p('C35','The dataset is only read',
  "Loading and evaluating never creates, writes, renames or deletes a file anywhere except the log file inside the result directory's log folder, never runs a process or opens a network connection, and uses no unsafe code.",
  ['inputs','programs'],'every execution',
  'Tests do not observe the file system.',
  ['src'],[('effects of the call graph','all functions')],(),['file system'])
p('C36','Logs go to the requested file at the requested level',
  "configure_logger writes to output.log inside the given directory, filters at exactly the requested level for every level, and reports every failure as Err.",
  ['inputs','configurations'],'every log level and directory',
  'The doc test configures one level and never looks at the file.',
  ['src/utils/logger.rs'],[('level filter and appender','configure_logger')],(),['configure_logger'])
p('C37','Raw sample data is loaded as stored',
  "Loading a binary sample returns a matrix with one point of five values per row, in file order; the content must be a whole number of points; jpeg and png files load as images; the file opened is the sample data's own file below the dataset directory, and load_raw returns exactly its bytes.",
  ['inputs'],'every point cloud file',
  'No test loads sample data.',
  [IT+'/sample_data.rs'],[('load, load_raw, open','WithDataset<SampleData>')],(),['WithDataset<SampleData>::load'])
p('C38','Object equality means same time, frame, pose and label',
  "Two objects are equal if and only if timestamp, frame id, position, orientation and label are all equal; equality is symmetric and (without NaN) reflexive, and copies of an object or of its state carry every field unchanged.",
  ['inputs'],'every pair of objects',
  'Tests only compare a few objects that differ in one field.',
  ['src/object/object3d.rs'],[('PartialEq, Clone, state','DynamicObject')],(),['DynamicObject::eq'])
p('C39','Plane distance is symmetric in its two objects; IoU and center distance too',
  "For every matching mode the score of estimation against ground truth equals the score with the two objects exchanged, and no score depends on label, uuid, confidence, velocity, timestamp or frame id.",
  ['inputs'],'every pair of objects',
  'Unit tests compute each score once, in one argument order.',
  ['src/matching.rs'],[('score formulas','MatchingMethod::calculate_matching_score')],(),['MatchingMethod'])
p('C40','Average precision lies between 0 and 1 whatever the results',
  "For every label with at least one ground truth and a one-to-one association, AP and APH lie in [0, 1] numerically, and adding a false positive never increases them.",
  ['inputs'],'every list of results',
  'A relation between floating-point results of arbitrary length, which tests can only sample.',
  ['src/metrics/detection.rs'],[('AP computation','Ap::calculate_ap')],(),['DetectionMetricsScore'])
p('C41','Loading time and memory stay proportional to the dataset',
  "Loading a dataset and evaluating a scene needs time and memory proportional to the size of the inputs (quadratic per frame in the number of objects for matching).",
  ['inputs'],'every dataset size',
  'Tests use one tiny dataset.',
  ['src'],[('indexing by token','NuScenes::load')],(),['load_dataset'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
