#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line) from the list below.
import json, os
B='eskf_vio_backend/'
SRC=B+'src/'; INC=B+'include/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech])))

p('P01','Buffered sensor streams stay strictly time-ordered and unaltered',
 'At every moment the buffered feature frames, and separately the buffered IMU samples, are in strictly increasing time order, and the newest accepted time of a stream never decreases. A pushed message is appended at the end of its own stream exactly when its time (shifted by one constant common to both streams) is later than every message of that stream accepted before it by the same loader; otherwise it is dropped, and in no case is the other stream or any already buffered message changed, reordered or lost. A feature frame whose identifier and observation lists differ in length is refused and leaves everything untouched.',
 ['inputs','histories'],'every sequence of pushes, with any timestamps (repeated, decreasing, alternating), on any number of loaders',
 'The three scenes push strictly increasing timestamps once into one loader; repeated, late or interleaved timestamps and second loaders are never exercised.',
 [SRC+'data_manager/data_loader.cpp',INC+'data_manager/data_loader.hpp'],
 [('DataLoader::PushFeaturesMessage',SRC+'data_manager/data_loader.cpp'),('DataLoader::PushIMUMessage',SRC+'data_manager/data_loader.cpp'),('DataLoader::Clear',SRC+'data_manager/data_loader.cpp')],
 [('featMeas/imuMeas','buffered streams',INC+'data_manager/data_loader.hpp'),('timeStampOffset','common time shift',INC+'data_manager/data_loader.hpp')])
p('P02','Single-step delivery hands out the earliest data, once, without losing any',
 'Each successful single-step delivery removes from the buffers exactly the messages it hands out, keeps the order of the rest, and never skips a message that is earlier than the one it delivers; it fails exactly when both buffers are empty. A feature frame is delivered before a later (or equal-time) IMU sample, and the oldest IMU sample accompanies it if and only if their times differ by less than one IMU period; otherwise at most one message is delivered. Nothing left over from an earlier delivery appears in the output, and no freed buffer memory is read.',
 ['inputs','histories'],'every content and relative timing of the two buffers, any IMU period, and any reused or null output object',
 'The scenes have one fixed IMU/camera rate ratio, so only a few relative timings and never an exhausted or one-sided buffer at a frame boundary occur.',
 [SRC+'data_manager/data_loader.cpp',SRC+'data_manager/data_typedef.cpp'],
 [('DataLoader::PopOneMessage',SRC+'data_manager/data_loader.cpp'),('CombinedMessage::Clear',SRC+'data_manager/data_typedef.cpp')])
p('P03','Packed delivery covers the frame interval with exact IMU interpolation',
 'A packed delivery succeeds only when IMU data spans the oldest feature frame, and then hands out that frame together with every buffered IMU sample up to its time, in order, ending with a sample at the frame time: either the last real sample (when it is within a microsecond) or a sample linearly interpolated between its two time neighbours. That closing sample also becomes the oldest buffered sample, so consecutive packages join without gap, and all later samples stay buffered in order. When IMU data does not yet reach past the frame nothing is consumed; when no IMU sample precedes the frame only that frame is discarded.',
 ['inputs','histories'],'every content of the two buffers with strictly increasing times',
 'No test calls the packed delivery at all.',
 [SRC+'data_manager/data_loader.cpp'],[('DataLoader::PopPackedMessage',SRC+'data_manager/data_loader.cpp')])
p('P04','Every stored feature observation is attributed to the frame that saw it',
 'After any sequence of tracking messages, asking a feature for its observation in a given frame and camera returns exactly the measurement that frame reported for that feature and camera, and nothing when none was reported. This includes features that disappear and come back, appear twice in one message, or are reported without any measurement. The number of measurements recorded for a feature equals the number of stored measurements, and messages with inconsistent list lengths change nothing.',
 ['inputs','histories'],'every sequence of tracking messages over any identifiers, including gaps, repeats and empty observations',
 'In the scenes every feature is seen in every frame by both cameras, so a track never starts late, ends, pauses or repeats.',
 [SRC+'data_manager/vision_data/feature_manager.cpp',INC+'data_manager/vision_data/feature_manager.hpp',SRC+'data_manager/data_typedef.cpp',SRC+'data_manager/vision_data/frame_manager.cpp',SRC+'backend/backend.cpp'],
 [('FeatureManager::AddNewFeatures',SRC+'data_manager/vision_data/feature_manager.cpp'),('Feature::AddNewObserve',SRC+'data_manager/vision_data/feature_manager.cpp'),('Feature::GetNorm',SRC+'data_manager/vision_data/feature_manager.cpp'),('FeatureObserve::GetNorm',SRC+'data_manager/data_typedef.cpp'),('Frame::AddFeatures',SRC+'data_manager/vision_data/frame_manager.cpp')])
p('P05','Removing a frame keeps all other observations and the frame numbering right',
 'Frames in the sliding window are always numbered consecutively in time order; removing the oldest, the second newest or the newest frame drops exactly that frame and closes the numbering gap. Removing a frame from the feature records deletes exactly the observations made in it, leaves every other observation attributed to the same physical frame as before (under its possibly shifted number), keeps the measurement counts right, and deletes exactly the features left without observations. New frames start from the pose and velocity of the previous newest frame.',
 ['inputs','histories'],'every window content, track layout and removal position',
 'Scenes contain only full-length tracks; a wrong shift of late-starting or ending tracks changes nothing in them.',
 [SRC+'data_manager/vision_data/feature_manager.cpp',SRC+'data_manager/vision_data/frame_manager.cpp',SRC+'backend/backend.cpp'],
 [('FeatureManager::RemoveByFrameID',SRC+'data_manager/vision_data/feature_manager.cpp'),('FrameManager::RemoveFrame',SRC+'data_manager/vision_data/frame_manager.cpp'),('FrameManager::AddNewFrame',SRC+'data_manager/vision_data/frame_manager.cpp'),('Backend::MarginalizeFeatureFrameManager',SRC+'backend/backend.cpp'),('FrameManager::GetFrame',SRC+'data_manager/vision_data/frame_manager.cpp')])
p('P06','Key frames and the frame to drop are chosen by the configured thresholds',
 'A frame of the window counts as a key frame exactly when it is the oldest, or it shares fewer than the configured number of features (seen by the first camera in both frames) with its predecessor, or it moved further from its predecessor than the configured distance. When the window holds more frames than configured, the oldest frame is scheduled for removal if the second newest is a key frame and the second newest otherwise; when it does not, nothing is scheduled. Deciding changes no frame, feature or pose.',
 ['inputs','configurations'],'every window, track layout, pose and threshold setting',
 'Scenes share all features between all frames, so the count threshold, its boundary and per-camera visibility are never exercised.',
 [SRC+'data_manager/vision_data/frame_manager.cpp',SRC+'update/multi_view_vision_update.cpp'],
 [('FrameManager::IsKeyFrame',SRC+'data_manager/vision_data/frame_manager.cpp'),('FrameManager::NeedMarginalize',SRC+'data_manager/vision_data/frame_manager.cpp'),('MultiViewVisionUpdate::DecideMargPolicy',SRC+'update/multi_view_vision_update.cpp')])
p('P07','A processing step keeps the window bounded and the estimator consistent',
 'After every processing step the window holds at most the configured number of frames, and while the estimator is initialised every stored covariance has exactly the dimension implied by the IMU state, the cameras and the frames in the window. A failed initialisation or vision update leaves the estimator uninitialised with exactly one frame, from which it can initialise again without using stale propagation data; an IMU-only step changes no frame or feature. Each step consumes at most one delivery, and the bias estimate used for attitude follows the filter after each successful update.',
 ['inputs','histories'],'every history of deliveries, including failing updates and re-initialisations',
 'In the three scenes initialisation succeeds at the first opportunity and no update ever fails, so the failure and recovery paths never run.',
 [SRC+'backend/backend.cpp',SRC+'backend/backend_initialize.cpp',SRC+'update/multi_view_vision_update.cpp',SRC+'propagate/sequence_propagator.cpp'],
 [('Backend::RunOnce',SRC+'backend/backend.cpp'),('MultiViewVisionUpdate::Update',SRC+'update/multi_view_vision_update.cpp'),('Backend::InitializePropagator',SRC+'backend/backend_initialize.cpp')])
p('P08','IMU integration follows the midpoint kinematic model',
 'From one sample to the next, attitude is advanced by the small-angle rotation of the mean bias-corrected angular rate over the sample interval, and renormalised to unit length; velocity by the mean of the two bias-corrected accelerations rotated to the world by their own attitudes, minus gravity; position by the mean of the old and new velocity. The mean bias-corrected rate and acceleration passed on for error propagation are those of the same two samples. Nothing of the earlier sample changes.',
 ['inputs'],'every pair of consecutive samples, biases, gravity, interval and prior state',
 'The scenes check one noisy trajectory against a loose 3 m bound; a wrong second-order term, bias or sample stays inside it.',
 [SRC+'propagate/sequence_propagator.cpp',INC+'utility/math_lib.hpp'],
 [('PropagateQueue::PropagateMotionNominalState',SRC+'propagate/sequence_propagator.cpp'),('Utility::DeltaQ',INC+'utility/math_lib.hpp')])
p('P09','Covariance propagation is the linearised error dynamics',
 'Each propagation step turns the IMU covariance P into F P F^T + G Q G^T and the cross covariance with cameras and frames B into F B, leaving the covariance of cameras and frames unchanged, where F is the first-order error dynamics of the integrated motion model (position, velocity, attitude, accelerometer bias, gyroscope bias) and G, Q distribute accelerometer, gyroscope and bias random-walk noise to the configured strengths. A symmetric covariance stays symmetric.',
 ['inputs'],'every state, covariance, sample pair, interval, noise setting and number of cameras and frames',
 'The tests never look at a covariance; a wrong Jacobian block only changes accuracy within the loose bound.',
 [SRC+'propagate/sequence_propagator.cpp'],
 [('PropagateQueue::PropagateFullErrorStateCovariance',SRC+'propagate/sequence_propagator.cpp'),('PropagateQueue::InitializeProcessNoiseMatrix',SRC+'propagate/sequence_propagator.cpp'),('PropagateQueue::ResetProcessFunction',SRC+'propagate/sequence_propagator.cpp')])
p('P10','The propagation history is one consistent chain and is published faithfully',
 'Every new IMU sample extends the history by exactly one entry carrying that sample, obtained from the previous newest entry by one integration and covariance step; the first entry takes the initial motion state with zero covariance. Re-propagation recomputes every later entry from the (unchanged) first one in order with the current biases and leaves samples and times alone. Moving the origin discards exactly the leading entries older than the given time by more than the tolerance (failing when none remains), and the published propagated or updated state is that of the newest or oldest entry with the current biases.',
 ['inputs','histories'],'every history length, sample content, bias, time and tolerance',
 'Only one history shape occurs in the scenes and nothing compares the chain entries or the published values with it.',
 [SRC+'propagate/sequence_propagator.cpp',SRC+'backend/backend.cpp'],
 [('PropagateQueue::Propagate',SRC+'propagate/sequence_propagator.cpp'),('PropagateQueue::Repropagate',SRC+'propagate/sequence_propagator.cpp'),('PropagateQueue::ResetOrigin',SRC+'propagate/sequence_propagator.cpp'),('Backend::PublishPropagateState',SRC+'backend/backend.cpp'),('Backend::PublishUpdateState',SRC+'backend/backend.cpp')])
p('P11','Covariances are assembled, augmented and stored back without mixing blocks',
 'Before a vision update the full covariance is exactly the IMU block, its cross covariance with cameras and frames, the transpose of that, and the camera-and-frame block of the update time, and a dimension mismatch is refused. Adding the newest frame appends its pose as a copy of the current IMU position and attitude: the new rows and columns are those of the pose selection J, i.e. J C, C J^T and J C J^T, and the existing entries are unchanged. Storing back splits the full covariance into the same three blocks, entry for entry.',
 ['inputs'],'every covariance and any number of cameras and frames',
 'The tests never inspect covariances; wrong or missing cross terms only degrade accuracy.',
 [SRC+'update/multi_view_vision_update.cpp'],
 [('MultiViewVisionUpdate::ConstructCovariance',SRC+'update/multi_view_vision_update.cpp'),('MultiViewVisionUpdate::ExpandCameraCovariance',SRC+'update/multi_view_vision_update.cpp'),('MultiViewVisionUpdate::UpdateCovariance',SRC+'update/multi_view_vision_update.cpp'),('MultiViewVisionUpdate::UpdateNewestFramePose',SRC+'update/multi_view_vision_update.cpp')])
p('P12','Dropping a frame removes exactly its rows and columns from the covariance',
 'When the oldest, second newest or newest frame is scheduled for removal, the covariance afterwards equals the covariance before with exactly the six rows and six columns of that frame deleted and all other entries, in their order, unchanged. When nothing is scheduled the covariance is unchanged. A symmetric covariance stays symmetric.',
 ['inputs'],'every covariance, number of cameras and frames, and removal policy',
 'The tests never inspect covariances, and the scenes keep nearly all correlations similar.',
 [SRC+'update/multi_view_vision_update.cpp'],[('MultiViewVisionUpdate::ReduceCameraCovariance',SRC+'update/multi_view_vision_update.cpp')])
p('P13','The measurement equation is the exact linearised reprojection error',
 'For every observation of a feature used in an update, the residual is the measured minus the projected normalised image point, and the Jacobian blocks for feature position, observing body pose (the current IMU pose when seen in the newest frame) and that camera\'s mounting are the exact derivatives of the projection, placed in the columns of exactly that frame and camera with zeros elsewhere. The feature position is eliminated by projecting on the complement of its Jacobian, and per-feature equations are stacked without overlap or loss. Compressing a tall system preserves its information (H^T H and H^T r).',
 ['inputs'],'every feature track, pose, extrinsic, number of cameras and frames, with features in front of the camera',
 'Scenes use two identically rotated cameras and one trajectory; wrong Jacobian terms mostly slow convergence inside the loose bound.',
 [SRC+'update/multi_view_vision_update.cpp'],
 [('MultiViewVisionUpdate::ConstructMeasurementFunction(void)',SRC+'update/multi_view_vision_update.cpp'),('MultiViewVisionUpdate::ConstructMeasurementFunction(feature)',SRC+'update/multi_view_vision_update.cpp')])
p('P14','The filter update applies the Kalman gain and injects errors where they belong',
 'A vision update computes the gain P H^T (H P H^T + s^2 I)^-1, the correction as gain times residual, and the symmetrised covariance (I - K H) P. Each part of the correction is added to exactly the state it belongs to (IMU position, velocity, attitude, both biases, each camera mounting, each older frame pose), attitudes by right-multiplied small rotations renormalised to unit length. The newest frame ends up equal to the corrected IMU pose and velocity, and nothing else changes.',
 ['inputs'],'every covariance, measurement equation, noise setting, and number of cameras and frames',
 'A misrouted or sign-flipped correction of a weakly observable state keeps the scenes under the 3 m bound.',
 [SRC+'update/multi_view_vision_update.cpp',INC+'utility/math_lib.hpp'],
 [('MultiViewVisionUpdate::UpdateState',SRC+'update/multi_view_vision_update.cpp'),('Utility::Inverse',INC+'utility/math_lib.hpp')])
p('P15','Triangulation uses the right cameras and accepts only points in front of them',
 'Triangulating a feature uses every stored observation exactly once, each with the world pose of the camera that made it (body pose composed with that camera\'s mounting), through the linear two-equations-per-view system. It fails for fewer than two views or a point at infinity, and a feature is marked solved only if its point is not behind any of the observing cameras; otherwise it is marked unsolved. The iterative solver never returns a point with a larger total reprojection error than the one it started from.',
 ['inputs'],'every set of poses, mountings, observations and starting points',
 'One synthetic point set is triangulated; failing, degenerate and behind-camera cases and mixed camera sets never occur.',
 [SRC+'geometry/trianglation.cpp',SRC+'update/multi_view_vision_update.cpp',SRC+'backend/backend_initialize.cpp'],
 [('Trianglator::TrianglateAnalytic',SRC+'geometry/trianglation.cpp'),('Trianglator::TrianglateIterative',SRC+'geometry/trianglation.cpp'),('MultiViewVisionUpdate::TrianglizeMultiFrame',SRC+'update/multi_view_vision_update.cpp'),('Backend::TrianglizeMultiView',SRC+'backend/backend_initialize.cpp')])
p('P16','Camera pose estimation solves the stated problem and validates its input',
 'Pose estimation refuses empty or mismatched point lists without touching the pose, and otherwise each iteration solves the Gauss-Newton equations of the (weighted, in the robust variant) reprojection error over all usable points and applies the increment as a translation and a right-multiplied small rotation, returning a unit-length attitude. The sampling variant terminates, returns the best-scoring pose it evaluated, and its inlier flags match the returned pose point by point.',
 ['inputs'],'every point set, initial pose, parameter setting and random sample choice',
 'One point set without outliers is solved; mismatched lists, repeated calls with reused flag vectors and ties between candidates never occur.',
 [SRC+'geometry/perspective_n_point.cpp',INC+'geometry/perspective_n_point.hpp'],
 [('PnPSolver::EstimatePose',SRC+'geometry/perspective_n_point.cpp'),('PnPSolver::EstimatePoseKernel',SRC+'geometry/perspective_n_point.cpp'),('PnPSolver::EstimatePoseRANSAC',SRC+'geometry/perspective_n_point.cpp')])
p('P17','Attitude tracking yields unit rotations, right history and nearest lookups',
 'The first accepted accelerometer sample (with bias-corrected magnitude near gravity) yields a finite unit attitude that maps the measured specific force onto the gravity direction, and later samples yield unit attitudes advanced in the sense of the measured angular rate with a proportional-integral correction towards gravity; samples older than the newest entry are refused. A lookup returns the stored attitude nearest to the asked time if it is closer than the tolerance, and fails otherwise. Cleaning removes exactly the leading entries older than the tolerance and never touches an exhausted history.',
 ['inputs','histories'],'every sample, bias, history, query time and tolerance',
 'In the scenes the first sample is nearly level, queries hit an exact entry and the history never runs empty.',
 [SRC+'propagate/attitude_estimate.cpp'],
 [('AttitudeEstimate::Propagate',SRC+'propagate/attitude_estimate.cpp'),('AttitudeEstimate::GetAttitude',SRC+'propagate/attitude_estimate.cpp'),('AttitudeEstimate::CleanOldItems',SRC+'propagate/attitude_estimate.cpp')])
p('P18','Configuration values reach the estimator unmixed and bad files are refused',
 'A configuration matrix is accepted only if its file supplies every entry, and then each entry is the number at that row and column; missing, short or malformed files are reported as unreadable and never cause writes outside the matrix, and a setting whose file is not accepted keeps its default. Each accepted value reaches exactly the estimator setting it is meant for (noise, bias, gravity, IMU period as reciprocal rate, window size, thresholds, vision noise, camera mountings in order), for as many consecutively numbered cameras as exist.',
 ['inputs','configurations'],'every configuration directory content',
 'One well-formed configuration is loaded; missing, short, long or garbled files are never tried and swapped values can stay inside the loose bound.',
 [SRC+'config/config.cpp',SRC+'backend/backend_config.cpp'],
 [('Configurator::LoadMatrix',SRC+'config/config.cpp'),('Configurator::ReadConfigParams',SRC+'config/config.cpp'),('Backend::ConfigParams',SRC+'backend/backend_config.cpp')])
p('P19','Initialisation produces a consistent start state or reports failure',
 'Initialisation succeeds only with at least two frames of distinct time, an attitude known close to the first frame time, and enough triangulated points seen again by the first camera. On success the first frame sits at the origin with that attitude, the second frame\'s body pose corresponds to the solved camera pose through the camera mounting, both velocities are the position difference over the time difference, and propagation restarts from exactly the first frame\'s state using only the raw IMU samples from that time on. Filter biases are applied once, not twice.',
 ['inputs','histories'],'every pair of frames, attitude history, bias, camera mounting and IMU history',
 'Scenes initialise once with zero bias at an exact IMU time; failures, re-initialisation with non-zero bias and stale histories never occur.',
 [SRC+'backend/backend_initialize.cpp',SRC+'propagate/attitude_estimate.cpp'],
 [('Backend::Initialize',SRC+'backend/backend_initialize.cpp'),('Backend::EstimateFramePose',SRC+'backend/backend_initialize.cpp'),('Backend::InitializePropagator',SRC+'backend/backend_initialize.cpp')])
p('P20','Rotation and pose helper functions are mathematically exact',
 'The cross-product matrix times a vector equals the vector product; the left and right multiplication matrices of a quaternion reproduce quaternion products from either side; the small-rotation quaternion of a rotation vector has scalar part one and half the vector as vector part; the homogeneous transform of a rotation and translation maps points accordingly; and the inverse of a symmetric positive definite matrix multiplies back to identity.',
 ['inputs'],'every vector, quaternion and symmetric positive definite matrix',
 'The helpers are only used inside long computations with loose end-to-end bounds, and some are not called by any test.',
 [INC+'utility/math_lib.hpp'],
 [('Utility::SkewSymmetricMatrix',INC+'utility/math_lib.hpp'),('Utility::Qleft/Qright',INC+'utility/math_lib.hpp'),('Utility::DeltaQ',INC+'utility/math_lib.hpp'),('Utility::TransformMatrix',INC+'utility/math_lib.hpp'),('Utility::Inverse',INC+'utility/math_lib.hpp')])
p('P21','A vision update uses only well-triangulated features, at most the allowed number',
 'The features used in an update are distinct features seen in the newest frame whose triangulation over all their observations has just succeeded, and they are at most the configured maximum in number; all successfully triangulated ones are used when they do not exceed the maximum (up to a tie of their random scores). With no usable feature the update still extends, reduces and re-propagates the state without changing any estimate of the past. The steps of an update run on the state at the time of the feature frame.',
 ['inputs','histories'],'every window, track layout and configured maximum',
 'Scenes always have more good features than the maximum; few, none or failing features never occur.',
 [SRC+'update/multi_view_vision_update.cpp'],
 [('MultiViewVisionUpdate::SelectGoodFeatures',SRC+'update/multi_view_vision_update.cpp'),('MultiViewVisionUpdate::Update',SRC+'update/multi_view_vision_update.cpp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
