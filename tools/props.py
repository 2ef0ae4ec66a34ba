"""writes /verif/properties.jsonl (the list lives here so that it can be edited comfortably)"""
import json, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=()):
    assert len(title)<=80,title
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':list(observe)}})
I=['inputs']; IC=['inputs','configurations']
prop('C01','Pose operations compute the exact rigid-motion group operations',
 'Rotating or transforming a point, inverting a pose and composing two poses (R, r, Rt and rt forms, with each operand optionally inverted) return exactly the result of the corresponding rotation-group operation, for every rotation magnitude, including near-zero rotations, near-full-turn rotations and combinations that nearly cancel. Which optional gradients the caller asks for never changes the value. A rotation vector returned by a composition may differ from another representation of the same rotation, but always describes the right rotation.',
 IC,'every rotation, translation and point; every inverted flag; every subset of requested gradients',
 'tests sample a handful of random poses; special-case branches trigger on angles below 1e-8 or on exact cancellation and each gradient combination is separate code',
 ['poseutils.c','poseutils-uses-autodiff.cc','_autodiff.hh'],
 [('mrcal_rotate_point_R_full, mrcal_transform_point_Rt_full, mrcal_invert_*_full, mrcal_compose_Rt_full, mrcal_compose_rt_full','poseutils.c'),('rotate_point_r_core, compose_r_core, mrcal_transform_point_rt_full, mrcal_compose_r_full','poseutils-uses-autodiff.cc')])
prop('C02','Reported pose gradients are the true derivatives of the reported values',
 'Every gradient array the pose operations (rotate, transform, invert, compose, and the tiny-rotation composition gradients) return equals the derivative of the returned value with respect to the named input, for every input and every combination of requested gradients and inverted flags, near-singular rotations included.',
 IC,'every pose and point; every non-empty subset of requested gradients; every inverted flag',
 'tests compare a few gradients to finite differences at fixed poses with tolerances that hide errors in the rarely taken branches',
 ['poseutils.c','poseutils-uses-autodiff.cc','_autodiff.hh'],
 [('forward-mode differentiation','_autodiff.hh'),('hand-written gradients of rotate/transform/invert/compose','poseutils.c')])
prop('C03','Pose operations respect arbitrary strides, NULL gradients and in-place output',
 'With any positive per-axis byte strides on any argument, and with the output stored on top of an input where in-place use is supported, pose operations return the same values and gradients as with separate dense arrays. They write every element of each requested output, never touch memory outside the requested outputs, and never dereference a gradient that was not requested.',
 ['inputs','configurations'],'every stride assignment addressing distinct elements; every supported aliasing of output and input; every subset of NULL gradients',
 'tests use dense and a few sliced arrays and do not look at bytes outside the outputs',
 ['poseutils.c','poseutils-uses-autodiff.cc','poseutils-opencv.c','_strides.h'],
 [('init_stride_*, P1, P2, P3','_strides.h'),('temporaries that make in-place operation work','poseutils.c')])
prop('C04','Conversions between rotation representations are exact and mutually inverse',
 'Converting a rotation vector to a matrix gives the rotation by that axis and angle, and its reported gradient is the exact derivative. Converting any rotation matrix to a vector gives a vector describing the same rotation, also for angles at and near 0 and 180 degrees about any axis, and its reported gradient is the pseudo-inverse of the vector-to-matrix derivative. Rt and rt conversions carry the translation unchanged, and the matrix aligned to a vector is a proper rotation taking that vector to the positive z axis. Conversions to and from unit quaternions describe the same rotation.',
 I,'every rotation vector, every rotation matrix, every non-zero vector',
 'the near-180-degree logic has dozens of sign branches that random rotations never reach',
 ['poseutils-opencv.c','poseutils.c'],
 [('mrcal_R_from_r_full','poseutils-opencv.c'),('mrcal_r_from_R_full, mrcal_rt_from_Rt_full, mrcal_Rt_from_rt_full, mrcal_R_aligned_to_vector','poseutils.c')])
prop('C05','Projection computes each lens model\'s defining formula',
 'Projecting any number of points with the pinhole, stereographic, lonlat, latlon, OPENCV4/5/8/12, CAHVOR and CAHVORE models returns, for every point in the model\'s domain, exactly the pixel the model\'s definition gives. The result does not depend on whether gradients are requested or on how many points are given.',
 IC,'every point, every intrinsics vector, every number of points, every subset of requested gradients, every parametric lens model',
 'tests check stored values for a few points and models; formula branches (points behind the camera, zero distortion, on-axis points) are barely sampled',
 ['mrcal.c','opencv.c','cahvore.cc'],
 [('mrcal_project, _mrcal_project_internal, project','mrcal.c'),('_mrcal_project_internal_opencv','opencv.c'),('project_cahvore_internals, project_cahvor','cahvore.cc, mrcal.c')])
prop('C06','Projection gradients are the true derivatives for every lens model',
 'The gradients of the projected pixel with respect to the 3D point and with respect to every intrinsics parameter equal the derivatives of the returned pixel, for every parametric lens model and every point and parameter vector in its domain, whichever of the two gradients is requested.',
 IC,'every point, every intrinsics vector, every number of points, every parametric lens model',
 'tests compare with finite differences at a few points; missing terms for one distortion coefficient are invisible where the coefficient is tiny',
 ['mrcal.c','opencv.c','cahvore.cc'],
 [('project, propagate_extrinsics chain','mrcal.c'),('_mrcal_project_internal_opencv','opencv.c'),('_mrcal_project_cahvore','cahvore.cc')])
prop('C07','Non-iterative projections and unprojections are inverses with exact gradients',
 'For any number of points, the pinhole, stereographic, lonlat and latlon projections return each model\'s closed-form pixel, the corresponding unprojections return the observation vector for each pixel, unprojecting and then projecting gives back the pixel, and the gradients of both directions are the exact derivatives.',
 I,'every point or pixel, every focal length and center, every number of points',
 'tests use single points or python paths that loop outside, so per-point indexing and the singular points are not reached',
 ['mrcal.c'],
 [('mrcal_project_pinhole/stereographic/lonlat/latlon and the mrcal_unproject_* counterparts','mrcal.c')])
prop('C08','The splined model evaluates its documented spline with local support',
 'Projection through the splined-stereographic model adds to the stereographic projection exactly the B-spline surface defined by the control points (order 2 and 3), clamped or extrapolated as documented outside the knot grid, and its gradients, including the indices of the control points they refer to, are the exact derivatives. The knot locations reported to users are the ones the projection uses.',
 IC,'every point, every control point vector, every grid size and field of view',
 'tests sample one grid and few points; cells at the edges and corners of the grid are special',
 ['mrcal.c'],[('project_point_splined, sample_bspline_surface_*, mrcal_knots_for_splined_models, _mrcal_precompute_lensmodel_data','mrcal.c')])
prop('C09','State indices partition the optimization vector exactly',
 'For every problem size and every selection of optimized variables, the state blocks (per-camera intrinsics, extrinsics, frames, points, calibration-object warp) reported by the state-index and state-count functions are disjoint, ordered, contiguous and add up to the total number of states, with unselected blocks empty and reported as absent. Out-of-range block indices are reported as absent.',
 IC,'every count of cameras, frames and points, every combination of selection flags, every lens model',
 'tests use two or three problem shapes of the unbounded family',
 ['mrcal.c'],[('mrcal_state_index_*, mrcal_num_states*','mrcal.c')])
prop('C10','Measurement indices partition the measurement vector exactly',
 'For every problem, the measurement blocks (boards, points, triangulated points, regularization) reported by the measurement-index and count functions are disjoint, ordered, contiguous and sum to the total measurement count. Decoding a triangulated-point measurement index gives back the pair of observations that produced that measurement.',
 IC,'every number of observations, board sizes, point groupings and selections','tests use fixed small problems',
 ['mrcal.c'],[('mrcal_measurement_index_*, mrcal_num_measurements*, mrcal_decode_observation_indices_points_triangulated','mrcal.c')])
prop('C11','Packing and unpacking the state vector are exact inverse scalings',
 'Packing and unpacking a state vector scale every variable by its documented per-variable-type scale, touch every state exactly once, and undo each other, for every problem size, selection of optimized variables and lens model.',
 IC,'every state vector, every count of cameras, frames and points, every selection, every lens model',
 'tests round-trip one problem, which does not notice two compensating mistakes',
 ['mrcal.c','scales.h'],[('mrcal_pack_solver_state_vector, mrcal_unpack_solver_state_vector and the per-block helpers','mrcal.c')])
prop('C12','The optimizer callback reports the true residuals and their true Jacobian',
 'For every problem, the measurement vector the optimizer callback reports is the documented weighted reprojection error of each observation, the triangulation error of each pair of triangulated observations, and the regularization penalties, with outliers contributing nothing, and the reported sparse Jacobian is a well-formed matrix whose every entry is the derivative of that measurement with respect to that packed state variable.',
 ['inputs','configurations'],'every problem, selection of variables, lens model, outlier set','tests check gradients numerically for a few problems',
 ['mrcal.c'],[('optimizer_callback, project, mrcal_optimizer_callback','mrcal.c')])
prop('C13','Triangulation returns the defined optimum and exact gradients',
 'Each triangulation method (geometric, leecivera linf/mid2/wmid2, lindstrom and the l1/linf corrections) returns the point its definition gives for any two observation rays and any baseline, with exact gradients when requested, and returns the documented invalid marker when the rays diverge or are parallel. The reprojection error of a triangulated point used in the optimization is the documented continuous function of the rays, with exact gradients.',
 I,'every pair of rays and every baseline','tests use one simulated geometry with small noise',
 ['triangulation.cc','_autodiff.hh'],[('mrcal_triangulate_*','triangulation.cc')])
prop('C14','Rectification and ranging follow the epipolar geometry',
 'The rectified system puts both rectified cameras in one orientation with x along the baseline and identical row geometry, the reported pixel resolution honours requested densities, and the range computed from a disparity is that of the 3D point whose rectified pixels have that disparity; invalid disparities give the documented sentinel.',
 IC,'every camera pair, field of view and resolution, every disparity','tests use one or two stereo pairs',
 ['stereo.c'],[('mrcal_rectified_system, mrcal_rectified_resolution, mrcal_stereo_range_sparse, mrcal_stereo_range_dense, mrcal_rectification_maps','stereo.c')])
prop('C15','Lens model names and configurations round-trip and size their parameters',
 'Converting a lens model to its name and back gives the same model and configuration for every configuration; unknown, malformed or misconfigured names are rejected with the documented error value; the metadata and the number of parameters are those of the named model.',
 IC,'every lens model and configuration, every input string','tests try a fixed list of names',
 ['mrcal.c','types.h'],[('mrcal_lensmodel_name, mrcal_lensmodel_from_name, mrcal_lensmodel_type_from_name, mrcal_lensmodel_num_params, mrcal_lensmodel_metadata','mrcal.c')])
prop('C16','Sensor-link traversal finds a cheapest path to the reference sensor',
 'Traversing the sensor graph visits every sensor connected to the reference sensor exactly once, each through the neighbor on a lowest-cost path to the reference, and never visits unconnected sensors.',
 ['inputs','histories'],'every symmetric matrix of shared-observation counts','tests use a few fixed graphs',
 ['traverse-sensor-links.c','heap.cc'],[('mrcal_traverse_sensor_links','traverse-sensor-links.c'),('mrcal_heap_push/pop/resort','heap.cc')])
prop('C17','Procrustes alignment returns a proper rotation minimising the weighted error',
 'Aligning two sets of vectors or points returns a proper rotation (and translation) that minimises the weighted sum of squared alignment errors for any number of points, and reports failure for degenerate data instead of returning a wrong pose.',
 I,'every pair of point sets and weights','tests align a few noisy clouds',
 ['poseutils.c'],[('mrcal_align_procrustes_vectors_R01, mrcal_align_procrustes_points_Rt01','poseutils.c')])
prop('C18','Camera models survive being written and read back',
 'Writing a camera model to a file and reading it back gives the same lens model, intrinsics, extrinsics and image size to full double precision, and malformed files are rejected.',
 I,'every camera model, every input text','tests write and read a few models with round numbers',
 ['mrcal.c','cameramodel-parser.re','mrcal/cameramodel.py'],[('mrcal_write_cameramodel_file, mrcal_read_cameramodel_string','mrcal.c, cameramodel-parser.re')])
prop('C19','Pixel access, cropping, conversion and storage of images preserve the pixels',
 'Accessing pixels and cropping images addresses exactly the requested pixel for every image width, height and row stride in bytes, and a crop aliases the same pixels of the original image; an image (with any row stride) written to a lossless file loads with the same pixels; a 16-bit image loaded as 8-bit is stretched linearly from its darkest to its brightest pixel; a color map maps the given or detected range of pixel values of any type onto the documented color formulas.',
 IC,'every image size, stride, crop rectangle and pixel type','tests use one or two images',
 ['image.c','image.h','stereo.c'],[('mrcal_image_*_at, mrcal_image_*_crop','image.h'),('stretch_equalization_uint8_from_uint16, generic_save, generic_load','image.c'),('mrcal_apply_color_map_*','stereo.c')])
prop('C20','The outlier pass only rejects measurements that exceed the threshold',
 'After a solve, the outlier pass marks exactly those observations whose residual exceeds the documented multiple of the noise estimate, never un-marks an observation, and reports whether anything changed.',
 ['inputs','histories'],'every residual vector and every existing outlier set','tests run one noisy calibration',
 ['mrcal.c'],[('markOutliers','mrcal.c')])
prop('C21','Unprojection through iterative models inverts projection',
 'Unprojecting a pixel through any lens model gives an observation vector that projects back to that pixel, or reports failure with NaN.',
 IC,'every pixel and every intrinsics vector','tests sample pixels of a few models',
 ['mrcal.c'],[('mrcal_unproject, _mrcal_unproject_internal','mrcal.c')])
prop('C22','Python wrappers broadcast and validate consistently with the C library',
 'The Python API applies the C functions to every element of broadcast inputs, in every memory layout of the arrays, hands optimization problems to the C library as they were given and reports its results where they belong, and rejects inputs with wrong shapes, types or inconsistent problems instead of computing on them.',
 IC,'every array shape, dtype and memory layout','tests check some shapes',
 ['poseutils-genpywrap.py','mrcal-genpywrap.py','mrcal-pywrap.c','mrcal/poseutils.py','mrcal/utils.py'],[('numpysane_pywrap wrappers','*-genpywrap.py'),('optimizer_callback, optimize, state_index_generic, _pack_unpack_state, CHOLMOD_factorization, traverse_sensor_links','mrcal-pywrap.c'),('ingest_packed_state','mrcal/utils.py')])
prop('C23','Projection uncertainty is the first-order propagation of input noise',
 'The reported projection uncertainty equals the linear propagation of the assumed pixel noise through the converged solve.',
 I,'every converged problem','tests compare with one Monte-Carlo run',
 ['uncertainty.c','mrcal/model_analysis.py'],[('_mrcal_drt_cross_reprojection__dbpacked','uncertainty.c'),('projection_uncertainty','mrcal/model_analysis.py')])
prop('C24','Small geometry primitives compute their definitions',
 'The point primitives (inner product, norm, addition, subtraction, scaling, cross product) and the dense small-matrix kernels used by every gradient return exactly the mathematical result for every input and every memory layout they accept.',
 IC,'every input and stride','exercised only indirectly by tests',
 ['basic-geometry.h','minimath/minimath-extra.h'],[('mrcal_point2_*, mrcal_point3_*','basic-geometry.h'),('mul_gen33_gen33*, mul_vec3_gen33*','minimath')])
if __name__=='__main__':
    with open(V+'/properties.jsonl','w') as f:
        for p in P: f.write(json.dumps(p)+'\n')
    print(len(P))
