prop("P01", "No estimate is produced from, or stored with, an invalid covariance",
     "Every estimation operation (filter step, tracked point, plane and inverse depth updates, plane covariance conversions, "
     "pose and map updates) that reports success has had each covariance it was given, and the one it delivers, accepted by "
     "the covariance validity test; otherwise it reports failure (an exception, false or a negative score). A tracked "
     "feature's stored covariance is, after any operation including failed ones, the one it had before or one that passed "
     "the test.",
     ["inputs", "histories"], "all observation and state covariances (asymmetric, indefinite, NaN, infinite) at every "
     "step of every tracking history, on every path through the operations and their helpers",
     "A test feeds a few matrices to a few entry points; the guarantee is about every path to a success report, including "
     "those only reached with one particular invalid argument.",
     ["src/tracking/kalman_filter.hpp", "src/tracking/point_with_tracking.cpp", "src/tracking/plane_with_tracking.cpp",
      "src/tracking/inverse_depth_with_tracking.cpp", "src/utils/covariances.cpp", "src/map_management/feature_map.hpp"],
     [("filter step", "SharedKalmanFilter::get_new_state"), ("point update", "tracking::Point::track"),
      ("plane update", "tracking::Plane::track"), ("inverse depth update", "PointInverseDepth::update_with_cartesian"),
      ("plane covariances", "utils::compute_plane_covariance, utils::get_world_plane_covariance")],
     "forward must-dataflow (value numbering, all paths) over resolved syntax trees: validity facts dominate success exits",
     "all paths of all entry points, symbolic arguments; the numerical adequacy of the test itself is P02")

prop("P02", "The covariance test accepts only covariances; propagation is J S Jt",
     "The covariance validity test answers true only for matrices whose entries are all finite, that are symmetric, and "
     "whose decomposition shows them positive semi-definite (a single variance: finite and not negative), for every "
     "dimension and through every overload. First order propagation of a covariance S through a Jacobian J returns "
     "J S Jt plus the requested amount on the diagonal and nothing else.",
     ["inputs"], "all matrices of every dimension the library instantiates",
     "Tests try a handful of matrices; the accept set is infinite and a hole in it (an infinite entry, a tolerance, one "
     "dimension's special case) is hit only by the matrix nobody tried.",
     ["src/utils/covariances.hpp"],
     [("validity test", "utils::is_covariance_valid"), ("propagation", "utils::propagate_covariance")],
     "must-dataflow for the facts implied by a true answer; value numbering with algebraic normal forms for the propagation",
     "every instantiation, every path; trusts Eigen's allFinite, isApprox and LDLT")

prop("P03", "The filter step is the Kalman filter's, and its result is what is kept",
     "For every state, dynamics, observation model and valid covariances, a filter step returns the predicted state "
     "corrected by the Kalman gain times the innovation, and the correspondingly reduced covariance. A stateful filter and "
     "every tracked point, plane and inverse depth point perform that step on their own state and covariance with the "
     "observation and its covariance, and keep exactly what it returns.",
     ["inputs", "histories"], "all states, models, observations and covariances, for each dimension in use and each tracked "
     "feature, at any point of its history",
     "Tests check that one trajectory converges; a gain that is slightly wrong, a covariance not reduced or a swapped "
     "argument still converges on it.",
     ["src/tracking/kalman_filter.hpp", "src/tracking/point_with_tracking.cpp", "src/tracking/plane_with_tracking.cpp",
      "src/tracking/inverse_depth_with_tracking.cpp"],
     [("filter step", "SharedKalmanFilter::get_new_state"), ("stateful filter", "KalmanFilter::init, KalmanFilter::update"),
      ("users", "tracking::Point::track, tracking::Plane::track, PointInverseDepth::update_with_cartesian")],
     "value numbering with algebraic normal forms: the summary of each instantiation equals the textbook equations entry by "
     "entry; def-use check of arguments and stored results",
     "symbolic matrices, every instantiation; real arithmetic, rounding not modelled")

prop("P04", "Every analytic Jacobian is the derivative of the transformation it goes with",
     "Wherever the library transforms a quantity and separately states the Jacobian or propagated covariance of that "
     "transformation (spherical and Cartesian points, inverse depth points, projection to and from the screen, frame "
     "changes, plane parameter reductions), the Jacobian is the derivative of the transformation and the covariance is "
     "J S Jt for it. The variant that delivers a Jacobian returns the same value as the variant that does not.",
     ["inputs"], "all points, angles, depths, poses and covariances where the transformation is differentiable",
     "An entry with a wrong sign or factor shows only as a mis-scaled uncertainty; tests would have to compare every entry "
     "at generic points for every transformation.",
     ["src/coordinates/basis_changes.cpp", "src/coordinates/inverse_depth_coordinates.cpp", "src/utils/covariances.cpp",
      "src/coordinates/point_coordinates.cpp"],
     [("basis changes", "Cartesian::from, Spherical::from"),
      ("inverse depth", "InverseDepthWorldPoint::to_world_coordinates, InverseDepthWorldPoint::from_cartesian"),
      ("screen and camera", "utils::get_screen_point_covariance, utils::get_camera_point_covariance"),
      ("planes", "utils::compute_plane_covariance, utils::compute_reduced_plane_point_cloud_covariance")],
     "value numbering with algebraic normal forms: rule-based differentiation of the transformation's normal form, compared "
     "with the stated Jacobian entry by entry",
     "symbolic inputs; real arithmetic, rounding not modelled")

NF = ("value numbering with algebraic normal forms over symbolic arguments, compared with the stated equations on every path; "
      "sign-region enumeration for the conditions")
REAL = "symbolic inputs, every path; real arithmetic, rounding not modelled; values the normal forms cannot express are counted undecided"

prop("P05", "Point conversions follow the pinhole and rigid motion equations, and invert",
     "Back-projection, projection and changes between camera and world frame are the pinhole and rigid body equations for the "
     "configured intrinsics, and each direction undoes the other. The world to camera transformation is the inverse of the "
     "camera to world one for the same pose. A projection that answers false leaves its output untouched. A point is in the "
     "screen exactly within the image bounds (and in front of the camera when its depth is known). Distances are the "
     "difference to the projected or world point, and its 1-norm; angle differences are wrapped to ]-pi, pi].",
     ["inputs"], "all points, depths, poses and intrinsics",
     "A test compares a handful of points; a formula that deviates only in one region (negative depth, image border, one "
     "sign) agrees on all of them.",
     ["src/coordinates/point_coordinates.cpp", "src/utils/camera_transformation.cpp", "src/utils/distance_utils.cpp",
      "src/utils/angle_utils.hpp"],
     [("projection", "CameraCoordinate::to_screen_coordinates"), ("back-projection", "ScreenCoordinate::to_camera_coordinates"),
      ("frames", "CameraCoordinate::to_world_coordinates, utils::compute_camera_to_world_transform"),
      ("visibility", "ScreenCoordinate::is_in_screen_boundaries")], NF, REAL)

prop("P06", "Planes keep a unit normal and convert with the inverse transpose",
     "However a plane is made (constructed, copied, assigned, converted), its normal is the unit vector along the given one "
     "and its distance the given one. Planes change frame with the inverse transpose of the point transformation, in both "
     "directions; point to plane distance is n.p + d, the center -d n, plane errors are normal and distance differences in "
     "the camera frame (with the reduced form d n), and the world covariance is that of the rotated point form plus the pose's.",
     ["inputs"], "all planes, points, poses and covariances",
     "Tests use axis-aligned planes and round poses where several wrong formulas agree with the right one.",
     ["src/coordinates/plane_coordinates.cpp", "src/coordinates/plane_coordinates.hpp", "src/utils/camera_transformation.cpp",
      "src/utils/covariances.cpp"],
     [("construction", "PlaneCoordinates"), ("plane matrices", "utils::compute_plane_camera_to_world_matrix, utils::compute_plane_world_to_camera_matrix"),
      ("errors", "PlaneWorldCoordinates::get_signed_distance, get_reduced_signed_distance"),
      ("covariance", "utils::get_world_plane_covariance")], NF, REAL)

prop("P07", "Inverse depth points denote the points and uncertainty rays they encode",
     "An inverse depth point is built from, and converted back to, the Cartesian point (first observation plus bearing over "
     "inverse depth) it denotes; out of range depths and angles are refused. Its uncertainty ray runs from the furthest to "
     "the closest estimate at three standard deviations, on screen as well, and an answer of false leaves the output alone. "
     "The distance of two lines joins their closest points. The covariance given to a new point, the one recomputed from "
     "Cartesian, and the linearity score that decides promotion follow their equations.",
     ["inputs"], "all first observations, bearings, inverse depths, variances, poses and line pairs",
     "The tests walk a few grid points with loose tolerances; wrong intervals or parallel-line cases leave them green (a "
     "defect of this kind was found and repaired).",
     ["src/coordinates/inverse_depth_coordinates.cpp", "src/coordinates/basis_changes.cpp", "src/tracking/inverse_depth_with_tracking.cpp",
      "src/utils/line.cpp", "src/utils/distance_utils.cpp"],
     [("conversions", "InverseDepthWorldPoint::from_cartesian, to_world_coordinates"),
      ("uncertainty ray", "InverseDepthWorldPoint::get_closest_estimation, get_furthest_estimation, to_screen_coordinates"),
      ("lines", "utils::compute_closest_points, utils::signed_line_distance"),
      ("covariances", "tracking::PointInverseDepth::compute_inverse_depth_covariance, compute_linearity_score")], NF, REAL)


prop("P08", "Plane patches carry the exact statistics of their points, and so do merges",
     "A plane patch built from a cell of the organised cloud accumulates, for exactly the points with a positive depth, their "
     "count, sums and second order sums; merging patches adds every accumulator. The plane fitted to a patch passes through "
     "the centroid, along the direction of least scatter of the exact scatter matrix and turned to the camera, with the error "
     "and score of its eigenvalues. A cell is continuous exactly when its middle row and column each have a first depth (the "
     "larger of their first two pixels) and no measured depth on them jumps by more than four quantizations from the last one. "
     "Merge tests and similarity of planes and cylinders are the stated conditions, symmetric where the operation is, and a copied patch carries the same statistics.",
     ["inputs", "histories"], "all clouds, cells, merge sequences and pairs of planes or cylinders",
     "Tests build patches from a few synthetic clouds; one wrong second order sum or a dropped accumulator in a merge shows "
     "only as a slightly tilted plane.",
     ["src/features/primitives/plane_segment.cpp", "src/features/primitives/plane_segment.hpp", "src/features/primitives/shape_primitives.cpp"],
     [("accumulation", "Plane_Segment::init_plane_segment"), ("merge", "Plane_Segment::expand_segment"),
      ("fit", "Plane_Segment::fit_plane"), ("similarity", "Plane::is_similar, Cylinder::is_similar")], NF, REAL)

prop("P09", "Polygons keep their plane, boundary and area through every operation",
     "Plane coordinates are (x.(p - c), y.(p - c)) and their inverse c + u x + v y; axes that are not unit and orthogonal are "
     "refused. Projecting or transforming a polygon, changing its frame, unprojecting its boundary or drawing it on screen "
     "applies that to every boundary point, and the result has the plane asked for. The stored area is the area of the stored "
     "shape after construction, simplification and merge; simplification keeps a valid shape with more than three quarters of "
     "the area. Union and intersection are taken in this polygon's plane, the largest part is selected, all parts are summed "
     "for areas, and inter over union is the ratio of their areas. A merge keeps the plane.",
     ["inputs", "histories"], "all polygons, planes, poses and sequences of operations",
     "Tests use squares on axis-aligned planes, where swapped axes, stale areas and wrong largest parts go unnoticed.",
     ["src/utils/polygon.cpp", "src/utils/polygon.hpp", "src/coordinates/polygon_coordinates.cpp", "src/coordinates/point_coordinates.cpp"],
     [("plane coordinates", "utils::get_projected_plan_coordinates, utils::get_point_from_plane_coordinates"),
      ("operations", "utils::Polygon::project, transform, merge_union, union_one, inter_one, inter_over_union"),
      ("areas", "utils::Polygon::area, simplify"),
      ("frames", "CameraPolygon::to_world_space, WorldPolygon::to_camera_space, CameraPolygon::get_screen_points")], NF, REAL)

prop("P10", "Poses and their prediction follow the motion they are given",
     "A pose keeps the position, unit orientation and variance it is given, through updates too; its errors are the distance of "
     "the positions and the angle between orientations in degrees. The motion model returns the first pose as it is; then it "
     "predicts with the mean of the last displacement and last velocity, and with the half-way interpolation of the last turn "
     "and angular velocity applied in the frame it is measured in; it adds variance exactly when asked; a reset forgets the "
     "velocities. Euler angles denote Rx(roll) Ry(pitch) Rz(yaw) and are read back from a rotation the same way. The camera "
     "axes (right, down, forward) are the world's (-y, -z, x).",
     ["inputs", "histories"], "all poses, pose sequences and Euler angles",
     "No test runs the motion model with a rotation, where the order of the quaternion product matters (a defect of this kind "
     "was found and repaired).",
     ["src/utils/pose.cpp", "src/utils/pose.hpp", "src/tracking/motion_model.cpp", "src/utils/angle_utils.cpp", "src/utils/camera_transformation.cpp"],
     [("poses", "utils::PoseBase, utils::Pose"), ("prediction", "tracking::Motion_Model::predict_next_pose, reset"),
      ("angles", "utils::get_quaternion_from_euler_angles, get_euler_angles_from_quaternion"),
      ("axes", "utils::get_transformation_matrix, EulerAngles")], NF, REAL)

prop("P11", "Lines and segments answer exactly about the geometry they were built with",
     "A line keeps the point and the normalised direction it is given, a segment its two ends, and copies the same; the closest "
     "point on a line to p is s + n (n.(p - s)) and the distance p minus it. Two segments intersect only if there is an "
     "intersection point of the two whole segments, and it is the point returned; a negative answer leaves the output alone. A "
     "segment clamped to the screen keeps each of its own ends that lies in the screen and replaces the others by its "
     "intersections with the screen boundary; it is refused only if no part of it is in the screen.",
     ["inputs"], "all lines, segments and points, in two and three dimensions",
     "No test builds segments that do not meet, leave the screen on one side, or lines set from directions that are not unit "
     "(defects of these kinds were found and repaired).",
     ["src/utils/line.cpp", "src/utils/line.hpp"],
     [("directions", "utils::Line::set_normal, compute_normal, utils::Segment::compute_normal"),
      ("distance", "utils::ILine::get_closest_point_on_line, distance"), ("intersection", "utils::intersects"),
      ("clamping", "utils::clamp_to_screen")], NF, REAL)

prop("P12", "A refused observation leaves the estimate untouched; motion is flagged both ways",
     "Every operation that takes an observation into an estimate (tracked points, planes and inverse depth points, map "
     "features, the stateful filter) that reports a failure (false, a negative score, an exception) leaves every data member "
     "of the object with the value it had before; one that is taken gives a point its descriptor, when it has one. A tracked point is flagged as moving exactly when the observation differs "
     "from the estimate by more than a standard deviation on some axis, in either direction.",
     ["inputs", "histories"], "all observations, valid or not, at any point of a tracking history; every failing path",
     "Failing paths are the ones tests do not take: half done updates were found on three of them and repaired.",
     ["src/tracking/point_with_tracking.cpp", "src/tracking/inverse_depth_with_tracking.cpp", "src/tracking/plane_with_tracking.cpp",
      "src/tracking/kalman_filter.hpp"],
     [("points", "tracking::Point::track"), ("inverse depth points", "PointInverseDepth::track, update_with_cartesian"),
      ("planes", "tracking::Plane::track"), ("stateful filter", "KalmanFilter::update")],
     "effect analysis over value numbered summaries: members at failing exits equal members at entry; predicate of the flag by "
     "enumeration of sign regions", REAL)

prop("P13", "The configuration is what the file says, and only a usable one is accepted",
     "After a configuration file is loaded, each camera's image size, focal length and center are the values of the keys of "
     "those names, the camera 2 to camera 1 transformation is the rotation about x, y and z by the rotation offsets of these "
     "names (composed as Rx Ry Rz) with the translation offsets, and the intrinsics are the pinhole matrix of focal and center. "
     "It is accepted, and reported valid, exactly when all sizes and focal lengths are positive and no center is negative. A "
     "file that cannot be opened is reported and leaves the defaults. The defaults are valid, with an identity camera 2 "
     "transformation.",
     ["inputs"], "all configuration files",
     "Tests run on the defaults only; a swapped key, a wrapped negative size or a check on the wrong camera needs a file made for it.",
     ["src/parameters.cpp", "src/parameters.hpp"],
     [("loading", "Parameters::parse_file"), ("validity", "Parameters::check_parameters_validity"),
      ("defaults", "Parameters::load_defaut"), ("accessors", "Parameters::get_camera_1_intrinsics and the other accessors")],
     "value numbering of loader and accessors composed, compared as normal forms; validity by exhaustive expansion over sign regions",
     REAL)

prop("P14", "Exported maps hold the points given; references name their own vertices",
     "Each point given to an XYZ or PCD map is one line with its three coordinates in order, after (PCD) the header of an "
     "ascii cloud of three float fields; these two formats ignore lines and polygons. In an OBJ map each point of a point, "
     "line or polygon is one vertex line with its coordinates, and the element that follows refers to exactly the vertices "
     "written for it, numbered from 1 over the whole file in the order of the vertex lines. A map starts with an empty file "
     "of the name given plus the extension of its format.",
     ["inputs", "histories"], "all sequences of points, lines and polygons of any length given to each writer",
     "No test writes a map; a numbering that is off by one or drifts after one kind of element needs a sequence of elements.",
     ["src/outputs/map_writer.cpp", "src/outputs/map_writer.hpp"],
     [("plain clouds", "XYZ_Map_Writer, PCD_Map_Writer"), ("numbered vertices", "OBJ_Map_Writer::add_point, add_line, add_polygon")],
     "value numbering of the output stream (insertions as terms), parsed into lines; vertex counter by loop induction",
     "all paths, loops by induction; number formatting is the standard library's")

prop("P15", "Each pixel with a depth becomes one point, at its own place in the cloud",
     "The cloud of a depth image has one row per pixel, zero except for the pixels with a positive depth (a depth that is not "
     "a number is none): the row of pixel (column, row) is the place of its cell in row order, times the cell area, plus its "
     "place in the cell in row order, and holds the back-projection of the pixel at its depth with the main camera's "
     "intrinsics. The rectified depth image is zero except where a pixel with a depth, back-projected and moved by the camera "
     "2 to camera 1 transformation, is in front of the main camera and projects inside its image: there it holds the depth of "
     "such a point. The deterministic and parallel variants do the same; no pixel ends the process.",
     ["inputs", "configurations"], "all depth images (any float in any pixel), all camera parameters, image sizes that are "
     "multiples of the cell size, with and without MAKE_DETERMINISTIC",
     "No test converts a depth image; a wrong cell, an off by one bound or a depth that is not a number needs one particular pixel.",
     ["src/features/primitives/depth_map_transformation.cpp"],
     [("cell order and directions", "Depth_Map_Transformation::init_matrices"), ("cloud", "get_organized_cloud_array"),
      ("rectified depth", "rectify_depth")],
     "all element writes with indices, values and path conditions at the loops' fixpoints, compared as normal forms over integers "
     "and reals and as predicates by enumeration of sign regions", REAL)

prop("P16", "Plane seeds: cells are binned by direction; the fullest bin gives its cells",
     "The histogram of directions puts each point of the mask, and no other, in the bin of its two angles (the second angle is "
     "dropped when the first falls in bin 0), and the count of every bin is the number of points in it, after any sequence of "
     "fills, removals and resets. The points returned as seeds are exactly those of a bin with the highest count, none if all "
     "are empty; a point that was removed is in no bin. For each image the detection starts from empty plane and cylinder "
     "lists, label maps, histogram and unassigned set; each cell is fitted on its own points of the cloud and gets as merge "
     "tolerance the smaller of the merge distance and the distance between its first and last point times the sine of the merge "
     "angle and the square root of its number of points, zero if it is not planar; the histogram is filled with the angles "
     "acos(-nz), atan2(nx, ny) of the normals of the planar cells, exactly these are marked unassigned and counted.",
     ["inputs", "histories"], "all directions and masks, all sequences of fills, removals and searches; all clouds",
     "Tests of the histogram are absent; a point counted in the wrong bin only shows after a given sequence of removals.",
     ["src/features/primitives/histogram.hpp", "src/features/primitives/primitive_detection.cpp"],
     [("bins", "Histogram::init_histogram, remove_point, reset, get_points_from_most_frequent_bin"),
      ("cells", "Primitive_Detection::init_planar_cell_fitting, init_histogram, reset_data, find_primitives")],
     "element writes and calls with indices, values and path conditions at the loops' fixpoints, compared as normal forms and "
     "predicates; the search of the fullest bin by loop induction", REAL)

prop("P17", "Regions grow over mergeable neighbours; every cell and plane keeps its own label",
     "Region growing marks a cell exactly when it is in the grid, unassigned, not yet marked and mergeable (at its own "
     "tolerance) with the cell it was reached from, and then tries its four neighbours inside the grid, and only these. The "
     "seed grown is the candidate of least error, from an empty marking at the seed's own row and column; the planar marked "
     "cells, and only these, are added to the new plane, leave the histogram and the unassigned set and are counted once; a "
     "seed that grew too little leaves the histogram. A fitted plane that scores more than 100 is added to the planes, and "
     "each marked cell is labelled with its place in that list plus one; otherwise more than 5 cells are tried as a cylinder, "
     "whose parts are kept as planes when the plane's error is smaller, as cylinders otherwise, and label their inlier cells "
     "the same way. Planes are linked, both ways, when two different labels are neighbours in a row or column (last row and "
     "column not scanned); planar linked planes that can be merged are merged into the plane of the label, are labelled with "
     "it and fitted again. A plane is put out exactly when it has its own label, is planar and has a valid boundary of at "
     "least 3 points, with its own segment, the polygon of its normal and center, and the boundary of all cells that carry its "
     "label; boundary points are the back-projected centers of the boundary cells that have a depth and lie within three "
     "standard deviations of the plane. A cylinder put out is the one its region belongs to.",
     ["inputs", "histories"], "all depth images and clouds; all label maps; any number of planes and cylinders",
     "No test runs the detection; a wrong label or neighbour needs a particular layout of regions (a chain of planes, the border "
     "of the grid).",
     ["src/features/primitives/primitive_detection.cpp"],
     [("growing", "Primitive_Detection::region_growing, grow_plane_segment_at_seed, grow_planes_and_cylinders"),
      ("labels", "add_plane_segment_to_features, add_cylinder_to_features"),
      ("merging", "get_connected_components_matrix, merge_planes"),
      ("output", "add_planes_to_primitives, compute_plane_segment_boundary, add_cylinders_to_primitives")],
     "element writes and calls with indices, values and path conditions at the loops' fixpoints, compared as normal forms and "
     "predicates; counters of nested loops in closed form", REAL)

prop("P18", "Copies, promotions and carriers keep every part of what they copy",
     "Every user-written copy or move constructor and assignment of the library's classes gives the new object all data members "
     "of the source, base classes included, on every path. A staged feature promoted to the local map keeps its estimate, "
     "covariance, descriptor or boundary, id, matches and match count. The objects that carry features from one part to another "
     "(optimisation features, detected and tracked keypoint containers, upgraded features) hold the arguments they were made "
     "of, each in its own place.",
     ["inputs"], "all objects of all copyable classes",
     "Tests copy few classes and compare few members; a dropped member shows only in what is done with the copy later.",
     ["src/features", "src/coordinates", "src/tracking", "src/utils", "src/map_management/map_features", "src/matches_containers.hpp"],
     [("copies", "Plane_Segment, Cylinder_Segment, Plane, Cylinder, coordinates, Polygon, Line, Segment, PointInverseDepth, ..."),
      ("promotions", "LocalMapPoint, LocalMapPoint2D, LocalMapPlane"), ("carriers", "IOptimizationFeature, UpgradedPoint2D")],
     "value numbering of each copy operation; state at every exit compared member by member with the source",
     "all paths of every copy operation; values the value numbering cannot follow are counted undecided")

prop("P19", "Map life cycle: features are updated once, removed exactly when they must be",
     "An update of a map visits each stored feature once and always ends. The feature is updated with each of its matches; it "
     "counts as matched exactly when one of these updates succeeded, else as missed (misses in a row + 1, matches - 1, no "
     "match kept). After that a local feature leaves the map exactly when it is lost, and is written to the map file before "
     "that if it does not move; a staged feature leaves exactly when it is rejected or promoted, and a promoted one is in the "
     "local map under its own id; a feature whose promotion fails stays staged. A feature that is upgraded leaves the map "
     "exactly when its upgrade is handed out, and only upgrades of the type of a map are added to it. Each search for matches "
     "forgets all earlier matches and flags, searches exactly the features that are visible and do not move, local ones before "
     "staged ones, and flags exactly the detections found. An outlier loses its match and the flag of its detection, and no "
     "other. A detection becomes a staged feature exactly when it was not used and can be added. New ids are greater than all "
     "before and never 0. Points are lost after more than 10 misses in a row, planes after 10; staged points are rejected when "
     "their matches do not outnumber their misses and promoted when the confidence exceeds its minimum; a reset empties both "
     "maps; at the end the local features that do not move are written.",
     ["inputs", "histories"], "all frames, matches, update results and feature states; maps of any size",
     "The maps are not built by the tests at all; a lost or doubly visited feature needs a particular history.",
     ["src/map_management/feature_map.hpp", "src/map_management/map_features"],
     [("walks", "Feature_Map::update_local_map, update_staged_map, *_with_no_tracking, get_upgraded_*"),
      ("matches", "Feature_Map::get_matches, mark_outliers_as_unmatched, add_features_to_staged_map"),
      ("features", "IMapFeature, MapIdAllocator, is_lost, should_add_to_local_map, should_remove_from_staged")],
     "typestate of the iterators over the maps; effects with their exact path conditions compared with the specified conditions "
     "as predicates", "all paths and instantiations; what a feature answers about itself is an uninterpreted predicate, asserts are off")
prop("P20", "Parallel code shares no state without a lock",
     "Whatever the schedule, two iterations of a parallel loop, or two tasks that may run at the same time, never access the same "
     "variable, member, pixel or container at once when one of them writes it: each iteration writes only the element with its "
     "own index, or all accesses hold one common mutex that the iterations share, or the object is atomic or belongs to one "
     "thread. A value that is replaced after a comparison (the best pose of RANSAC) is compared and replaced under one "
     "acquisition of the lock. This holds for the cloud array, the segmentation and its boundaries, the rectification of the "
     "depth image, the RANSAC iterations, the pose variance, the detection tasks and the random engines.",
     ["schedules", "inputs"], "all schedules of all parallel loops and asynchronous tasks",
     "The tests run some schedules of some loops; a race shows only on a particular interleaving.",
     ["src/features/primitives", "src/pose_optimization", "src/tracking", "src/utils", "src/rgbd_slam.cpp"],
     [("parallel loops", "tbb::parallel_for and cv::Mat::forEach callbacks"), ("tasks", "std::async and thread pools"),
      ("shared state", "captured variables, members, globals, static locals")],
     "lock-set analysis over the syntax tree and the call graph, with index ownership and atomicity of check-then-act",
     "all paths and call chains; one known finding: rectify_depth writes a pixel of another row (see known_findings.json)")
prop("P21", "The optimised pose is the best consensus pose found, with its own inliers",
     "The parameters of the optimisation and the pose stand for each other: position and orientation survive the way there and "
     "back (away from the pole of the parameters), and the Jacobian is the derivative. For a pose, each feature is either an "
     "inlier or an outlier, by its own error under the transformation of that pose (at most 3 px for points in both directions, "
     "0.2 and 50 mm for planes), and the score is the sum over the inliers. The residuals of the optimisation are, feature by "
     "feature and without overlap, the distances under the pose evaluated times the weight over the number of parts. RANSAC "
     "optimises random subsets of score 1 from the current pose and evaluates them on all features; pose, score, inliers and "
     "outliers kept are always those of one candidate, replaced only by one with a better score (or the same score and more "
     "inliers). The pose returned is the optimisation on the inliers kept, from the best pose; it is returned exactly when that "
     "succeeded and the score of the inliers is at least 1, and the sets returned are the ones kept (none on failure). A pose is "
     "accepted exactly when all features are valid and the search and the variance succeeded; an optimisation changes the pose "
     "only when it ended well with numbers. The variance is the sample covariance of at least two (and half) poses, each from "
     "features all moved by normal variables times their deviations, plus 0.001 on the diagonal.",
     ["inputs", "schedules"], "all poses, sets of matched features, random draws and results of the minimiser",
     "The tests check some poses up to a tolerance; a mixed best candidate or a wrong set shows on some random draws only.",
     ["src/pose_optimization", "src/map_management/map_features"],
     [("parameters", "get_optimization_coefficient_from_pose, get_pose_from_optimization_coefficients"),
      ("consensus", "Pose_Optimization::compute_pose_with_ransac, get_features_inliers_outliers, get_random_subset_with_score"),
      ("optimisation", "compute_optimized_global_pose, Global_Pose_Estimator, compute_optimized_pose, compute_pose_variance"),
      ("features", "PointOptimizationFeature, Point2dOptimizationFeature, PlaneOptimizationFeature")],
     "value numbers with exact path conditions: carried values of the loops compared with the specified recurrences, rational "
     "normal forms for the parameters and covariances", "all paths; real arithmetic; the minimiser is uninterpreted")

prop("P22", "A frame moves the pose only to a pose found, and each map gets each step once",
     "For each frame the features are detected, matched and optimised with the pose kept and the images given; in the first frame "
     "nothing is optimised. When a pose is found, it is the pose kept and returned, and the map is updated with it, the features "
     "of this frame and the outliers of this optimisation; else the pose kept and returned is the old one and the map is updated "
     "without pose (as it is when the update throws). Failures in a row are counted from the second frame on (an update that "
     "throws is one; a success sets them to 0), tracking is lost exactly while there are more than 3, and at the start; while it is "
     "lost, a frame without pose adds all its features to the map, after the update and when the variance of the position is "
     "valid. Keypoints are searched anew while tracking is lost and every fifth frame, on the gray and depth images given, with the "
     "matched and visible points of the local map tracked under their id at their projection; planes are searched in the cloud "
     "of this depth image. Every operation of the local map does its step once on each of its maps with the pose, covariance and "
     "features given: an update first unmatches the outliers, updates each map, then adds what that map did not use, and after "
     "that offers the upgrades of each map to all others; it is refused exactly when the covariance is not valid. A second, wider "
     "search for matches is made exactly when the first found fewer than needed. Rectifying replaces the image only on success.",
     ["inputs", "histories"], "all sequences of frames, with any outcome of detection, matching, optimisation and map update",
     "The tests never run the system as a whole; a stale pose or a missed reset shows only after a certain sequence of failures.",
     ["src/rgbd_slam.cpp", "src/map_management/local_map.hpp", "src/map_management/feature_map.hpp"],
     [("frame", "RGBD_SLAM::compute_new_pose, track, detect_features, rectify_depth"),
      ("maps", "Local_Map::update, update_no_pose, add_all_features_to_map, find_feature_matches, get_tracked_features"),
      ("feature map", "Feature_Map::get_matches, get_tracked_features, MapPoint::add_to_tracked")],
     "value numbers with exact path conditions, the thrown exceptions of the map update included; the operations of the maps "
     "are unfolded over the tuple of maps", "all paths; the steps themselves are uninterpreted here")

prop("P23", "A match is the best free detection near the projection of a map feature",
     "The keypoints of a frame are the detected ones in order, then the tracked ones, each with its own coordinates and the depth "
     "of the image at its place (0 outside the border); what the last frame left is forgotten. A detected keypoint is in the cell of "
     "its position, a tracked one only under its id, at its own index. A search around a place looks at all cells around it that "
     "are in the grid and takes as candidates exactly the keypoints that are not matched yet and at most the search radius away; "
     "the nearest descriptor is the match exactly when it is the only candidate or clearly nearer than the second. A map point "
     "takes the keypoint tracked under its id, else the one found around its projection when that is on the screen (a feature is visible exactly when it projects, inside of the screen); a map plane "
     "takes the plane with the largest common area among those that are not matched, similar in distance and normal, and overlap "
     "enough (half of that in the wide search), wherever it is in the list. Every match found is returned, and handed to the "
     "optimisation exactly when this is asked, with the estimate, deviation and id of the map feature and the detection and index of "
     "the match.",
     ["inputs", "histories"], "all images, keypoints, tracked points, map features and poses",
     "The tests do not link the keypoint handler nor the map features (they need a library that is missing); a wrong cell or index "
     "shows only for certain image shapes and places.",
     ["src/features/keypoints/keypoint_handler.cpp", "src/map_management/map_features/map_point.cpp",
      "src/map_management/map_features/map_point2d.cpp", "src/map_management/map_features/map_primitive.cpp"],
     [("keypoints", "Keypoint_Handler::set, get_depth, is_in_border, get_search_space_coordinates"),
      ("search", "Keypoint_Handler::compute_key_point_mask, get_match_indexes, get_tracking_match_index"),
      ("features", "MapPoint::find_matches, MapPoint2D::find_matches, MapPlane::find_matches")],
     "value numbers with exact path conditions: writes of the tables with index, value and condition; ranges of the loops over cells and "
     "choice of the best plane compared as piecewise linear forms", "all paths; integer and real arithmetic; OpenCV's matcher is "
     "uninterpreted")

prop("P24", "A cylinder is the least squares fit of the cells that it claims, each used once",
     "The axis is the direction in which the normals of the activated cells vary least, and no cylinder is searched when they vary "
     "along it too; the column of a cell remembers its place in the grid. A hypothesis comes from three cells drawn among those "
     "left; its inliers are exactly the cells left whose relative squared distance to its cylinder is under the limit, its cost the sum of "
     "these distances, each at most the limit; the cheapest hypothesis is kept with its own inliers, whose mask and number are "
     "returned. A cylinder is added when there are at least 6 inliers: they leave the cells left, centre and radius (made positive) are "
     "the least squares solution over them, the error is the mean of their squared distances, and every list that describes the cylinders gets "
     "one element. The distance of a point to a cylinder is its distance to the axis less the radius, the smallest over the parts, "
     "and getters and copies give the part asked for. A random index is at least the first bound and under the second.",
     ["inputs"], "all grids of plane cells, activation masks, random draws and points",
     "No test builds a cylinder; the draws are random, so a wrong inlier, index or cost shows only for some grids and seeds.",
     ["src/features/primitives/cylinder_segment.cpp", "src/utils/random.hpp"],
     [("fit", "Cylinder_Segment::Cylinder_Segment"), ("hypotheses", "Cylinder_Segment::run_ransac_loop"),
      ("answers", "Cylinder_Segment::get_distance, is_inlier_at, get_MSE_at"), ("indices", "utils::Random::get_random_uint")],
     "value numbers with exact path conditions: tables, sums and lists followed over the loops; solutions compared as rational functions, at "
     "exact rational points where the expanded form is too large", "all paths; real arithmetic; Eigen's eigen decomposition is "
     "uninterpreted; the early stop is not claimed")

prop("P25", "A tracked keypoint keeps its id, and detection fills only what tracking leaves",
     "Optical flow goes from the frame before to this one and back. A point given is kept exactly when the first flow finds it inside the "
     "image, the second flow finds it back, and it comes back within the greatest distance of its own start; it is then returned once, "
     "under its own id, at the position found in this frame. Points are tracked whenever there are points and a frame before, and the "
     "pyramid of each frame becomes the one before the next. Points are detected exactly when asked for or when fewer than the maximum are "
     "tracked: the image is covered by windows of equal size, each searched while it holds fewer than its share, with the finer detector "
     "when the first one finds too few, around a mask of the points tracked that is renewed for each frame; the points found are moved to "
     "the image and added under the lock. The handler gets, for this frame, the points that have descriptors with these descriptors, the "
     "points tracked and the depth image.",
     ["inputs", "schedules"], "all images, sequences of frames, tracked points, results of OpenCV and schedules of the cells",
     "No test covers the extraction of keypoints, and the file is not even built where opencv_contrib is missing; a wrong index shows only when some "
     "points are lost before others.",
     ["src/features/keypoints/keypoint_detection.cpp"],
     [("tracking", "Key_Point_Extraction::get_keypoints_from_optical_flow"), ("frame", "Key_Point_Extraction::compute_keypoints"),
      ("detection", "Key_Point_Extraction::detect_keypoints, perform_keypoint_detection"), ("mask", "Key_Point_Extraction::compute_key_point_mask"),
      ("windows", "Key_Point_Extraction::Key_Point_Extraction")],
     "value numbers with exact path conditions: lists followed in step over the two filters, arguments and results of each call followed; "
     "windows compared as rational functions",
     "Holds for all inputs, for the sources as compiled; what OpenCV does is trusted.")

prop("P26", "Quantities of different frames never meet without a transformation",
     "World, camera and screen coordinates, covariances, planes and polygons stay apart: wherever a value is constructed, assigned, added, "
     "subtracted, compared or projected on another, both are in the same frame, even where the types have been lost (plain vectors, "
     "local copies, blocks, homogeneous or scaled forms, members of a framed object); a transition matrix, its rotation or its inverse is applied only to the "
     "frame it starts from and gives the frame it leads to, and matrices are chained end to end. A matrix or a plane of one frame cannot be "
     "passed for, or assigned to, one of another.",
     ["inputs"], "all functions of the library, all values",
     "The coordinate types convert to each other silently through their Eigen base, so a missing transformation compiles; tests with the "
     "camera at the origin cannot see it.",
     ["src/coordinates/point_coordinates.cpp", "src/coordinates/polygon_coordinates.cpp", "src/coordinates/plane_coordinates.cpp",
      "src/coordinates/inverse_depth_coordinates.cpp", "src/types.hpp", "src/tracking/plane_with_tracking.cpp",
      "src/tracking/inverse_depth_with_tracking.cpp", "src/map_management/map_features/map_point.cpp",
      "src/map_management/map_features/map_primitive.cpp"],
     [("points", "CameraCoordinate, WorldCoordinate, ScreenCoordinate"), ("polygons", "CameraPolygon::to_world_space, WorldPolygon::to_camera_space"),
      ("tracking", "tracking::Point, tracking::Plane, tracking::PointInverseDepth"), ("matrices", "WorldToCameraMatrix, CameraToWorldMatrix")],
     "type-based dataflow of frames over the type-checked syntax tree of every function; compile-fail witnesses for matrices and planes",
     "every function of the library; scalars have no frame; a value whose frame cannot be inferred is not judged")
