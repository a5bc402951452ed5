// Instantiates the library's templates that its own units do not (or not in every shape), so that their bodies are
// analysed as well. Only parsed, never compiled into anything.
#include "tracking/kalman_filter.hpp"
#include "utils/covariances.hpp"
#include "utils/random.hpp"

namespace rgbd_slam::tracking {
template class KalmanFilter<3, 3>;
template class SharedKalmanFilter<4, 2>;
} // namespace rgbd_slam::tracking

namespace rgbd_slam::utils {
template bool is_covariance_valid<1>(const Eigen::Matrix<double, 1, 1>&, std::string&) noexcept;
template bool is_covariance_valid<2>(const Eigen::Matrix<double, 2, 2>&, std::string&) noexcept;
template bool is_covariance_valid<2>(const Eigen::Matrix<double, 2, 2>&) noexcept;
} // namespace rgbd_slam::utils

#include "utils/line.hpp"
namespace rgbd_slam::utils {
template class Line<2>;
template class Line<3>;
template class Segment<2>;
template class Segment<3>;
} // namespace rgbd_slam::utils

#include "map_management/map_features/map_point.hpp"
#include "map_management/map_features/map_point2d.hpp"
#include "map_management/map_features/map_primitive.hpp"
namespace rgbd_slam::map_management {
template class Feature_Map<LocalMapPoint, StagedMapPoint, DetectedKeypointsObject, DetectedPointType, TrackedPointsObject>;
template class Feature_Map<LocalMapPoint2D, StagedMapPoint2D, DetectedKeypointsObject, DetectedPoint2DType, TrackedPointsObject>;
template class Feature_Map<LocalMapPlane, StagedMapPlane, DetectedPlaneObject, DetectedPlaneType, TrackedPlaneObject>;
} // namespace rgbd_slam::map_management
