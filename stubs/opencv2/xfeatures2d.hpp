#pragma once
#include <opencv2/features2d.hpp>
namespace cv { namespace xfeatures2d {
class BriefDescriptorExtractor : public cv::Feature2D { public: static cv::Ptr<BriefDescriptorExtractor> create(int bytes=32, bool use_orientation=false); };
}}
