#pragma once
#include <opencv2/core.hpp>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/image_encodings.h>
#include <stdexcept>
namespace cv_bridge {
struct Exception : std::runtime_error { using std::runtime_error::runtime_error; };
inline int getCvType(const std::string& e) {
    if (e == "mono8" || e == "8UC1") return CV_8UC1;
    if (e == "mono16" || e == "16UC1") return CV_16UC1;
    if (e == "bgr8" || e == "rgb8" || e == "8UC3") return CV_8UC3;
    if (e == "bgra8" || e == "rgba8" || e == "8UC4") return CV_8UC4;
    if (e == "32FC1") return CV_32FC1;
    throw Exception("Unrecognized image encoding [" + e + "]");
}
class CvImage;
typedef boost::shared_ptr<CvImage> CvImagePtr;
typedef boost::shared_ptr<CvImage const> CvImageConstPtr;
class CvImage {
public:
    typedef CvImagePtr Ptr;
    typedef CvImageConstPtr ConstPtr;
    std_msgs::Header header;
    std::string encoding;
    cv::Mat image;
    CvImage() {}
    CvImage(const std_msgs::Header& h, const std::string& e, const cv::Mat& i = cv::Mat()) : header(h), encoding(e), image(i) {}
    sensor_msgs::ImagePtr toImageMsg() const { sensor_msgs::ImagePtr p(new sensor_msgs::Image); toImageMsg(*p); return p; }
    void toImageMsg(sensor_msgs::Image& m) const {
        m.header = header;
        m.height = image.rows;
        m.width = image.cols;
        m.encoding = encoding;
        m.is_bigendian = false;
        m.step = image.cols * image.elemSize();
        m.data.resize(static_cast<std::size_t>(m.step) * image.rows);
        for (int r = 0; r < image.rows; ++r) std::copy(image.ptr<unsigned char>(r), image.ptr<unsigned char>(r) + m.step, m.data.begin() + static_cast<std::size_t>(r) * m.step);
    }
    boost::shared_ptr<const void> vr_tracked;
};
inline CvImageConstPtr toCvShare(const sensor_msgs::ImageConstPtr& m, const std::string& encoding = std::string()) {
    if (!m) throw Exception("null image");
    if (!encoding.empty() && encoding != m->encoding) throw Exception("stand-in has no colour conversion");
    CvImagePtr p(new CvImage(m->header, m->encoding));
    const int type = getCvType(m->encoding);
    if (m->step < m->width * CV_ELEM_SIZE(type)) throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");
    if (static_cast<std::size_t>(m->height) * m->step != m->data.size()) throw Exception("Image is wrongly formed: height * step != size");
    p->image = cv::Mat(m->height, m->width, type, const_cast<unsigned char*>(m->data.data()), m->step);
    p->vr_tracked = m;
    return p;
}
inline CvImagePtr toCvCopy(const sensor_msgs::ImageConstPtr& m, const std::string& encoding = std::string()) {
    auto s = toCvShare(m, encoding);
    CvImagePtr p(new CvImage(s->header, s->encoding, s->image.clone()));
    return p;
}
}
