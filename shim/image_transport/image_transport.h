#pragma once
#include <ros/ros.h>
#include <sensor_msgs/CameraInfo.h>
#include <sensor_msgs/Image.h>
namespace image_transport {
class Publisher {
public:
    Publisher() {}
    explicit Publisher(const ros::Publisher& p_) : p(p_) {}
    void publish(const sensor_msgs::Image& m) const { p.publish(m); }
    void publish(const sensor_msgs::ImageConstPtr& m) const { p.publish(m); }
    std::string getTopic() const { return p.getTopic(); }
    std::uint32_t getNumSubscribers() const { return p.getNumSubscribers(); }
    operator void*() const { return (void*)p; }

private:
    ros::Publisher p;
};
typedef ros::Subscriber Subscriber;
class ImageTransport {
public:
    explicit ImageTransport(const ros::NodeHandle& n) : nh(n) {}
    Publisher advertise(const std::string& t, std::uint32_t q, bool latch = false) { return Publisher(nh.advertise<sensor_msgs::Image>(t, q, latch)); }
    template<typename T, typename U>
    Subscriber subscribe(const std::string& t, std::uint32_t q, void (T::*f)(const sensor_msgs::ImageConstPtr&), U* o) { return nh.subscribe(t, q, f, o); }

private:
    ros::NodeHandle nh;
};
}
