#pragma once
#include <ros/ros.h>
#include <geometry_msgs/TransformStamped.h>
#include <tf2_msgs/TFMessage.h>
namespace tf2 {
struct TransformException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LookupException : TransformException { using TransformException::TransformException; };
struct ExtrapolationException : TransformException { using TransformException::TransformException; };
struct ConnectivityException : TransformException { using TransformException::TransformException; };
}
namespace tf2_ros {
class Buffer {
public:
    explicit Buffer(const ros::Duration& = ros::Duration(10.0), bool = false) {}
    geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration = ros::Duration(0.0)) const {
        geometry_msgs::TransformStamped r;
        auto f = vros::Bus::get().tf_lookup;
        if (!f || !f(target, source, t, &r)) throw tf2::LookupException("no transform from " + source + " to " + target);
        return r;
    }
    bool canTransform(const std::string& target, const std::string& source, const ros::Time& t, const ros::Duration = ros::Duration(0.0), std::string* = nullptr) const {
        geometry_msgs::TransformStamped r;
        auto f = vros::Bus::get().tf_lookup;
        return f && f(target, source, t, &r);
    }
};
class TransformListener {
public:
    explicit TransformListener(Buffer&, bool = true) {}
    TransformListener(Buffer&, const ros::NodeHandle&, bool = true) {}
};
template<int STATIC>
class vr_broadcaster {
public:
    vr_broadcaster() : p(ros::NodeHandle().advertise<tf2_msgs::TFMessage>(STATIC ? "/tf_static" : "/tf", 100, STATIC)) {}
    void sendTransform(const geometry_msgs::TransformStamped& t) { sendTransform(std::vector<geometry_msgs::TransformStamped>{t}); }
    void sendTransform(const std::vector<geometry_msgs::TransformStamped>& t) { tf2_msgs::TFMessage m; m.transforms = t; p.publish(m); }

private:
    ros::Publisher p;
};
typedef vr_broadcaster<0> TransformBroadcaster;
typedef vr_broadcaster<1> StaticTransformBroadcaster;
}
