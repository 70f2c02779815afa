#pragma once
#include <pcl/PCLPointCloud2.h>
#include <pcl/conversions.h>
#include <pcl/point_cloud.h>
#include <ros/time.h>
#include <sensor_msgs/PointCloud2.h>
#include <sensor_msgs/PointField.h>
#include <std_msgs/Header.h>
// The conversions of pcl_conversions (stamps are microseconds in PCL).
namespace vr_pcl {
inline void fromPCL(const std::uint64_t& s, ros::Time& t) { t.fromNSec(s * 1000ULL); }
inline void toPCL(const ros::Time& t, std::uint64_t& s) { s = t.toNSec() / 1000ULL; }
inline ros::Time fromPCL(const std::uint64_t& s) { ros::Time t; fromPCL(s, t); return t; }
inline std::uint64_t toPCL(const ros::Time& t) { std::uint64_t s; toPCL(t, s); return s; }
inline void fromPCL(const pcl::PCLHeader& p, std_msgs::Header& h) { fromPCL(p.stamp, h.stamp); h.seq = p.seq; h.frame_id = p.frame_id; }
inline void toPCL(const std_msgs::Header& h, pcl::PCLHeader& p) { toPCL(h.stamp, p.stamp); p.seq = h.seq; p.frame_id = h.frame_id; }
inline std_msgs::Header fromPCL(const pcl::PCLHeader& p) { std_msgs::Header h; fromPCL(p, h); return h; }
inline pcl::PCLHeader toPCL(const std_msgs::Header& h) { pcl::PCLHeader p; toPCL(h, p); return p; }
inline void fromPCL(const pcl::PCLPointField& a, sensor_msgs::PointField& b) { b.name = a.name; b.offset = a.offset; b.datatype = a.datatype; b.count = a.count; }
inline void toPCL(const sensor_msgs::PointField& a, pcl::PCLPointField& b) { b.name = a.name; b.offset = a.offset; b.datatype = a.datatype; b.count = a.count; }
inline void fromPCL(const pcl::PCLPointCloud2& a, sensor_msgs::PointCloud2& b) {
    fromPCL(a.header, b.header);
    b.height = a.height; b.width = a.width;
    b.fields.resize(a.fields.size());
    for (std::size_t i = 0; i < a.fields.size(); ++i) fromPCL(a.fields[i], b.fields[i]);
    b.is_bigendian = a.is_bigendian; b.point_step = a.point_step; b.row_step = a.row_step; b.is_dense = a.is_dense;
    b.data.assign(a.data.begin(), a.data.end());
}
inline void toPCL(const sensor_msgs::PointCloud2& a, pcl::PCLPointCloud2& b) {
    toPCL(a.header, b.header);
    b.height = a.height; b.width = a.width;
    b.fields.resize(a.fields.size());
    for (std::size_t i = 0; i < a.fields.size(); ++i) toPCL(a.fields[i], b.fields[i]);
    b.is_bigendian = a.is_bigendian; b.point_step = a.point_step; b.row_step = a.row_step; b.is_dense = a.is_dense;
    b.data.assign(a.data.begin(), a.data.end());
}
inline void moveFromPCL(pcl::PCLPointCloud2& a, sensor_msgs::PointCloud2& b) { fromPCL(a, b); a.data.clear(); }
inline void moveToPCL(sensor_msgs::PointCloud2& a, pcl::PCLPointCloud2& b) { toPCL(a, b); a.data.clear(); }
}
