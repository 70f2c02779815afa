#pragma once
#include <ros/ros.h>
namespace pcl_conversions { using namespace vr_pcl; }
namespace pcl {
template<typename T>
void fromROSMsg(const sensor_msgs::PointCloud2& c, pcl::PointCloud<T>& p) { pcl::PCLPointCloud2 m; vr_pcl::toPCL(c, m); pcl::fromPCLPointCloud2(m, p); }
template<typename T>
void toROSMsg(const pcl::PointCloud<T>& p, sensor_msgs::PointCloud2& c) { pcl::PCLPointCloud2 m; pcl::toPCLPointCloud2(p, m); vr_pcl::fromPCL(m, c); }
}
