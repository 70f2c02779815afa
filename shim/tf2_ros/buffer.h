#pragma once
#include <tf2_ros/tf2_ros.hpp>
