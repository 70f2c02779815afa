// Forced include for the parts that need no ROS: what the repository's own build supplies (see /opt/vp/cmake).
#pragma once
#include <functional>
#include <memory>
#include <stdexcept>
namespace boost { using std::make_shared; }
