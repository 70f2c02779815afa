#include <ros/ros.h>
#include <serpent/mapping/mapping.hpp>
namespace serpent { FrameExtractionMethod other_unit(const std::string& m) { return to_frame_extraction_method(m); } }
