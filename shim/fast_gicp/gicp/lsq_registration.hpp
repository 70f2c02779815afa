#pragma once
#include <fast_gicp/gicp/all.hpp>
