#pragma once
#include <message_filters/message_filters.hpp>
