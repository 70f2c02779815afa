#define VR_C25_UNIT
#include "c25.cpp"
