// The node's own main, callable.
#include <iostream>
#include <memory>
#include <ros/ros.h>
#define main serpent_node_main
#include "serpent/src/nodes/node.cpp"
