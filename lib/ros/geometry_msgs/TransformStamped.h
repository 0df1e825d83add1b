#pragma once
#include <ros_standins.hpp>
