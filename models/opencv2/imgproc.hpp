#pragma once
#include "opencv2/imgcodecs.hpp"
