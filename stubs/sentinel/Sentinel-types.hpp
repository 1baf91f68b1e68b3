#pragma once
#include "Sentinel-API.hpp"
