#pragma once
#include <boost/filesystem.hpp>
#include <vector>
#include <string>
