#pragma once
#include <gmock/gmock.h>
