#pragma once
#include "ElementsKernel/ProgramHeaders.h"
