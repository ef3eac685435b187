#pragma once
#include "VTKTimeDependentWriter.h"
