#pragma once
#include "vtkstub.h"
