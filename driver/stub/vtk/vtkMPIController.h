#include "vtkStub.h"
