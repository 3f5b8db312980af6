// every public header of the library, with VTK
#define WITH_VTK
#define WITH_PARALLEL_VTK
#include <mito/public.h>
