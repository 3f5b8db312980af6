// every public header of the library
#include <mito/public.h>
