#include <petscksp.h>
