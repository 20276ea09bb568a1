// The same uses, all on the device, with host and device memory kept apart.
#include "C19_div_explicit.cpp"
