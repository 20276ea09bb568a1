// The same uses, all on the device, with host and device memory kept apart.
#include "C14_stencil.cpp"
