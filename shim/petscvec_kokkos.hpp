#include "nf_petsc.hpp"
