#include "../nf_sundials.hpp"
