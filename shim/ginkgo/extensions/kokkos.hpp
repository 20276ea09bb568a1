#include "../ginkgo.hpp"
