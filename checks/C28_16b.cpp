#include "C16b_convert.cpp"
