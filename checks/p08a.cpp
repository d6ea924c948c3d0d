#include "p08.hpp"
void fill0() { fillFlavour<0>(std::make_integer_sequence<int, 3>()); }
