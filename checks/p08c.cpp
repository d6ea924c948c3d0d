#include "p08.hpp"
void fill2() { fillFlavour<2>(std::make_integer_sequence<int, 3>()); }
