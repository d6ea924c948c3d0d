#include "p08.hpp"
void fill1() { fillFlavour<1>(std::make_integer_sequence<int, 3>()); }
