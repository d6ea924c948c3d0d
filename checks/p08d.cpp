#include "p08.hpp"
void fill3() { fillFlavour<3>(std::make_integer_sequence<int, 3>()); }
