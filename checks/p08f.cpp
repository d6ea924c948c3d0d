#include "p08.hpp"
void fill5() { fillNode<0, 3>(std::make_integer_sequence<int, 15>()); }
