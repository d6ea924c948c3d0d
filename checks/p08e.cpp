#include "p08.hpp"
void fill4() {
	fillNode<0, 0>(Above7());
	fillNode<0, 1>(Above7());
	fillNode<0, 2>(Above7());
}
