// Compiles when the library's headers do.
#include "lib.hpp"
int main() { lalib::DynVec<double> v(3, 0.0); return (int)v.size() - 3; }
