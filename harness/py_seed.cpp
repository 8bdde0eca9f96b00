// Preloaded into the Python worker: the module and the C++ oracle draw the same
// pseudo-random sequence, so that the randomised planners can be compared.
#include <random>
unsigned int std::random_device::_M_getval() { return 20240229u; }
