#include "scen.hpp"
namespace sim { 
__attribute__((weak)) void scenFence() {}
__attribute__((weak)) void scenCache() {}
__attribute__((weak)) void scenThreads() {}
__attribute__((weak)) void scenWorld() {}
}
