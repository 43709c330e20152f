#include <envire/Core.hpp>
#include <iostream>
#include <stdexcept>
#include <stdint.h>
#include <vector>
#define CHECK(c) do { if( !(c) ) { std::cerr << "FAILED line " << __LINE__ << ": " #c << std::endl; return 1; } } while(0)
// the stand-in for base::Time asks for the time here
extern "C" int64_t sim_clock_us() { static int64_t t = 1000000; return t += 1000; }
