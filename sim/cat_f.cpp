#define HOMOG2D_ENABLE_VRTP
#define NUMT float
#define UNI "f"
#define BF4P_METHOD 0
#define BF4P_METHODK(k) ((k)&1)
#define h2d h2d_f
#include "cat.hpp"
