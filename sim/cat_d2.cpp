// The same catalogue as in cat_d.cpp, compiled once more: a second source file of the same program, which includes the
// library too. Operations of a plan can be executed from either of them.
#define CAT_SECOND
#include "cat_d.cpp"
