#include "external/quadprog++/QuadProg++.hh"
